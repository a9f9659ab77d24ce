//! E7: the version registry (C19) and DAO upgrades (C20).
use crate::dao::*;
use crate::direct::Direct;
use crate::e2_member::Kind;
use crate::fw::*;
use crate::world::*;
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::testing::MockQuerier;
use cosmwasm_std::{Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Reply, Response};
use cw_multi_test::Contract;
use cw_storage_plus::Item;
use enterprise_protocol::api::DaoInfoResponse;
use enterprise_versioning_api::api::{AddVersionMsg, Version, VersionInfo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

type V = (u64, u64, u64);
fn ver(v: &V) -> Version {
    Version::new(v.0, v.1, v.2)
}
fn vjson(v: &V) -> Value {
    json!({"major": v.0, "minor": v.1, "patch": v.2})
}
fn comp() -> BoxedStrategy<u64> {
    prop_oneof![6 => 0u64..4, 2 => prop::sample::select(vec![9u64, 10, 11, 99, 100, 255, 256, 257, 65_535, 65_536]), 1 => prop::sample::select(vec![u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX])].boxed()
}
fn vstrat() -> BoxedStrategy<V> {
    (comp(), comp(), comp()).boxed()
}

// =================================================================== C19
const FIELDS: [&str; 11] = [
    "attestation_code_id",
    "enterprise_code_id",
    "enterprise_governance_code_id",
    "enterprise_governance_controller_code_id",
    "enterprise_outposts_code_id",
    "enterprise_treasury_code_id",
    "funds_distributor_code_id",
    "token_staking_membership_code_id",
    "denom_staking_membership_code_id",
    "nft_staking_membership_code_id",
    "multisig_membership_code_id",
];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Add { v: V, base: u64, log: u8, by: u8 },
    AddRun { major: u64, minor: u64, from: u8, n: u8, base: u64 },
    /// pick: index among the published ones, or a fresh version
    Edit { pick: u16, fresh: Option<V>, mask: u16, base: u64, log: Option<u8>, by: u8 },
    Admin { to: u8, by: u8 },
    Page { start: u16, at: Option<V>, size: Option<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    ops: Vec<ROp>,
}
fn info_of(v: &V, base: u64, log: u8) -> Value {
    let mut o = json!({"version": vjson(v), "changelog": (0..log % 3).map(|i| format!("entry {base} {i}")).collect::<Vec<_>>()});
    for (i, f) in FIELDS.iter().enumerate() {
        o[*f] = json!(base.wrapping_mul(100).wrapping_add(i as u64));
    }
    o
}

pub struct C19;
impl Check for C19 {
    type Case = RCase;
    fn strategy(&self) -> BoxedStrategy<RCase> {
        let by = || prop_oneof![12 => Just(0u8), 1 => 1u8..4];
        let op = prop_oneof![
            8 => (vstrat(), 1u64..1000, 0u8..3, by()).prop_map(|(v, base, log, by)| ROp::Add { v, base, log, by }),
            1 => (comp(), comp(), 0u8..250, 1u8..60, 1u64..1000).prop_map(|(major, minor, from, n, base)| ROp::AddRun { major, minor, from, n, base }),
            5 => (any::<u16>(), prop::option::weighted(0.15, vstrat()), 0u16..2048, 1000u64..2000, prop::option::of(0u8..3), by())
                .prop_map(|(pick, fresh, mask, base, log, by)| ROp::Edit { pick, fresh, mask, base, log, by }),
            1 => (0u8..4, by()).prop_map(|(to, by)| ROp::Admin { to, by }),
            4 => (any::<u16>(), prop::option::weighted(0.3, vstrat()), prop_oneof![1 => Just(None), 5 => (1u8..120).prop_map(Some), 3 => (1u8..5).prop_map(Some)])
                .prop_map(|(start, at, size)| ROp::Page { start, at, size }),
        ];
        prop::collection::vec(op, 1..30).prop_map(|ops| RCase { ops }).boxed()
    }
    fn cases(&self) -> (u64, u64) {
        (20_000, 600_000)
    }
    fn rule(&self) -> &'static str {
        "the registry reached at least three versions and at least one edit, refused duplicate or multi-page walk happened"
    }
    fn run(&self, c: &RCase, cov: &mut Cov) -> Res {
        const P: &[PropId] = &["C19"];
        use enterprise_versioning::contract as vc;
        use enterprise_versioning_api::msg as vm;
        let mut d = Direct::new(MockQuerier::<Empty>::new(&[]));
        let name = |i: u8| format!("admin{i}");
        d.tx("whoever", &[], |a, b, i| vc::instantiate(a, b, i, vm::InstantiateMsg { admin: name(0) })).or_else(|e| div(P, e))?;
        // model
        let mut admin = 0u8;
        let mut m: BTreeMap<V, Value> = BTreeMap::new();
        type D = Direct<MockQuerier<Empty>>;
        let exec = |d: &mut D, by: u8, msg: &Value| -> Result<(), String> {
            let msg: vm::ExecuteMsg = cosmwasm_std::from_json(serde_json::to_vec(msg).unwrap()).map_err(|e| e.to_string())?;
            d.tx(&name(by), &[], |a, b, i| vc::execute(a, b, i, msg)).map(|_| ())
        };
        let q = |d: &D, msg: &Value| -> Result<Value, String> {
            let msg: vm::QueryMsg = cosmwasm_std::from_json(serde_json::to_vec(msg).unwrap()).map_err(|e| e.to_string())?;
            d.q(|a, b| vc::query(a, b, msg))
        };
        let by_of = |by: u8, admin: u8| if by == 0 { admin } else { (admin + by) % 4 };
        for (n, op) in c.ops.iter().enumerate() {
            match op {
                ROp::Add { v, base, log, by } => {
                    let info = info_of(v, *base, *log);
                    let r = exec(&mut d, by_of(*by, admin), &json!({"add_version": {"version": info}}));
                    let ok = *by == 0 && !m.contains_key(v);
                    ensure_eq_p!(r.is_ok(), ok, if *by == 0 { P } else { &["C15", "C19"] }, "step {n}: adding {v:?} (already there: {}) by {by}: {r:?}", m.contains_key(v));
                    if ok {
                        m.insert(*v, info);
                    } else {
                        cov.hit("refused-add");
                    }
                }
                ROp::AddRun { major, minor, from, n: k, base } => {
                    for p in *from as u64..*from as u64 + *k as u64 {
                        let v = (*major, *minor, p);
                        if m.contains_key(&v) {
                            continue;
                        }
                        let info = info_of(&v, base + p, 0);
                        let r = exec(&mut d, admin, &json!({"add_version": {"version": info}}));
                        ensure_p!(r.is_ok(), P, "step {n}: adding {v:?} refused: {r:?}");
                        m.insert(v, info);
                    }
                    cov.hit("run-of-versions");
                }
                ROp::Edit { pick, fresh, mask, base, log, by } => {
                    let v = match (fresh, m.len()) {
                        (Some(f), _) => *f,
                        (None, 0) => (1, 2, 3),
                        (None, l) => *m.keys().nth(*pick as usize % l).unwrap(),
                    };
                    let mut e = json!({"version": vjson(&v)});
                    let mut new = m.get(&v).cloned().unwrap_or(Value::Null);
                    for (i, f) in FIELDS.iter().enumerate() {
                        if mask & (1 << i) != 0 {
                            e[*f] = json!(base * 100 + i as u64);
                            new[*f] = json!(base * 100 + i as u64);
                        } else {
                            e[*f] = Value::Null;
                        }
                    }
                    e["changelog"] = Value::Null;
                    if let Some(l) = log {
                        let l: Vec<String> = (0..*l).map(|i| format!("edited {base} {i}")).collect();
                        e["changelog"] = json!(l);
                        new["changelog"] = json!(l);
                    }
                    let r = exec(&mut d, by_of(*by, admin), &json!({ "edit_version": e }));
                    let ok = *by == 0 && m.contains_key(&v);
                    ensure_eq_p!(r.is_ok(), ok, if *by == 0 { P } else { &["C15", "C19"] }, "step {n}: editing {v:?} (exists: {}) by {by}: {r:?}", m.contains_key(&v));
                    if ok {
                        m.insert(v, new);
                        cov.hit("edited");
                    } else {
                        cov.hit("refused-edit");
                    }
                }
                ROp::Admin { to, by } => {
                    let r = exec(&mut d, by_of(*by, admin), &json!({"update_admin": {"new_admin": name(*to)}}));
                    ensure_eq_p!(r.is_ok(), *by == 0, &["C15"], "step {n}: admin change by {by}");
                    if r.is_ok() {
                        admin = *to;
                        cov.hit("admin-changed");
                    }
                }
                ROp::Page { start, at, size } => {
                    // page through everything after an arbitrary starting point
                    let from: Option<V> = match at {
                        Some(v) => Some(*v),
                        None if m.is_empty() || *start % 3 == 0 => None,
                        None => m.keys().nth(*start as usize % m.len()).copied(),
                    };
                    let want: Vec<Value> = match from {
                        None => m.values().cloned().collect(),
                        Some(f) => m.range((std::ops::Bound::Excluded(f), std::ops::Bound::Unbounded)).map(|x| x.1.clone()).collect(),
                    };
                    let mut got: Vec<Value> = vec![];
                    let mut cur = from.map(|f| vjson(&f));
                    let mut pages = 0;
                    loop {
                        let r = q(&d, &json!({"versions": {"start_after": cur, "limit": size}}));
                        let r = match r {
                            Ok(r) => r,
                            Err(e) => return div(&["C19", "C25"], format!("step {n}: versions query fails: {e}")),
                        };
                        let page = r["versions"].as_array().cloned().unwrap_or_default();
                        if page.is_empty() {
                            break;
                        }
                        if let Some(s) = size {
                            ensure_p!(page.len() <= *s as usize, &["C19", "C25"], "step {n}: page of {} for limit {s}", page.len());
                        }
                        cur = page.last().map(|x| x["version"].clone());
                        got.extend(page);
                        pages += 1;
                        ensure_p!(got.len() <= want.len() + 200, &["C19", "C25"], "step {n}: paging versions does not end");
                    }
                    ensure_eq_p!(
                        got.iter().map(|x| x["version"].to_string()).collect::<Vec<_>>(),
                        want.iter().map(|x| x["version"].to_string()).collect::<Vec<_>>(),
                        &["C19", "C25"],
                        "step {n}: versions after {from:?} in pages of {size:?}"
                    );
                    ensure_p!(got == want, P, "step {n}: version infos after {from:?} differ from what was stored");
                    if pages > 1 {
                        cov.hit("several-pages");
                    }
                }
            }
            // full observation
            let r = q(&d, &json!({"latest_version": {}}));
            match m.iter().next_back() {
                None => ensure_p!(r.is_err(), P, "step {n}: a latest version of an empty registry: {r:?}"),
                Some((_, want)) => ensure_eq_p!(r.map(|x| x["version"].clone()), Ok(want.clone()), P, "step {n}: latest version"),
            }
            let touched = match op {
                ROp::Add { v, .. } => Some(*v),
                ROp::Edit { fresh: Some(v), .. } => Some(*v),
                _ => None,
            };
            for v in m.keys().copied().step_by(1 + m.len() / 8).chain(touched) {
                let r = q(&d, &json!({"version": {"version": vjson(&v)}}));
                match m.get(&v) {
                    Some(want) => ensure_eq_p!(r.map(|x| x["version"].clone()), Ok(want.clone()), P, "step {n}: stored info of {v:?}"),
                    None => ensure_p!(r.is_err(), P, "step {n}: {v:?} was never added but is reported: {r:?}"),
                }
            }
            let a = q(&d, &json!({"admin": {}}));
            ensure_eq_p!(a.map(|x| x["admin"].clone()), Ok(json!(name(admin))), &["C15"], "step {n}: admin");
        }
        // at the end, every single version
        for (v, want) in &m {
            let r = q(&d, &json!({"version": {"version": vjson(v)}}));
            ensure_eq_p!(r.map(|x| x["version"].clone()), Ok(want.clone()), P, "at the end: stored info of {v:?}");
        }
        if m.len() >= 3 && (cov.has("edited") || cov.has("refused-add") || cov.has("several-pages")) {
            cov.nontrivial = true;
        }
        if m.len() > 50 {
            cov.hit("more-than-50-versions");
        }
        Ok(())
    }
}

// =================================================================== C20
const LOG: Item<Vec<(u64, Binary)>> = Item::new("zz_migration_log");
/// the DAO's main contract, with a migration that records (which code, which message)
struct MigProbe {
    marker: u64,
    inner: Box<dyn Contract<Empty>>,
}
impl Contract<Empty> for MigProbe {
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> {
        self.inner.execute(d, e, i, m)
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> {
        self.inner.instantiate(d, e, i, m)
    }
    fn query(&self, d: Deps, e: Env, m: Vec<u8>) -> anyhow::Result<Binary> {
        self.inner.query(d, e, m)
    }
    fn sudo(&self, d: DepsMut, e: Env, m: Vec<u8>) -> anyhow::Result<Response> {
        self.inner.sudo(d, e, m)
    }
    fn reply(&self, d: DepsMut, e: Env, m: Reply) -> anyhow::Result<Response> {
        self.inner.reply(d, e, m)
    }
    fn migrate(&self, d: DepsMut, _: Env, m: Vec<u8>) -> anyhow::Result<Response> {
        if m.windows(4).any(|w| w == b"fail") {
            anyhow::bail!("requested failure");
        }
        let mut l = LOG.may_load(d.storage)?.unwrap_or_default();
        l.push((self.marker, Binary(m)));
        LOG.save(d.storage, &l)?;
        Ok(Response::new())
    }
}

const CODES: usize = 5;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum UOp {
    Publish { v: V, code: u8 },
    PublishRun { major: u64, minor: u64, from: u8, n: u8 },
    EditCode { pick: u16, code: u8 },
    /// binds the DAO to another registry and/or factory
    Config { reg: Option<bool>, fac: Option<u8>, by: u8 },
    /// target: pick among the published ones (true: among those above the current one) or a free version
    Upgrade { pick: u16, above: bool, free: Option<V>, msgs: Vec<(u16, u8)>, dup: bool, by: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum UCase {
    Walk { start: V, ops: Vec<UOp> },
    /// a real DAO created with an older release's codes, upgraded to the current and possibly a newer one
    Real { kind: Kind, stakes: Vec<u32>, council: bool, further: bool, between: u8, twice: bool },
}

fn payload(k: u8) -> Vec<u8> {
    match k % 8 {
        0 => b"{}".to_vec(),
        7 => br#"{"fail":{}}"#.to_vec(),
        x => format!("{{\"step\":{x}}}").into_bytes(),
    }
}

pub struct C20;
impl Check for C20 {
    type Case = UCase;
    fn strategy(&self) -> BoxedStrategy<UCase> {
        let small = || prop_oneof![6 => 0u64..3, 1 => prop::sample::select(vec![9u64, 10, 256])];
        let v = move || (small(), small(), small());
        let up = (
            any::<u16>(),
            prop::bool::weighted(0.8),
            prop::option::weighted(0.12, v()),
            prop::collection::vec((any::<u16>(), prop_oneof![15 => 0u8..7, 1 => Just(7u8)]), 0..5),
            prop::bool::weighted(0.06),
            prop_oneof![12 => Just(0u8), 1 => 1u8..4],
        )
            .prop_map(|(pick, above, free, msgs, dup, by)| UOp::Upgrade { pick, above, free, msgs, dup, by });
        let op = prop_oneof![
            10 => (v(), any::<u8>()).prop_map(|(v, code)| UOp::Publish { v, code }),
            1 => (small(), small(), 0u8..200, 1u8..70).prop_map(|(major, minor, from, n)| UOp::PublishRun { major, minor, from, n }),
            1 => (any::<u16>(), any::<u8>()).prop_map(|(pick, code)| UOp::EditCode { pick, code }),
            4 => up,
            1 => (prop::option::of(any::<bool>()), prop::option::of(0u8..3), prop_oneof![6 => Just(0u8), 1 => 1u8..4]).prop_map(|(reg, fac, by)| UOp::Config { reg, fac, by }),
        ];
        let walk = (v(), prop::collection::vec(op, 2..26)).prop_map(|(start, ops)| UCase::Walk { start, ops });
        let real = (
            prop::sample::select(vec![Kind::Denom, Kind::Token, Kind::Nft, Kind::Multisig]),
            prop::collection::vec(0u32..1000, 3),
            any::<bool>(),
            any::<bool>(),
            0u8..3,
            any::<bool>(),
        )
            .prop_map(|(kind, stakes, council, further, between, twice)| UCase::Real { kind, stakes, council, further, between, twice });
        prop_oneof![9 => walk, 1 => real].boxed()
    }
    fn cases(&self) -> (u64, u64) {
        (30_000, 400_000)
    }
    fn rule(&self) -> &'static str {
        "an upgrade stepped through at least two published versions, or a real DAO was upgraded and inspected"
    }
    fn run(&self, c: &UCase, cov: &mut Cov) -> Res {
        match c {
            UCase::Walk { start, ops } => walk(start, ops, cov),
            UCase::Real { kind, stakes, council, further, between, twice } => real(*kind, stakes, *council, *further, *between, *twice, cov),
        }
    }
}

fn info(w: &World, e: &Addr) -> Res<DaoInfoResponse> {
    w.query(e, &json!({"dao_info": {}})).or_else(|x| div(&["C20", "C29"], format!("dao info: {x}")))
}
fn log(w: &World, e: &Addr) -> Vec<(u64, Vec<u8>)> {
    let key = LOG.as_slice().to_vec();
    w.dump(e).into_iter().find(|(k, _)| *k == key).map(|(_, v)| cosmwasm_std::from_json::<Vec<(u64, Binary)>>(v).unwrap().into_iter().map(|(a, b)| (a, b.0)).collect()).unwrap_or_default()
}
fn code_of(w: &World, a: &Addr) -> u64 {
    w.app.wrap().query_wasm_contract_info(a).unwrap().code_id
}

fn sender(by: u8, e: &Addr) -> String {
    match by {
        0 => "gov_controller".to_string(),
        1 => "user0".into(),
        2 => ECO_ADMIN.into(),
        _ => e.to_string(),
    }
}
fn walk(start: &V, ops: &[UOp], cov: &mut Cov) -> Res {
    const P: &[PropId] = &["C20"];
    let mut w = World::new();
    let codes: Vec<u64> = (0..CODES).map(|i| w.app.store_code(Box::new(MigProbe { marker: i as u64, inner: enterprise_code() }))).collect();
    let regs: Vec<Addr> = (0..2).map(|_| w.inst(w.codes.versioning, ECO_ADMIN, &json!({"admin": ECO_ADMIN}), None).unwrap()).collect();
    let e = w
        .inst(
            codes[0],
            ECO_ADMIN,
            &enterprise_protocol::msg::InstantiateMsg {
                enterprise_factory_contract: w.factory.to_string(),
                enterprise_versioning_contract: regs[0].to_string(),
                dao_metadata: meta("dao"),
                dao_creation_date: None,
                dao_type: enterprise_protocol::api::DaoType::Denom,
                dao_version: ver(start),
            },
            Some(ECO_ADMIN),
        )
        .unwrap();
    finalize(&mut w, &e, &Components::all("gov_controller"));
    w.exec_msg(ECO_ADMIN, cosmwasm_std::WasmMsg::UpdateAdmin { contract_addr: e.to_string(), admin: e.to_string() }.into()).unwrap();
    let i0 = info(&w, &e)?;
    let mut ms: Vec<BTreeMap<V, usize>> = vec![BTreeMap::new(); 2];
    // the registry and the factory the DAO is bound to
    let mut at = 0;
    let mut fac = w.factory.to_string();
    let mut cur = *start;
    let mut want: Vec<(u64, Vec<u8>)> = vec![];
    let mut code = codes[0];
    let publish = |w: &mut World, reg: &Addr, v: &V, c: usize, codes: &[u64]| {
        let mut i: VersionInfo = version_info(ver(v), &w.codes);
        i.enterprise_code_id = codes[c];
        w.exec(ECO_ADMIN, reg, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: i }), &[]).map(|_| ())
    };
    for (n, op) in ops.iter().enumerate() {
        match op {
            UOp::Publish { v, code } => {
                let to = if *code % 6 == 5 { 1 - at } else { at };
                if ms[to].contains_key(v) {
                    continue;
                }
                let c = *code as usize % CODES;
                publish(&mut w, &regs[to], v, c, &codes).or_else(|x| div(&["C19"], format!("publishing {v:?}: {x}")))?;
                ms[to].insert(*v, c);
            }
            UOp::PublishRun { major, minor, from, n: k } => {
                for p in *from as u64..*from as u64 + *k as u64 {
                    let v = (*major, *minor, p);
                    if ms[at].contains_key(&v) {
                        continue;
                    }
                    let c = p as usize % CODES;
                    publish(&mut w, &regs[at], &v, c, &codes).or_else(|x| div(&["C19"], format!("publishing {v:?}: {x}")))?;
                    ms[at].insert(v, c);
                }
            }
            UOp::EditCode { pick, code } => {
                let m = &mut ms[at];
                if m.is_empty() {
                    continue;
                }
                let v = *m.keys().nth(*pick as usize % m.len()).unwrap();
                let c = *code as usize % CODES;
                let mut msg = json!({"version": vjson(&v), "changelog": null});
                for f in FIELDS {
                    msg[f] = Value::Null;
                }
                msg["enterprise_code_id"] = json!(codes[c]);
                w.exec(ECO_ADMIN, &regs[at], &json!({ "edit_version": msg }), &[]).or_else(|x| div(&["C19"], format!("editing {v:?}: {x}")))?;
                m.insert(v, c);
            }
            UOp::Config { reg, fac: f, by } => {
                let sender = sender(*by, &e);
                let change = |x: Option<String>| x.map(|x| json!({ "change": x })).unwrap_or(json!("no_change"));
                let nreg = reg.map(|x| x as usize);
                let nfac = f.map(|f| if f == 0 { w.factory.to_string() } else { format!("factory{f}") });
                let msg = json!({"update_config": {"new_versioning_contract": change(nreg.map(|x| regs[x].to_string())), "new_factory_contract": change(nfac.clone())}});
                let r = w.exec(&sender, &e, &msg, &[]);
                ensure_eq_p!(r.is_ok(), *by == 0, if *by == 0 { P } else { &["C15", "C20"] }, "step {n}: {msg} by {sender}: {r:?}");
                if *by == 0 {
                    at = nreg.unwrap_or(at);
                    fac = nfac.unwrap_or(fac);
                    cov.hit("bound-anew");
                }
            }
            UOp::Upgrade { pick, above, free, msgs, dup, by } => {
                let m = &ms[at];
                let pool: Vec<V> = m.keys().copied().filter(|v| !*above || *v > cur).collect();
                let target = match (free, pool.len()) {
                    (Some(f), _) => *f,
                    (None, 0) => continue,
                    (None, l) => pool[*pick as usize % l],
                };
                let published = m.contains_key(&target);
                // messages for arbitrary published versions, often inside the range
                let range: Vec<V> = m.keys().copied().filter(|v| *v > cur && *v <= target).collect();
                let mut mm: BTreeMap<V, Vec<u8>> = BTreeMap::new();
                for (p, k) in msgs {
                    let src: Vec<V> = if *p % 4 != 0 && !range.is_empty() { range.clone() } else { m.keys().copied().collect() };
                    if !src.is_empty() {
                        mm.insert(src[(*p / 4) as usize % src.len()], payload(*k));
                    }
                }
                let mut list: Vec<Value> = mm.iter().map(|(v, b)| json!({"version": vjson(v), "migrate_msg": Binary(b.clone())})).collect();
                let dup = *dup && !list.is_empty();
                if dup {
                    let x = list[0].clone();
                    list.push(x);
                }
                // message order must not matter
                if pick % 2 == 0 {
                    list.reverse();
                }
                let sender = sender(*by, &e);
                let steps: Vec<(u64, Vec<u8>)> = range.iter().map(|v| (m[v] as u64, mm.get(v).cloned().unwrap_or_else(|| b"{}".to_vec()))).collect();
                let fails = steps.iter().any(|s| s.1.windows(4).any(|w| w == b"fail"));
                let ok = *by == 0 && target > cur && !dup && !fails;
                let r = w.exec(&sender, &e, &json!({"upgrade_dao": {"new_version": vjson(&target), "migrate_msgs": list}}), &[]);
                let what = format!("step {n}: upgrade {cur:?} -> {target:?} (steps {}, by {sender}, repeated message {dup}, failing step {fails})", steps.len());
                if ok && !published {
                    // a target that was never published: either refused, or treated as the walk up to it
                    cov.hit("unpublished-target");
                    if r.is_ok() {
                        cur = target;
                        if let Some(v) = range.last() {
                            code = codes[m[v]];
                        }
                        want.extend(steps);
                    }
                } else {
                    ensure_eq_p!(r.is_ok(), ok, if *by == 0 { P } else { &["C15", "C20"] }, "{what}: {r:?}");
                    if ok {
                        if steps.len() > 1 {
                            cov.hit("several-steps");
                            cov.nontrivial = true;
                        }
                        if steps.len() > 50 {
                            cov.hit("more-than-50-steps");
                        }
                        if steps.iter().any(|s| s.1 != b"{}") {
                            cov.hit("custom-message");
                        }
                        cur = target;
                        code = codes[m[&target]];
                        want.extend(steps);
                        cov.hit("upgraded");
                    } else {
                        cov.hit(if dup { "refused-repeated" } else if fails { "refused-failing-step" } else if *by != 0 { "refused-caller" } else { "refused-not-greater" });
                    }
                }
                let got = log(&w, &e);
                ensure_p!(
                    got == want,
                    P,
                    "{what}: migrations performed {:?}, expected {:?}",
                    got.iter().skip(want.len().min(got.len()).saturating_sub(4)).collect::<Vec<_>>(),
                    want.iter().skip(want.len().min(got.len()).saturating_sub(4)).collect::<Vec<_>>()
                );
                let i = info(&w, &e)?;
                ensure_eq_p!(i.dao_version, ver(&cur), P, "{what}: reported version");
                ensure_p!(i.metadata == i0.metadata && i.dao_type == i0.dao_type && i.creation_date == i0.creation_date, &["C20", "C29"], "{what}: other DAO facts changed");
                ensure_eq_p!(code_of(&w, &e), code, P, "{what}: code the DAO runs");
            }
        }
        let c: Value = w.query(&e, &json!({"component_contracts": {}})).or_else(|x| div(&["C20", "C29"], format!("component contracts: {x}")))?;
        let got = (c["enterprise_versioning_contract"].as_str(), c["enterprise_factory_contract"].as_str());
        ensure_eq_p!(got, (Some(regs[at].as_str()), Some(fac.as_str())), &["C20", "C29"], "step {n}: registry and factory after {op:?}");
    }
    Ok(())
}

fn real(kind: Kind, stakes: &[u32], council: bool, further: bool, between: u8, twice: bool, cov: &mut Cov) -> Res {
    const P: &[PropId] = &["C20"];
    let mut w = World::new();
    let old = store_codes(&mut w.app);
    let new = store_codes(&mut w.app);
    let reg = w.versioning.clone();
    let mut add = |w: &mut World, i: VersionInfo| {
        w.exec(ECO_ADMIN, &reg, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: i }), &[]).map(|_| ()).or_else(|x| div(&["C19"], format!("publishing: {x}")))
    };
    add(&mut w, version_info(Version::new(1, 1, 0), &old))?;
    for p in 1..=between as u64 {
        let mut i = version_info(Version::new(1, 1, p), &old);
        i.enterprise_code_id = new.enterprise;
        add(&mut w, i)?;
    }
    let top = Version::new(1, 10, 0);
    add(&mut w, version_info(top.clone(), &new))?;
    let (msg, asset) = simple_dao(&mut w, kind, council, stakes);
    create_dao(&mut w, &msg, Some(Version::new(1, 1, 0))).or_else(|x| div(&["C21"], format!("creation failed: {x}")))?;
    let d = last_dao(&w).or_else(|x| div(&["C21"], x))?;
    simple_stakes(&mut w, kind, &d, &asset, stakes).or_else(|x| div(&["C08", "C20"], format!("staking: {x}")))?;
    let snap = |w: &World| -> Res<Vec<Value>> {
        let mut out = vec![];
        for i in 0..stakes.len() {
            for m in [&d.c.membership_contract, &d.c.council_membership_contract] {
                out.push(w.query::<Value, _>(m, &json!({"user_weight": {"user": format!("user{i}")}})).or_else(|x| div(P, format!("weight after upgrade: {x}")))?);
            }
            out.push(
                w.query::<Value, _>(&d.c.funds_distributor_contract, &json!({"user_rewards": {"user": format!("user{i}"), "native_denoms": ["uone"], "cw20_assets": []}}))
                    .or_else(|x| div(P, format!("rewards after upgrade: {x}")))?,
            );
        }
        for m in [&d.c.membership_contract, &d.c.council_membership_contract] {
            out.push(w.query::<Value, _>(m, &json!({"total_weight": {"expiration": {"never": {}}}})).or_else(|x| div(P, format!("total weight after upgrade: {x}")))?);
        }
        Ok(out)
    };
    w.mint("donor", 1_000_000, "uone");
    let _ = w.exec("donor", &d.c.funds_distributor_contract.clone(), &json!({"distribute_native": {}}), &[cosmwasm_std::coin(1_000_000, "uone")]);
    let before = snap(&w)?;
    let ctrl = d.c.enterprise_governance_controller_contract.to_string();
    let targets: Vec<Version> = match (further, twice) {
        (true, true) => vec![current_version(), top.clone()],
        (true, false) => vec![top.clone()],
        (false, _) => vec![current_version()],
    };
    for t in targets {
        let r = w.exec(&ctrl, &d.enterprise, &json!({"upgrade_dao": {"new_version": t, "migrate_msgs": []}}), &[]);
        ensure_p!(r.is_ok(), P, "upgrading a real {kind:?} DAO to {t}: {r:?}");
        let main = if t == top { new.enterprise } else { w.codes.enterprise };
        ensure_eq_p!(code_of(&w, &d.enterprise), main, P, "main contract code after upgrade to {t}");
        let want = [
            ("outposts", &d.c.enterprise_outposts_contract, w.codes.outposts),
            ("distributor", &d.c.funds_distributor_contract, w.codes.distributor),
            (
                "membership",
                &d.c.membership_contract,
                match kind {
                    Kind::Denom => w.codes.denom,
                    Kind::Token => w.codes.token,
                    Kind::Nft => w.codes.nft,
                    Kind::Multisig => w.codes.multisig,
                },
            ),
            ("council membership", &d.c.council_membership_contract, w.codes.multisig),
        ];
        for (name, a, code) in want {
            ensure_eq_p!(code_of(&w, a), code, P, "{name} code after upgrade of a {kind:?} DAO to {t}");
        }
        ensure_eq_p!(info(&w, &d.enterprise)?.dao_version, t, P, "reported version");
    }
    ensure_eq_p!(snap(&w)?, before, P, "weights and rewards across the upgrade of a {kind:?} DAO");
    let c2 = dao_at(&w, &d.treasury).or_else(|x| div(P, x))?;
    ensure_p!(c2.c == d.c, P, "the component contracts changed across an upgrade");
    cov.hit(format!("real-{kind:?}"));
    cov.nontrivial = true;
    Ok(())
}
