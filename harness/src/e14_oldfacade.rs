//! E14: DAOs from before the rewrite, seen through the facade. C30.
//! A stand-in for the old contract answers exactly the requests it is set up for, and records what
//! it is told to do. Oracle: what the old contract would be asked and told, and the tally arithmetic.
use crate::dao::*;
use crate::e1_poll::{oracle_decided, ratio_ge, Decided};
use crate::e2_member::{Dur, Kind};
use crate::fw::*;
use crate::world::*;
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::{from_json, to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Response, StdError, StdResult};
use cw_multi_test::{Contract, ContractWrapper};
use cw_storage_plus::Item;
use enterprise_versioning_api::api::{AddVersionMsg, Version};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const P: &[PropId] = &["C30"];

// ------------------------------------------------------------ the old contract
const ANSWERS: Item<String> = Item::new("answers");
const TOLD: Item<Vec<(String, String)>> = Item::new("told");
fn o_inst(d: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    ANSWERS.save(d.storage, &"[]".to_string())?;
    TOLD.save(d.storage, &vec![])?;
    Ok(Response::new())
}
struct OldDao;
impl Contract<Empty> for OldDao {
    fn execute(&self, d: DepsMut, _: Env, i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> {
        let v: Value = serde_json::from_slice(&m)?;
        if let Some(a) = v.get("zz_answers") {
            ANSWERS.save(d.storage, &a.to_string())?;
        } else {
            let mut t = TOLD.load(d.storage)?;
            t.push((i.sender.to_string(), v.to_string()));
            TOLD.save(d.storage, &t)?;
        }
        Ok(Response::new())
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, _: Vec<u8>) -> anyhow::Result<Response> {
        Ok(o_inst(d, e, i, Empty {})?)
    }
    fn query(&self, d: Deps, _: Env, m: Vec<u8>) -> anyhow::Result<Binary> {
        let v: Value = serde_json::from_slice(&m)?;
        let l: Vec<(Value, Value)> = serde_json::from_str(&ANSWERS.load(d.storage)?)?;
        let r = l.into_iter().find(|x| x.0 == v).ok_or_else(|| StdError::generic_err(format!("not prepared for {v}")))?.1;
        Ok(Binary::from(r.to_string().into_bytes()))
    }
    fn sudo(&self, _: DepsMut, _: Env, _: Vec<u8>) -> anyhow::Result<Response> {
        anyhow::bail!("no sudo")
    }
    fn reply(&self, _: DepsMut, _: Env, _: cosmwasm_std::Reply) -> anyhow::Result<Response> {
        anyhow::bail!("no reply")
    }
    fn migrate(&self, _: DepsMut, _: Env, _: Vec<u8>) -> anyhow::Result<Response> {
        anyhow::bail!("no migrate")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prop {
    council: bool,
    /// in progress, passed, rejected, executed
    status: u8,
    /// nanoseconds from now
    end: i64,
    votes: [u32; 4],
    uncast: u32,
    acts: Vec<Act>,
    proposer: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Meta { mask: u8, val: Option<u8> },
    Gov { mask: u8, gov: GovSpec, unlock: Dur },
    Council(Option<CouncilSpec>),
    Assets { add: Vec<u8>, rem: Vec<u8> },
    Nfts { add: Vec<u8>, rem: Vec<u8> },
    Fund { to: u8, items: Vec<(u8, u32)> },
    Upgrade(u8),
    /// 0 controller, 1 treasury, 2 main contract
    Msgs { via: u8, n: u8 },
    Members(Vec<(u8, u32)>),
    Dist(Vec<(u8, u32)>),
    MinWeight(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    gov: GovSpec,
    unlock: Dur,
    council: Option<CouncilSpec>,
    code: u8,
    props: Vec<Prop>,
    /// (start after, limit)
    page: (Option<u8>, Option<u8>),
    acts: Vec<Act>,
    dep: u32,
    users: (u8, u8),
}

const VERS: [(u64, u64, u64); 6] = [(0, 4, 0), (0, 6, 0), (0, 6, 1), (1, 0, 0), (1, 2, 1), (2, 0, 0)];
fn wl(x: u8) -> Value {
    if x % 2 == 0 {
        json!({"native": format!("uwl{x}")})
    } else {
        json!({"cw20": format!("cw20wl{x}")})
    }
}
fn ch<T: Serialize>(x: Option<T>) -> Value {
    match x {
        Some(v) => json!({ "change": v }),
        None => json!("no_change"),
    }
}
fn assets(l: &[(u8, u32)]) -> Vec<Value> {
    l.iter().map(|(x, n)| json!({"info": wl(*x), "amount": n.to_string()})).collect()
}
/// (as users of today write it, as the old contract understands it, as today's readers see what the old contract stores)
fn action(a: &Act, codes: &dyn Fn(u8) -> (u64, Value)) -> (Value, Value, Value) {
    let same = |v: Value| (v.clone(), v.clone(), v);
    match a {
        Act::Meta { mask, val } => {
            let m = |b: u8| ch((mask & (1 << b) != 0).then(|| val.map(|v| format!("v{v}-{b}"))));
            same(json!({"update_metadata": {"name": ch((mask & 1 != 0).then(|| format!("name{val:?}"))), "description": m(1),
                "logo": ch((mask & 4 != 0).then(|| val.map(|v| json!({"url": format!("u{v}")})).unwrap_or(json!("none")))),
                "github_username": m(3), "discord_username": m(4), "twitter_username": m(5), "telegram_username": m(6)}}))
        }
        Act::Gov { mask, gov, unlock } => {
            let on = |b: u8| mask & (1 << b) != 0;
            same(json!({"update_gov_config": {"quorum": ch(on(0).then(|| dec_s(pm(gov.q)))), "threshold": ch(on(1).then(|| dec_s(pm(gov.t)))), "veto_threshold": ch(on(2).then(|| gov.v.map(|v| dec_s(pm(v))))),
                "voting_duration": ch(on(3).then(|| gov.dur.to_string())), "unlocking_period": ch(on(4).then(|| dur_json(unlock))), "minimum_deposit": ch(on(5).then(|| gov.dep.map(|x| x.to_string()))),
                "allow_early_proposal_execution": ch(on(6).then_some(gov.early))}}))
        }
        Act::Council(c) => same(json!({"update_council": {"dao_council": c.as_ref().map(|c| c.json(5))}})),
        Act::Assets { add, rem } => {
            let o = json!({"add": add.iter().map(|x| wl(*x)).collect::<Vec<_>>(), "remove": rem.iter().map(|x| wl(*x)).collect::<Vec<_>>()});
            let mut n = o.clone();
            n["remote_treasury_target"] = Value::Null;
            (json!({ "update_asset_whitelist": n }), json!({ "update_asset_whitelist": o }), json!({ "update_asset_whitelist": n }))
        }
        Act::Nfts { add, rem } => {
            let f = |v: &[u8]| v.iter().map(|x| format!("nftwl{x}")).collect::<Vec<_>>();
            let o = json!({"add": f(add), "remove": f(rem)});
            let mut n = o.clone();
            n["remote_treasury_target"] = Value::Null;
            (json!({ "update_nft_whitelist": n }), json!({ "update_nft_whitelist": o }), json!({ "update_nft_whitelist": n }))
        }
        Act::Fund { to, items } => {
            let o = json!({"recipient": format!("user{to}"), "assets": assets(items)});
            let mut n = o.clone();
            n["remote_treasury_target"] = Value::Null;
            (json!({ "request_funding_from_dao": n }), json!({ "request_funding_from_dao": o }), json!({ "request_funding_from_dao": n }))
        }
        Act::Upgrade(v) => {
            let (x, y, z) = VERS[*v as usize % VERS.len()];
            let (code, msg) = codes(*v);
            let m = to_json_binary(&cosmwasm_std::from_json::<Value2>(msg.to_string()).unwrap().0).unwrap();
            let ver = json!({"major": 0, "minor": code, "patch": 0});
            (
                json!({"upgrade_dao": {"new_version": {"major": x, "minor": y, "patch": z}, "migrate_msgs": []}}),
                json!({"upgrade_dao": {"new_dao_code_id": code, "migrate_msg": m}}),
                json!({"upgrade_dao": {"new_version": ver, "migrate_msgs": [{"version": ver, "migrate_msg": m}]}}),
            )
        }
        Act::Msgs { via, n } => {
            let msgs: Vec<String> = (0..n % 3).map(|i| json!({"bank": {"burn": {"amount": [{"denom": format!("u{i}"), "amount": "1"}]}}}).to_string()).collect();
            let o = json!({"action_type": format!("type \"{n}\""), "msgs": msgs});
            let old = json!({ "execute_msgs": o });
            let n = match via % 3 {
                0 => old.clone(),
                1 => {
                    let mut t = o.clone();
                    t["remote_treasury_target"] = Value::Null;
                    json!({ "execute_treasury_msgs": t })
                }
                _ => json!({ "execute_enterprise_msgs": o }),
            };
            (n, old.clone(), old)
        }
        Act::Members(l) => {
            let f = |k: &str| json!({"modify_multisig_membership": {"edit_members": l.iter().map(|(u, w)| json!({k: format!("user{u}"), "weight": w.to_string()})).collect::<Vec<_>>()}});
            (f("user"), f("address"), f("user"))
        }
        Act::Dist(l) => same(json!({"distribute_funds": {"funds": assets(l)}})),
        Act::MinWeight(x) => same(json!({"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": x.to_string()}})),
    }
}
/// JSON through a value the binary encoder accepts
struct Value2(std::collections::BTreeMap<String, Option<u32>>);
impl<'de> Deserialize<'de> for Value2 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Value2(std::collections::BTreeMap::deserialize(d)?))
    }
}

struct S {
    w: World,
    old: Addr,
    f: Addr,
    f1: Addr,
}
impl S {
    fn ask(&self, name: &str, key: &str, params: &Value, want: Result<&Value, ()>) -> Res {
        for f in [&self.f, &self.f1] {
            let mut q = json!({"contract": self.old});
            if !params.is_null() {
                q[key] = params.clone();
            }
            let got: Result<Value, String> = self.w.query(f, &json!({ name: q }));
            match (&got, want) {
                (Ok(g), Ok(w)) => ensure_eq_p!(g, w, P, "{name} {params}"),
                (Err(_), Err(_)) => {}
                _ => return div(P, format!("{name} {params}: got {got:?}, expected {want:?}")),
            }
        }
        Ok(())
    }
    /// sends what the adapter says; what the contracts got told
    fn tell(&mut self, name: &str, key: &str, params: &Value) -> Result<(Vec<Value>, Vec<Value>), String> {
        let mut q = json!({"contract": self.old});
        if !params.is_null() {
            q[key] = params.clone();
        }
        let r: Value = self.w.query(&self.f, &json!({ name: q }))?;
        let told = |s: &S| -> usize { s.told().len() };
        let n = told(self);
        let ms = r["msgs"].as_array().cloned().unwrap_or_default();
        for m in &ms {
            let e = &m["execute"];
            if e.is_null() || e["funds"] != json!([]) {
                return Err(format!("unexpected message {m}"));
            }
            if e["target_contract"] == json!(self.old) {
                let b: Value = serde_json::from_str(e["msg"].as_str().unwrap_or("")).map_err(|e| e.to_string())?;
                let o = self.old.clone();
                self.w.exec("user1", &o, &b, &[])?;
            }
        }
        Ok((ms, self.told().split_off(n)))
    }
    fn told(&self) -> Vec<Value> {
        let raw = self.w.dump(&self.old).into_iter().find(|(k, _)| k == b"told").unwrap().1;
        let l: Vec<(String, String)> = from_json(raw).unwrap();
        l.into_iter().map(|x| serde_json::from_str(&x.1).unwrap()).collect()
    }
}

pub struct C30;
fn status_name(s: u8) -> &'static str {
    ["in_progress", "passed", "rejected", "executed"][s as usize % 4]
}

impl Check for C30 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        let gov = || {
            (1u16..=1000, 1u16..=1000, prop::option::of(1u16..=1000), 1u32..1000, prop::option::of(0u32..50), any::<bool>())
                .prop_map(|(q, t, v, dur, dep, early)| GovSpec { q, t, v, dur, dep, early })
        };
        let dur = || prop_oneof![(0u64..3000).prop_map(Dur::Secs), (0u64..3000).prop_map(Dur::Blocks)];
        let council = || {
            prop::option::of(
                (prop::sample::subsequence((0u8..5).collect::<Vec<_>>(), 0..=4), 1u16..=1000, 1u16..=1000, prop::option::of(prop::sample::subsequence(vec![0u8, 3, 4, 6], 0..=4)))
                    .prop_map(|(members, q, t, allowed)| CouncilSpec { members, q, t, allowed }),
            )
        };
        let small = || prop::collection::vec(0u8..9, 0..3);
        let items = || prop::collection::vec((0u8..9, 0u32..1000), 0..3);
        let act = prop_oneof![
            (any::<u8>(), prop::option::of(0u8..9)).prop_map(|(mask, val)| Act::Meta { mask, val }),
            (any::<u8>(), gov(), dur()).prop_map(|(mask, gov, unlock)| Act::Gov { mask, gov, unlock }),
            council().prop_map(Act::Council),
            (small(), small()).prop_map(|(add, rem)| Act::Assets { add, rem }),
            (small(), small()).prop_map(|(add, rem)| Act::Nfts { add, rem }),
            (0u8..4, items()).prop_map(|(to, items)| Act::Fund { to, items }),
            any::<u8>().prop_map(Act::Upgrade),
            (0u8..3, any::<u8>()).prop_map(|(via, n)| Act::Msgs { via, n }),
            items().prop_map(Act::Members),
            items().prop_map(Act::Dist),
            any::<u32>().prop_map(Act::MinWeight)
        ]
        .boxed();
        let acts = || prop::collection::vec(act.clone(), 0..4);
        let votes = prop_oneof![1 => [1u32..50, 0u32..1, 0u32..1, 0u32..1], 3 => [0u32..20, 0u32..20, 0u32..20, 0u32..20], 1 => [0u32..1000, 0u32..1000, 0u32..3, 0u32..1000], 1 => [0u32..4_000_000_000, 0u32..4_000_000_000, 0u32..4_000_000_000, 0u32..4_000_000_000]];
        let prop_ = (prop::bool::weighted(0.2), prop_oneof![4 => Just(0u8), 1 => 0u8..4], prop_oneof![2 => -3i64..4, 1 => -1_000_000_000_000i64..1_000_000_000_000], votes, prop_oneof![1 => Just(0u32), 3 => 0u32..40, 1 => any::<u32>()], acts(), any::<bool>())
            .prop_map(|(council, status, end, votes, uncast, acts, proposer)| Prop { council, status, end, votes, uncast, acts, proposer });
        let kind = prop_oneof![Just(Kind::Token), Just(Kind::Nft), Just(Kind::Multisig)];
        (kind, gov(), dur(), council(), any::<u8>(), prop::collection::vec(prop_, 0..4), (prop::option::of(any::<u8>()), prop::option::of(any::<u8>())), acts(), any::<u32>(), (0u8..5, 0u8..5))
            .prop_map(|(kind, gov, unlock, council, code, props, page, acts, dep, users)| Case { kind, gov, unlock, council, code, props, page, acts, dep, users })
            .boxed()
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let bad = |e: String| dv(P, format!("setting up: {e}"));
        let mut w = World::new();
        w.advance(10_000_000_000_000, 10);
        let reg = w.versioning.clone();
        for (x, y, z) in VERS {
            let mut codes = w.codes.clone();
            codes.treasury += 100 + x;
            codes.enterprise += 200 + 10 * y + z;
            let _ = w.exec(ECO_ADMIN, &reg, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: version_info(Version::new(x, y, z), &codes) }), &[]);
        }
        macro_rules! code {
            ($c:ident) => {{
                use $c::contract as k;
                w.app.store_code(Box::new(ContractWrapper::new(k::execute, k::instantiate, k::query)))
            }};
        }
        let (k1, k2, k) = (code!(enterprise_facade_v1), code!(enterprise_facade_v2), code!(enterprise_facade));
        let ko = w.app.store_code(Box::new(OldDao));
        let old = w.inst(ko, ECO_ADMIN, &json!({}), None).map_err(bad)?;
        let f1 = w.inst(k1, ECO_ADMIN, &json!({"enterprise_versioning": reg}), None).map_err(bad)?;
        let f2 = w.inst(k2, ECO_ADMIN, &json!({}), None).map_err(bad)?;
        let f = w.inst(k, ECO_ADMIN, &json!({"enterprise_facade_v1": f1, "enterprise_facade_v2": f2}), None).map_err(bad)?;
        let now = w.now().nanos();
        let v100 = w.codes.treasury;
        let base = (w.codes.enterprise, v100);
        // upgrading to the rewritten contracts goes through release 1.0.0 of the treasury, which takes over the address
        let codes = move |v: u8| {
            let (x, y, z) = VERS[v as usize % VERS.len()];
            if x >= 1 {
                (base.1, json!({"initial_submsgs_limit": null}))
            } else {
                (base.0 + 200 + 10 * y + z, json!({}))
            }
        };
        let mut s = S { w, old: old.clone(), f, f1 };
        // ---------------------------------------------------------------- what the old contract knows
        let thing = match c.kind {
            Kind::Multisig => old.to_string(),
            _ => "membershipasset".to_string(),
        };
        let ty = match c.kind {
            Kind::Token => "token",
            Kind::Nft => "nft",
            _ => "multisig",
        };
        let g = c.gov.json();
        let mut g1 = g.clone();
        g1["unlocking_period"] = dur_json(&c.unlock);
        let council = c.council.as_ref().map(|x| {
            let mut j = x.json(5);
            if j["allowed_proposal_action_types"].is_null() {
                j["allowed_proposal_action_types"] = json!(["upgrade_dao"]);
            }
            j
        });
        let mut info = json!({"creation_date": "1600000000000000000", "metadata": meta("old"), "gov_config": g1, "dao_council": council, "dao_type": ty, "dao_membership_contract": thing,
            "enterprise_factory_contract": "oldfactory", "funds_distributor_contract": "olddistributor", "dao_code_version": c.code.to_string()});
        let mut answers: Vec<(Value, Value)> = vec![(json!({"dao_info": {}}), info.clone())];
        let u = format!("user{}", c.users.0);
        let page = |sa: Value| json!({"start_after": if c.page.0.is_some() { sa } else { Value::Null }, "limit": c.page.1});
        // (facade request, key of its parameters, parameters, request to the old contract, answer)
        let n = c.dep.to_string();
        let fwd: Vec<(&str, &str, Value, Value, Value)> = vec![
            ("member_info", "msg", json!({"member_address": u}), json!({"member_info": {"member_address": u}}), json!({"voting_power": dec_s(pm(c.gov.q))})),
            ("list_multisig_members", "msg", page(json!("user1")), json!({"list_multisig_members": page(json!("user1"))}), json!({"members": [{"address": u, "weight": n}]})),
            ("asset_whitelist", "params", page(wl(1)), json!({"asset_whitelist": page(wl(1))}), json!({"assets": [wl(2), wl(3)]})),
            ("nft_whitelist", "params", page(json!("nftwl1")), json!({"nft_whitelist": page(json!("nftwl1"))}), json!({"nfts": ["nftwl2"]})),
            ("member_vote", "params", json!({"member": u, "proposal_id": 3}), json!({"member_vote": {"member": u, "proposal_id": 3}}), json!({"vote": {"poll_id": 3, "voter": u, "outcome": 1, "amount": n}})),
            (
                "proposal_votes",
                "params",
                json!({"proposal_id": 2, "start_after": c.page.0.map(|_| "user0"), "limit": c.page.1}),
                json!({"proposal_votes": {"proposal_id": 2, "start_after": c.page.0.map(|_| "user0"), "limit": c.page.1}}),
                json!({"votes": [{"poll_id": 2, "voter": u, "outcome": 0, "amount": n}]}),
            ),
            (
                "user_stake",
                "params",
                json!({"user": u, "start_after": null, "limit": null}),
                json!({"user_stake": {"user": u}}),
                json!({"user_stake": match c.kind { Kind::Token => json!({"token": {"amount": n}}), Kind::Nft => json!({"nft": {"tokens": ["a", "b"], "amount": "2"}}), _ => json!("none") }}),
            ),
            ("total_staked_amount", "", Value::Null, json!({"total_staked_amount": {}}), json!({"total_staked_amount": n})),
            ("staked_nfts", "params", page(json!("n1")), json!({"staked_nfts": page(json!("n1"))}), json!({"nfts": ["n2", "n3"]})),
            ("claims", "params", json!({"owner": u}), json!({"claims": {"owner": u}}), json!({"claims": [{"asset": {"cw20": {"amount": n}}, "release_at": {"timestamp": "17"}}, {"asset": {"cw721": {"tokens": ["x"]}}, "release_at": {"height": "9"}}]})),
            ("releasable_claims", "params", json!({"owner": u}), json!({"releasable_claims": {"owner": u}}), json!({"claims": [{"asset": {"cw20": {"amount": n}}, "release_at": {"timestamp": "17"}}]})),
        ];
        for x in &fwd {
            answers.push((x.3.clone(), x.4.clone()));
        }
        // ---------------------------------------------------------------- proposals: stored, and as they should be shown
        let mut shown: Vec<Option<Value>> = vec![];
        let mut stored: Vec<Value> = vec![];
        for (i, p) in c.props.iter().enumerate() {
            let total: u128 = p.votes.iter().map(|x| *x as u128).sum::<u128>() + p.uncast as u128;
            let total = total.max(1);
            let end = (now as i64 + p.end) as u64;
            let mk = |acts: Vec<Value>, st: &str| {
                json!({"proposal": {"proposal_type": if p.council { "council" } else { "general" }, "id": i + 1, "proposer": p.proposer.then_some("user3"), "title": format!("t{i}"), "description": "d",
                    "status": st, "started_at": (now - 5_000_000_000_000).to_string(), "expires": {"at_time": end.to_string()}, "proposal_actions": acts},
                    "proposal_status": st, "results": p.votes.iter().enumerate().filter(|(_, v)| **v > 0).map(|(k, v)| json!([k, v.to_string()])).collect::<Vec<_>>(), "total_votes_available": total.to_string()})
            };
            let acts: Vec<(Value, Value, Value)> = p.acts.iter().map(|a| action(a, &codes)).collect();
            let o = mk(acts.iter().map(|x| x.1.clone()).collect(), status_name(p.status));
            stored.push(o.clone());
            answers.push((json!({"proposal": {"proposal_id": i + 1}}), o));
            let v = [p.votes[0] as u128, p.votes[1] as u128, p.votes[2] as u128, p.votes[3] as u128];
            let cast: u128 = v.iter().sum();
            let quorum = ratio_ge(cast, total, pm(c.gov.q));
            let d = oracle_decided(&v, pm(c.gov.t), c.gov.v.map(pm));
            let over = end <= now;
            // council votes were held under rules the facade cannot see in full: only what was recorded is judged, and
            // a yes from everybody, which decides under any rules (the council could always end its votes early)
            let st = match (p.status % 4, over) {
                (0, over) if p.council && v[0] == total => Some(if over { "passed" } else { "in_progress_can_execute_early" }),
                (0, _) if p.council => None,
                (0, true) => Some(if quorum && d == Decided::Yes { "passed" } else { "rejected" }),
                (0, false) if !c.gov.early => Some("in_progress"),
                (0, false) => match d {
                    _ if !quorum => Some("in_progress"),
                    Decided::None => Some("in_progress"),
                    Decided::Draw => None,
                    _ => Some("in_progress_can_execute_early"),
                },
                (s, _) => Some(status_name(s)),
            };
            cov.hit(format!("shown-{}", st.unwrap_or("not-judged")));
            if p.status % 4 == 0 && !p.council {
                cov.hit(if over { "over" } else { "open" });
            }
            shown.push(st.map(|st| mk(acts.iter().map(|x| x.2.clone()).collect(), st)));
        }
        let filter = c.page.1.map(|x| ["in_progress", "passed", "rejected"][x as usize % 3]);
        let pp = json!({"filter": filter, "start_after": c.page.0, "limit": c.page.1});
        answers.push((json!({ "proposals": pp }), json!({ "proposals": stored })));
        s.w.exec("anyone", &old, &json!({ "zz_answers": answers }), &[]).map_err(bad)?;

        // ---------------------------------------------------------------- reports
        s.ask("treasury_address", "", &Value::Null, Ok(&json!({ "treasury_address": old })))?;
        for x in &fwd {
            s.ask(x.0, x.1, &x.2, Ok(&x.4))?;
        }
        info["gov_config"]["veto_threshold"] = if g["veto_threshold"].is_null() { g["threshold"].clone() } else { g["veto_threshold"].clone() };
        info["dao_version"] = json!({"major": 0, "minor": c.code, "patch": 0});
        s.ask("dao_info", "", &Value::Null, Ok(&info))?;
        s.ask(
            "component_contracts",
            "",
            &Value::Null,
            Ok(&json!({"enterprise_factory_contract": "oldfactory", "enterprise_versioning_contract": null, "enterprise_contract": old, "funds_distributor_contract": "olddistributor",
                "enterprise_governance_contract": null, "enterprise_governance_controller_contract": null, "enterprise_outposts_contract": null, "enterprise_treasury_contract": null,
                "membership_contract": null, "council_membership_contract": null, "attestation_contract": null})),
        )?;
        s.ask("cross_chain_treasuries", "params", &json!({"start_after": null, "limit": null}), Ok(&json!({"treasuries": []})))?;
        s.ask("has_incomplete_v2_migration", "", &Value::Null, Ok(&json!({"has_incomplete_migration": false})))?;
        s.ask("has_unmoved_stakes_or_claims", "", &Value::Null, Ok(&json!({"has_unmoved_stakes_or_claims": false})))?;
        s.ask("v2_migration_stage", "", &Value::Null, Ok(&json!({"stage": "migration_not_started"})))?;
        for (i, p) in shown.iter().enumerate() {
            if let Some(p) = p {
                let q = json!({"proposal_id": i + 1});
                s.ask("proposal", "params", &q, Ok(p))?;
                s.ask("proposal_status", "params", &q, Ok(&json!({"status": p["proposal_status"], "expires": p["proposal"]["expires"], "results": p["results"]})))?;
            }
        }
        s.ask("proposal", "params", &json!({"proposal_id": 99}), Err(()))?;
        if shown.iter().all(|p| p.is_some()) {
            s.ask("proposals", "params", &pp, Ok(&json!({ "proposals": shown })))?;
        }

        // ---------------------------------------------------------------- requests
        let acts: Vec<(Value, Value, Value)> = c.acts.iter().map(|a| action(a, &codes)).collect();
        let new = json!({"title": "t \"q\"", "description": (c.dep % 2 == 0).then_some("d\\é"), "proposal_actions": acts.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "deposit_owner": null});
        let oldm = json!({"title": new["title"], "description": new["description"], "proposal_actions": acts.iter().map(|x| x.1.clone()).collect::<Vec<_>>()});
        let vote = json!({"proposal_id": c.users.1, "outcome": (["yes", "no", "abstain", "veto"][c.users.0 as usize % 4])});
        for (name, params, want) in [
            ("create_proposal_adapted", new.clone(), json!({ "create_proposal": oldm })),
            ("create_council_proposal_adapted", new.clone(), json!({ "create_council_proposal": oldm })),
            ("cast_vote_adapted", vote.clone(), json!({ "cast_vote": vote })),
            ("cast_council_vote_adapted", vote.clone(), json!({ "cast_council_vote": vote })),
            ("execute_proposal_adapted", json!({"proposal_id": c.users.1}), json!({"execute_proposal": {"proposal_id": c.users.1}})),
            ("unstake_adapted", json!({"cw20": {"amount": n}}), json!({"unstake": {"cw20": {"amount": n}}})),
            ("unstake_adapted", json!({"cw721": {"tokens": ["a", "b"]}}), json!({"unstake": {"cw721": {"tokens": ["a", "b"]}}})),
            ("claim_adapted", Value::Null, json!({"claim": {}})),
        ] {
            let (ms, told) = s.tell(name, "params", &params).map_err(|e| dv(P, format!("{name} {params}: {e}")))?;
            ensure_eq_p!(ms.len(), 1, P, "{name} {params}: messages");
            ensure_eq_p!(told, vec![want], P, "{name} {params}: what the old contract is told");
        }
        // what only goes by way of the token contracts
        let send = |s: &mut S, name: &str, params: &Value| -> Res<Vec<Value>> {
            let (ms, told) = s.tell(name, "params", params).map_err(|e| dv(P, format!("{name} {params}: {e}")))?;
            ensure_p!(told.is_empty(), P, "{name} {params}: the DAO is told {told:?}");
            ms.iter()
                .map(|m| {
                    ensure_eq_p!(m["execute"]["target_contract"], json!("membershipasset"), P, "{name} {params}: contract called");
                    let mut v: Value = serde_json::from_str(m["execute"]["msg"].as_str().unwrap_or("")).map_err(|e| dv(P, format!("{name}: {e}")))?;
                    if let Some(x) = v.as_object_mut().and_then(|o| o.values_mut().next()) {
                        let b = Binary::from_base64(x["msg"].as_str().unwrap_or("")).map_err(|e| dv(P, format!("{name}: {e}")))?;
                        x["msg"] = serde_json::from_slice(&b).map_err(|e| dv(P, format!("{name}: {e}")))?;
                    }
                    Ok(v)
                })
                .collect()
        };
        if c.kind == Kind::Token {
            let m = send(&mut s, "create_proposal_with_token_deposit_adapted", &json!({"create_proposal_msg": new, "deposit_amount": n}))?;
            ensure_eq_p!(m, vec![json!({"send": {"contract": old, "amount": n, "msg": {"create_proposal": oldm}}})], P, "proposal with a deposit");
            let m = send(&mut s, "stake_adapted", &json!({"cw20": {"user": "user1", "amount": n}}))?;
            ensure_eq_p!(m, vec![json!({"send": {"contract": old, "amount": n, "msg": {"stake": {}}}})], P, "staking tokens");
        } else {
            let r = s.tell("create_proposal_with_token_deposit_adapted", "params", &json!({"create_proposal_msg": new, "deposit_amount": n}));
            ensure_p!(r.is_err(), P, "a token deposit for a {ty} DAO: {r:?}");
        }
        if c.kind == Kind::Nft {
            let ids: Vec<String> = (0..c.users.1).map(|i| format!("n{i}")).collect();
            let m = send(&mut s, "stake_adapted", &json!({"cw721": {"user": "user1", "tokens": ids}}))?;
            let want: Vec<Value> = ids.iter().map(|i| json!({"send_nft": {"contract": old, "token_id": i, "msg": {"stake": {}}}})).collect();
            ensure_eq_p!(m, want, P, "staking NFTs");
        }
        // unknown to the old contracts
        let tt = json!({"cross_chain_msg_spec": {"chain_id": "a", "chain_bech32_prefix": "juno", "src_ibc_port": "p", "src_ibc_channel": "c", "dest_ibc_port": "p", "dest_ibc_channel": "c", "uluna_denom": "x", "timeout_nanos": null}});
        let with = |a: Value| {
            let mut m = new.clone();
            m["proposal_actions"].as_array_mut().unwrap().push(a);
            m
        };
        for (name, params) in [
            ("create_proposal_adapted", with(json!({"execute_treasury_msgs": {"action_type": "x", "msgs": [], "remote_treasury_target": tt}}))),
            ("create_proposal_adapted", with(json!({"deploy_cross_chain_treasury": {"enterprise_treasury_code_id": 1, "ics_proxy_code_id": 2, "chain_global_proxy": "x", "cross_chain_msg_spec": tt["cross_chain_msg_spec"], "asset_whitelist": null, "nft_whitelist": null}}))),
            ("create_proposal_with_denom_deposit_adapted", json!({"create_proposal_msg": new, "deposit_amount": n})),
            ("create_proposal_with_nft_deposit_adapted", json!({"create_proposal_msg": new, "deposit_tokens": ["a"]})),
            ("stake_adapted", json!({"denom": {"user": "user1", "amount": n}})),
            ("unstake_adapted", json!({"denom": {"amount": n}})),
        ] {
            let r = s.tell(name, "params", &params);
            ensure_p!(r.is_err(), P, "{name} {params}: answered with {r:?} although the old contract has no such thing");
        }
        cov.nontrivial = !c.props.is_empty() && !c.acts.is_empty();
        Ok(())
    }
    fn cases(&self) -> (u64, u64) {
        (8_000, 200_000)
    }
    fn rule(&self) -> &'static str {
        "the old DAO has proposals to show and a proposal with actions is created"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the contracts from before the rewrite are not in the repository: a stand-in answers their interface as the facade declares it",
            "not judged: the status of council votes still recorded as in progress (unless all of the council said yes), and of drawn votes before their end",
        ]
    }
}
