//! E10: NFTs arriving over ICS-721. C23.
use crate::fw::*;
use crate::world::*;
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::{to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Response, StdResult};
use cw_multi_test::{Contract, ContractWrapper};
use cw_storage_plus::Map;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const P: &[PropId] = &["C23"];
const CLASSES: [&str; 3] = ["wasm.stars1/channel-3/coll", "wasm.stars1/channel-3/col", "x"];
const UNLOCK: u64 = 100;

// ------------------------------------------------------------ the transfer contract
const KNOWN: Map<String, String> = Map::new("known");
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
enum TExec {
    Set { class_id: String, addr: String },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
enum TQuery {
    NftContract { class_id: String },
}
fn t_inst(_: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    Ok(Response::new())
}
fn t_exec(d: DepsMut, _: Env, _: MessageInfo, m: TExec) -> StdResult<Response> {
    let TExec::Set { class_id, addr } = m;
    KNOWN.save(d.storage, class_id, &addr)?;
    Ok(Response::new())
}
fn t_query(d: Deps, _: Env, m: TQuery) -> StdResult<Binary> {
    let TQuery::NftContract { class_id } = m;
    to_json_binary(&KNOWN.may_load(d.storage, class_id)?)
}
fn transfer_contract() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(t_exec, t_inst, t_query))
}
fn proxy_code() -> Box<dyn Contract<Empty>> {
    use ics721_callback_proxy::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hook {
    Stake { user: u8, m: u8 },
    /// a user no address validation accepts
    StakeBad { m: u8 },
    Unknown,
    NoMembership { user: u8 },
    NotJson,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum By {
    Transfer,
    OtherTransfer,
    User(u8),
    Collection(u8),
    Membership(u8),
    Proxy,
    Minter,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// the transfer contract learns the local collection of a class
    Learn { class: u8 },
    /// `new` fresh tokens arrive at the proxy; the packet names them, `old` earlier ones and, maybe, one twice
    Arrive { coll: u8, new: u8, old: Vec<u8>, twice: bool, class: u8, hook: Hook, by: By },
    /// a user stakes directly
    Send { coll: u8, m: u8, user: u8, for_user: u8 },
    /// forged notification
    Fake { m: u8, by: By, user: u8, claim: bool, id: u8 },
    Unstake { k: u8, by: Option<u8> },
    Wait(u8),
    Claim { m: u8, user: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// class known from the start
    known: [bool; 2],
    ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
enum At {
    Held(String),
    Staked(usize, u8),
    Claim(usize, u8, u64),
}
struct S {
    w: World,
    transfer: Addr,
    other: Addr,
    proxy: Addr,
    coll: Vec<Addr>,
    ms: Vec<Addr>,
    known: [bool; 2],
    tokens: BTreeMap<(usize, u32), At>,
    next: u32,
}
fn u(x: u8) -> String {
    format!("user{}", x % 4)
}
fn tid(n: u32) -> String {
    format!("t{n}")
}

impl S {
    fn build(c: &Case) -> Result<S, String> {
        let mut w = World::new();
        let (e, _) = standalone_enterprise(&mut w, "governance");
        let tc = w.app.store_code(transfer_contract());
        let transfer = w.inst(tc, ECO_ADMIN, &json!({}), None)?;
        let other = w.inst(tc, ECO_ADMIN, &json!({}), None)?;
        let pc = w.app.store_code(proxy_code());
        let proxy = w.inst(pc, ECO_ADMIN, &json!({"ics721_proxy": transfer}), None)?;
        let coll: Vec<Addr> = (0..3).map(|_| w.new_cw721("minter")).collect();
        let mut ms = vec![];
        for i in 0..3 {
            let nft = if i < 2 { json!({"ics721": {"contract": transfer, "class_id": CLASSES[i]}}) } else { json!({"cw721": {"contract": coll[2]}}) };
            ms.push(w.inst(
                w.codes.nft,
                ECO_ADMIN,
                &json!({"enterprise_contract": e, "nft_contract": nft, "unlocking_period": {"time": UNLOCK}, "weight_change_hooks": null, "total_weight_by_height_checkpoints": null, "total_weight_by_seconds_checkpoints": null}),
                None,
            )?);
        }
        // the other transfer contract maps everything wrongly
        for i in 0..2 {
            w.exec("minter", &other, &json!({"set": {"class_id": CLASSES[i], "addr": coll[2]}}), &[])?;
        }
        w.exec("minter", &transfer, &json!({"set": {"class_id": CLASSES[2], "addr": coll[2]}}), &[])?;
        let mut s = S { w, transfer, other, proxy, coll, ms, known: [false; 2], tokens: BTreeMap::new(), next: 0 };
        for i in 0..2 {
            if c.known[i] {
                s.learn(i)?;
            }
        }
        Ok(s)
    }
    fn learn(&mut self, i: usize) -> Result<(), String> {
        self.known[i] = true;
        let t = self.transfer.clone();
        self.w.exec("minter", &t, &json!({"set": {"class_id": CLASSES[i], "addr": self.coll[i]}}), &[]).map(|_| ())
    }
    fn accepts(&self, m: usize, coll: usize) -> bool {
        m == coll && (m == 2 || self.known[m])
    }
    fn who(&self, b: &By) -> String {
        match b {
            By::Transfer => self.transfer.to_string(),
            By::OtherTransfer => self.other.to_string(),
            By::User(x) => u(*x),
            By::Collection(x) => self.coll[*x as usize % 3].to_string(),
            By::Membership(x) => self.ms[*x as usize % 3].to_string(),
            By::Proxy => self.proxy.to_string(),
            By::Minter => "minter".into(),
        }
    }
    fn step(&mut self, op: &Op, what: &str, cov: &mut Cov) -> Res {
        let fail = |e: String| dv(P, format!("{what}: {e}"));
        match op {
            Op::Learn { class } => {
                let i = *class as usize % 2;
                if !self.known[i] {
                    self.learn(i).map_err(fail)?;
                    cov.hit("learnt");
                }
            }
            Op::Wait(s) => self.w.advance(*s as u64 * 1_000_000_000, 1),
            Op::Arrive { coll, new, old, twice, class, hook, by } => {
                let ci = *coll as usize % 3;
                let mut ids: Vec<u32> = vec![];
                for _ in 0..*new % 5 {
                    let n = self.next;
                    self.next += 1;
                    let (c, p) = (self.coll[ci].clone(), self.proxy.to_string());
                    self.w.mint_nft(&c, "minter", &tid(n), &p);
                    self.tokens.insert((ci, n), At::Held(p));
                    ids.push(n);
                }
                let before: Vec<u32> = self.tokens.keys().filter(|k| k.0 == ci).map(|k| k.1).collect();
                for o in old {
                    if !before.is_empty() {
                        let x = before[*o as usize % before.len()];
                        if !ids.contains(&x) {
                            ids.push(x);
                        }
                    }
                }
                let dup = *twice && !ids.is_empty();
                let mut packet_ids = ids.clone();
                if dup {
                    packet_ids.push(ids[0]);
                }
                let hk = match hook {
                    Hook::Stake { user, m } => serde_json::to_vec(&json!({"stake": {"user": u(*user), "membership_contract": self.ms[*m as usize % 3]}})).unwrap(),
                    Hook::StakeBad { m } => serde_json::to_vec(&json!({"stake": {"user": "X", "membership_contract": self.ms[*m as usize % 3]}})).unwrap(),
                    Hook::Unknown => serde_json::to_vec(&json!({"unstake": {"user": "user0"}})).unwrap(),
                    Hook::NoMembership { user } => serde_json::to_vec(&json!({"stake": {"user": u(*user)}})).unwrap(),
                    Hook::NotJson => b"hello".to_vec(),
                };
                let packet = json!({"classId": CLASSES[*class as usize % 3], "classUri": null, "classData": null, "tokenIds": packet_ids.iter().map(|x| tid(*x)).collect::<Vec<_>>(), "tokenUris": null,
                    "tokenData": null, "sender": "stars1user", "receiver": u(9), "memo": null});
                let msg = json!({"ics721_receive_callback": {"nft_contract": self.coll[ci], "original_packet": packet, "msg": Binary::from(hk)}});
                let sender = self.who(by);
                let p = self.proxy.clone();
                let r = self.w.exec(&sender, &p, &msg, &[]);
                if sender != self.transfer.as_str() {
                    ensure_p!(r.is_err(), &["C23", "C15"], "{what}: callback accepted from {sender}");
                    cov.hit("stranger-refused");
                    return Ok(());
                }
                match hook {
                    Hook::Stake { user, m } => {
                        let mi = *m as usize % 3;
                        let mine = ids.iter().all(|x| self.tokens[&(ci, *x)] == At::Held(self.proxy.to_string()));
                        let ok = ids.is_empty() || (self.accepts(mi, ci) && mine && !dup);
                        ensure_eq_p!(r.is_ok(), ok, P, "{what}: staking callback ({:?})", r.err());
                        if ok {
                            for x in ids.iter() {
                                self.tokens.insert((ci, *x), At::Staked(mi, *user % 4));
                            }
                            if !ids.is_empty() {
                                cov.hit(if mi == 2 { "staked-local" } else { "staked-cross-chain" });
                            }
                            if ids.len() > 1 {
                                cov.hit("staked-several");
                            }
                        } else {
                            cov.hit(if self.accepts(mi, ci) { "refused-tokens" } else { "refused-collection" });
                        }
                    }
                    Hook::StakeBad { .. } => {
                        ensure_p!(r.is_err() || ids.is_empty(), P, "{what}: stake for an invalid user accepted");
                    }
                    _ => {
                        ensure_p!(r.is_ok(), P, "{what}: unrecognised callback fails: {:?}", r.err());
                        cov.hit("unrecognised");
                    }
                }
            }
            Op::Send { coll, m, user, for_user } => {
                let (ci, mi) = (*coll as usize % 3, *m as usize % 3);
                let n = self.next;
                self.next += 1;
                let (c, mm) = (self.coll[ci].clone(), self.ms[mi].clone());
                self.w.mint_nft(&c, "minter", &tid(n), &u(*user));
                self.tokens.insert((ci, n), At::Held(u(*user)));
                let r = self.w.send_nft(&c, &u(*user), &mm, &tid(n), &json!({"stake": {"user": u(*for_user)}}));
                ensure_eq_p!(r.is_ok(), self.accepts(mi, ci), P, "{what}: direct stake ({:?})", r.err());
                if r.is_ok() {
                    self.tokens.insert((ci, n), At::Staked(mi, *for_user % 4));
                    cov.hit("direct-stake");
                } else if mi < 2 && !self.known[mi] {
                    cov.hit("refused-before-known");
                }
            }
            Op::Fake { m, by, user, claim, id } => {
                let mi = *m as usize % 3;
                let s = self.who(by);
                if self.accepts(mi, mi) && s == self.coll[mi].as_str() {
                    return Ok(());
                }
                let h = if *claim { json!({"add_claim": {"user": u(*user), "release_at": {"timestamp": "1"}}}) } else { json!({"stake": {"user": u(*user)}}) };
                let t = self.ms[mi].clone();
                let r = self.w.exec(&s, &t, &json!({"receive_nft": {"sender": u(*user), "token_id": tid(*id as u32 + 10_000), "msg": Binary::from(serde_json::to_vec(&h).unwrap())}}), &[]);
                ensure_p!(r.is_err(), &["C23", "C15"], "{what}: NFT notification accepted from {s}");
                cov.hit("fake-refused");
            }
            Op::Unstake { k, by } => {
                let st: Vec<(usize, u32, usize, u8)> = self.tokens.iter().filter_map(|(k, v)| if let At::Staked(m, x) = v { Some((k.0, k.1, *m, *x)) } else { None }).collect();
                if st.is_empty() {
                    return Ok(());
                }
                let (ci, n, mi, owner) = st[*k as usize % st.len()];
                let s = by.map(|x| x % 4).unwrap_or(owner);
                let t = self.ms[mi].clone();
                let r = self.w.exec(&u(s), &t, &json!({"unstake": {"nft_ids": [tid(n)]}}), &[]);
                ensure_eq_p!(r.is_ok(), s == owner, &["C23", "C08"], "{what}: unstake by {} ({:?})", u(s), r.err());
                if r.is_ok() {
                    self.tokens.insert((ci, n), At::Claim(mi, owner, self.w.now().seconds() + UNLOCK));
                    cov.hit("unstaked");
                }
            }
            Op::Claim { m, user } => {
                let cl: Vec<(usize, u8)> = self.tokens.values().filter_map(|v| if let At::Claim(m, x, _) = v { Some((*m, *x)) } else { None }).collect();
                let (mi, user) = if cl.is_empty() || *m == 3 { (*m as usize % 3, user) } else { let c = &cl[(*m * 4 + *user) as usize % cl.len()]; (c.0, &c.1) };
                let t = self.ms[mi].clone();
                let now = self.w.now().seconds();
                let due: Vec<(usize, u32)> =
                    self.tokens.iter().filter(|(_, v)| matches!(v, At::Claim(m, x, at) if *m == mi && *x == *user % 4 && *at <= now)).map(|(k, _)| *k).collect();
                let r = self.w.exec(&u(*user), &t, &json!({"claim": {"user": null}}), &[]);
                ensure_p!(r.is_ok() || due.is_empty(), &["C23", "C09"], "{what}: claim fails: {:?}", r.err());
                if r.is_ok() {
                    for k in due {
                        self.tokens.insert(k, At::Held(u(*user)));
                        cov.hit("claimed");
                    }
                }
            }
        }
        Ok(())
    }
    fn check(&self, what: &str) -> Res {
        let fail = |e: String| dv(P, format!("{what}: {e}"));
        for ((c, n), at) in &self.tokens {
            let want = match at {
                At::Held(x) => x.clone(),
                At::Staked(m, _) | At::Claim(m, _, _) => self.ms[*m].to_string(),
            };
            ensure_eq_p!(self.w.nft_owner(&self.coll[*c], &tid(*n)), Some(want), P, "{what}: owner of {} of collection {c} ({at:?})", tid(*n));
        }
        for (i, m) in self.ms.iter().enumerate() {
            let mut total = 0;
            for x in 0..4u8 {
                let v: Value = self.w.query(m, &json!({"user_stake": {"user": u(x), "start_after": null, "limit": 100}})).map_err(fail)?;
                let mut got: Vec<String> = v["tokens"].as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect();
                got.sort();
                let mut want: Vec<String> = self.tokens.iter().filter(|(_, a)| **a == At::Staked(i, x)).map(|(k, _)| tid(k.1)).collect();
                want.sort();
                ensure_eq_p!(got, want, P, "{what}: NFTs staked by {} in membership {i}", u(x));
                let v: Value = self.w.query(m, &json!({"user_weight": {"user": u(x)}})).map_err(fail)?;
                ensure_eq_p!(v["weight"], json!(want.len().to_string()), P, "{what}: weight of {} in membership {i}", u(x));
                total += want.len();
            }
            let v: Value = self.w.query(m, &json!({"total_weight": {"expiration": {"never": {}}}})).map_err(fail)?;
            ensure_eq_p!(v["total_weight"], json!(total.to_string()), P, "{what}: total weight of membership {i}");
            let known = i == 2 || self.known[i];
            match self.w.query::<Value, _>(m, &json!({"nft_config": {}})) {
                Ok(v) => {
                    ensure_p!(known, P, "{what}: membership {i} reports a collection {v} before it is known");
                    ensure_eq_p!(v["nft_contract"], json!(self.coll[i]), P, "{what}: collection of membership {i}");
                }
                Err(e) => ensure_p!(!known, P, "{what}: membership {i} does not report its collection: {e}"),
            }
            let v: Value = self.w.query(m, &json!({"nft_contract_config": {}})).map_err(fail)?;
            let local = json!({"cw721": {"contract": self.coll[i]}});
            let remote = json!({"ics721": {"contract": self.transfer, "class_id": CLASSES[i.min(1)]}});
            let x = &v["nft_contract"];
            ensure_p!(if i == 2 { *x == local } else { *x == remote || (known && *x == local) }, P, "{what}: collection settings of membership {i}: {x}");
        }
        let v: Value = self.w.query(&self.proxy, &json!({"config": {}})).map_err(fail)?;
        ensure_eq_p!(v["ics721_proxy"], json!(self.transfer), P, "{what}: proxy's transfer contract");
        Ok(())
    }
}

fn by() -> BoxedStrategy<By> {
    prop_oneof![Just(By::OtherTransfer), (0u8..4).prop_map(By::User), (0u8..3).prop_map(By::Collection), (0u8..3).prop_map(By::Membership), Just(By::Proxy), Just(By::Minter), Just(By::Transfer)].boxed()
}
fn op() -> BoxedStrategy<Op> {
    let hook = prop_oneof![
        10 => (0u8..4, 0u8..3).prop_map(|(user, m)| Hook::Stake { user, m }),
        1 => (0u8..3).prop_map(|m| Hook::StakeBad { m }),
        1 => Just(Hook::Unknown),
        1 => (0u8..4).prop_map(|user| Hook::NoMembership { user }),
        1 => Just(Hook::NotJson)
    ];
    let caller = prop_oneof![8 => Just(By::Transfer), 1 => by()];
    let arrive = (0u8..3, 0u8..5, prop::collection::vec(any::<u8>(), 0..2), prop_oneof![9 => Just(false), 1 => Just(true)], 0u8..3, hook, caller, any::<bool>()).prop_map(
        |(coll, new, old, twice, class, hook, by, fit)| {
            // usually a packet that fits the membership
            let coll = match (&hook, fit) {
                (Hook::Stake { m, .. }, true) => *m,
                _ => coll,
            };
            Op::Arrive { coll, new, old: if fit { vec![] } else { old }, twice: twice && !fit, class, hook, by }
        },
    );
    prop_oneof![
        1 => (0u8..2).prop_map(|class| Op::Learn { class }),
        8 => arrive,
        3 => (0u8..3, 0u8..3, 0u8..4, 0u8..4, any::<bool>()).prop_map(|(coll, m, user, for_user, fit)| Op::Send { coll: if fit { m } else { coll }, m, user, for_user }),
        2 => (0u8..3, by(), 0u8..4, any::<bool>(), any::<u8>()).prop_map(|(m, by, user, claim, id)| Op::Fake { m, by, user, claim, id }),
        3 => (any::<u8>(), prop_oneof![4 => Just(None), 1 => (0u8..4).prop_map(Some)]).prop_map(|(k, by)| Op::Unstake { k, by }),
        2 => (0u8..220).prop_map(Op::Wait),
        3 => (0u8..4, 0u8..4).prop_map(|(m, user)| Op::Claim { m, user })
    ]
    .boxed()
}
pub struct C23;
impl Check for C23 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        (any::<[bool; 2]>(), prop::collection::vec(op(), 2..30)).prop_map(|(known, ops)| Case { known, ops }).boxed()
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let mut s = S::build(c).map_err(|e| dv(P, format!("cannot be set up: {e}")))?;
        s.check("start")?;
        for (k, op) in c.ops.iter().enumerate() {
            let what = format!("op {k} {op:?}");
            s.step(op, &what, cov)?;
            s.check(&what)?;
        }
        cov.nontrivial = cov.has("staked-cross-chain") && (cov.has("refused-collection") || cov.has("stranger-refused") || cov.has("fake-refused") || cov.has("refused-before-known"));
        Ok(())
    }
    fn cases(&self) -> (u64, u64) {
        (7_000, 100_000)
    }
    fn rule(&self) -> &'static str {
        "a cross-chain NFT was staked through the callback and some wrong caller, collection or early arrival was attempted in the same history"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a mock transfer contract reports the class mapping, which never changes once known"]
    }
}
