//! E3: the funds distributor with a real DAO main contract, treasury and factory. C12, C13.
use crate::fw::*;
use crate::world::*;
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::{to_json_binary, Addr, Coin, Uint128, Uint256};
use funds_distributor_api::api::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Weights { by_admin: bool, list: Vec<(u8, u64)>, big: bool },
    /// set the minimum to an absolute value, or relative to a user's weight
    Min { by_admin: bool, abs: u64, of_user: Option<u8>, delta: i8 },
    Native { by: u8, list: Vec<(u8, u64)> },
    Cw20 { by: u8, asset: u8, amt: u64 },
    Fake { by: u8, amt: u64 },
    Claim { by: u8, user: Option<u8>, native: Vec<u8>, cw20: Vec<u8> },
    ClaimAll { by: u8 },
    Whitelist { add: Vec<u8>, remove: Vec<u8> },
    Donate { by: u8, amt: u64 },
    /// distribute several of the case's further denoms at once
    Spread { by: u8, from: u8, n: u8, amt: u64 },
    /// the same weight for everybody in the crowd
    Crowd { w: u64, upto: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    init: Vec<(u8, u64)>,
    min: Option<u64>,
    /// filler entries in the treasury whitelist (native, cw20)
    filler: (u8, u8),
    /// further whitelisted denoms, further users
    #[serde(default)]
    wide: u8,
    #[serde(default)]
    crowd: u8,
    ops: Vec<Op>,
}

const NU: u8 = 5;
const ADMIN: &str = "the_admin";
const NATIVE: [&str; 4] = ["uone", "utwo", "uglobal", "unlisted"];
const START: u128 = 1 << 100;

fn crowd(i: u8) -> String {
    format!("crowd{i:03}")
}
fn user(i: u8) -> String {
    format!("user{}", i % NU)
}

struct M {
    w: World,
    native: Vec<String>,
    /// users whose rewards and balances are followed
    users: Vec<String>,
    crowd: u8,
    d: Addr,
    treasury: Addr,
    cw20: Vec<Addr>,
    weights: BTreeMap<String, u128>,
    min: u128,
    listed: BTreeSet<String>,
    /// entitlement in 1e-30 units, rounded down, and the number of roundings, per (user, asset)
    ent: BTreeMap<(String, String), (Uint256, u128)>,
    /// tolerated index rounding in whole units (weights above 1e18), per (user, asset)
    slack: BTreeMap<(String, String), u128>,
    accruals: BTreeMap<String, u128>,
    paid: BTreeMap<(String, String), u128>,
    reward: BTreeMap<(String, String), u128>,
    distributed: BTreeMap<String, u128>,
    balances: BTreeMap<(String, String), u128>,
    donated: u128,
}

fn scale() -> Uint256 {
    Uint256::from(10u128.pow(30))
}

impl M {
    fn assets(&self) -> Vec<String> {
        self.native.iter().cloned().chain(self.cw20.iter().map(|a| a.to_string())).collect()
    }
    fn eff(&self, u: &str) -> u128 {
        let w = self.weights.get(u).copied().unwrap_or(0);
        if w >= self.min { w } else { 0 }
    }
    fn total_eff(&self) -> u128 {
        self.weights.keys().map(|u| self.eff(u)).sum()
    }
    fn bal(&self, who: &str, asset: &str) -> u128 {
        if self.native.iter().any(|x| x == asset) { self.w.bank(who, asset) } else { self.w.cw20(&Addr::unchecked(asset), who) }
    }
    fn whitelisted(&self, a: &str) -> bool {
        a == "uglobal" || self.listed.contains(a)
    }
    fn rewards(&self, u: &str) -> Res<BTreeMap<String, u128>> {
        let r: Result<UserRewardsResponse, String> = self.w.query(
            &self.d,
            &json!({"user_rewards": {"user": u, "native_denoms": self.native, "cw20_assets": self.cw20}}),
        );
        match r {
            Ok(r) => Ok(r
                .native_rewards
                .into_iter()
                .map(|x| (x.denom, x.amount.u128()))
                .chain(r.cw20_rewards.into_iter().map(|x| (x.asset, x.amount.u128())))
                .collect()),
            Err(e) => div(&["C12", "C13"], format!("reward query fails: {e}")),
        }
    }
    fn build(c: &Case) -> Res<Option<M>> {
        let mut w = World::with_global_whitelist(vec![cw_asset::AssetInfoUnchecked::native("uglobal")]);
        let native: Vec<String> = NATIVE.iter().map(|x| x.to_string()).chain((0..c.wide).map(|i| format!("uw{i:02}"))).collect();
        let mut users: Vec<String> = (0..NU).map(user).collect();
        if c.crowd > 0 {
            users.push(crowd(0));
            users.push(crowd(c.crowd - 1));
            users.dedup();
        }
        let names: Vec<String> = users.iter().cloned().chain(["rich".to_string()]).collect();
        let mut balances = BTreeMap::new();
        for u in &names {
            for d in &native {
                w.mint(u, START, d);
                balances.insert((u.clone(), d.to_string()), START);
            }
        }
        let bl: Vec<(&str, u128)> = names.iter().map(|u| (u.as_str(), START)).collect();
        let cw20: Vec<Addr> = (0..3).map(|i| w.new_cw20(["AAA", "BBB", "CCC"][i], &bl)).collect();
        for u in &names {
            for t in &cw20 {
                balances.insert((u.clone(), t.to_string()), START);
            }
        }
        let mut wl = vec![json!({"native": "uone"}), json!({"native": "utwo"}), json!({"cw20": cw20[0]}), json!({"cw20": cw20[1]})];
        for i in 0..c.filler.0 {
            wl.push(json!({"native": format!("ufill{i:03}")}));
        }
        for i in 0..c.filler.1 {
            wl.push(json!({"cw20": format!("afiller{i:03}")}));
        }
        for x in native.iter().filter(|x| x.starts_with("uw")) {
            wl.push(json!({ "native": x }));
        }
        let treasury = w.inst(w.codes.treasury, ECO_ADMIN, &json!({"admin": ADMIN, "asset_whitelist": wl}), None).unwrap();
        let e = new_enterprise(&mut w, enterprise_protocol::api::DaoType::Token);
        let mut weights = BTreeMap::new();
        let mut dup = false;
        for (u, x) in &c.init {
            dup |= weights.insert(user(*u), *x as u128).is_some();
        }
        let mut init: Vec<_> = c.init.iter().map(|(u, x)| json!({"user": user(*u), "weight": x.to_string()})).collect();
        for i in 0..c.crowd {
            let x = 100 + 5 * i as u128;
            weights.insert(crowd(i), x);
            init.push(json!({"user": crowd(i), "weight": x.to_string()}));
        }
        let r = w.inst(
            w.codes.distributor,
            ECO_ADMIN,
            &json!({"admin": ADMIN, "enterprise_contract": e, "initial_weights": init, "minimum_eligible_weight": c.min.map(|m| m.to_string())}),
            None,
        );
        if dup {
            ensure_p!(r.is_err(), &["C12"], "distributor created with a user weighted twice");
            return Ok(None);
        }
        let d = match r {
            Ok(d) => d,
            Err(e) => return div(&["C12", "C13"], format!("distributor cannot be created: {e}")),
        };
        finalize(&mut w, &e, &Components { treasury: treasury.to_string(), distributor: d.to_string(), ..Components::all(ADMIN) });
        let mut listed: BTreeSet<String> = ["uone".to_string(), "utwo".to_string(), cw20[0].to_string(), cw20[1].to_string()].into();
        listed.extend(native.iter().filter(|x| x.starts_with("uw")).cloned());
        Ok(Some(M {
            w, native, users, crowd: c.crowd, d, treasury, cw20, weights, min: c.min.unwrap_or(0) as u128, listed,
            ent: BTreeMap::new(), slack: BTreeMap::new(), accruals: BTreeMap::new(), paid: BTreeMap::new(), reward: BTreeMap::new(),
            distributed: BTreeMap::new(), balances, donated: 0,
        }))
    }

    fn split_props(&self) -> Vec<PropId> {
        let inel = self.weights.values().any(|w| *w > 0 && *w < self.min);
        if inel || self.min > 0 { vec!["C12", "C13"] } else { vec!["C12"] }
    }

    /// compare rewards with the previous ones; `dist`: amounts just distributed; `claimed`: just paid
    fn observe(&mut self, what: &str, dist: &BTreeMap<String, u128>, claimed: Option<(&str, &BTreeSet<String>)>) -> Res {
        let q: MinimumEligibleWeightResponse = match self.w.query(&self.d, &json!({"minimum_eligible_weight": {}})) {
            Ok(q) => q,
            Err(e) => return div(&["C13"], e),
        };
        ensure_eq_p!(q.minimum_eligible_weight.u128(), self.min, &["C13"], "after {what}: minimum weight");
        let total = self.total_eff();
        let sp = self.split_props();
        let assets = self.assets();
        for u in self.users.clone() {
            let r = self.rewards(&u)?;
            for a in &assets {
                let got = r.get(a).copied().unwrap_or(0);
                let k = (u.clone(), a.clone());
                let before = self.reward.get(&k).copied().unwrap_or(0);
                if let Some((cu, ca)) = &claimed {
                    if *cu == u && ca.contains(a) {
                        ensure_eq_p!(got, 0, &["C12"], "after {what}: reward of {u} in {a} left after claiming it");
                        self.reward.insert(k, 0);
                        continue;
                    }
                }
                if let Some(amt) = dist.get(a) {
                    let w = self.eff(&u);
                    if w == 0 {
                        ensure_eq_p!(got, before, &["C12", "C13"], "after {what}: reward in {a} of {u}, who has no eligible weight (weight {:?}, minimum {})", self.weights.get(&u), self.min);
                    }
                    let num = Uint256::from(*amt) * Uint256::from(w);
                    let lo = (num / Uint256::from(total)).to_string().parse::<u128>().unwrap();
                    let slack = w / 10u128.pow(18) + 1;
                    let inc = got.wrapping_sub(before) as i128;
                    ensure_p!(
                        inc >= lo as i128 - slack as i128 && inc <= lo as i128 + 1,
                        &sp,
                        "after {what}: {u} with eligible weight {w} of {total} got {inc} of {amt} {a}, expected about {lo}"
                    );
                    let e = self.ent.entry(k.clone()).or_insert((Uint256::zero(), 0));
                    e.0 += Uint256::from_uint128(Uint128::new(*amt)) * scale() * Uint256::from(w) / Uint256::from(total);
                    e.1 += 1;
                    *self.slack.entry(k.clone()).or_default() += w / 10u128.pow(18) + u128::from(w >= 10u128.pow(18));
                } else {
                    ensure_eq_p!(got, before, &["C12", "C13"], "after {what}: reward of {u} in {a} changed without a distribution or claim");
                }
                self.reward.insert(k.clone(), got);
                // cumulative entitlement
                let paid = self.paid.get(&k).copied().unwrap_or(0);
                let (ent, n) = self.ent.get(&k).copied().unwrap_or((Uint256::zero(), 0));
                let have = Uint256::from(paid + got) * scale();
                ensure_p!(have <= ent + Uint256::from(n), &sp, "after {what}: {u} was paid {paid} and can claim {got} of {a}, more than its share");
                let tol = self.accruals.get(&u).copied().unwrap_or(0) + 1 + n / 1_000_000 + self.slack.get(&k).copied().unwrap_or(0);
                // every distribution loses at most w*1e-18 of index precision: under one unit in total for these sizes
                ensure_p!(
                    have + Uint256::from(tol + 1) * scale() >= ent,
                    &sp,
                    "after {what}: {u} was paid {paid} and can claim {got} of {a}, less than its share {} by more than {tol} roundings",
                    ent / scale()
                );
            }
        }
        for a in &assets {
            let claimable: u128 = self.users.iter().map(|u| self.reward.get(&(u.clone(), a.clone())).copied().unwrap_or(0)).sum();
            let paid: u128 = self.users.iter().map(|u| self.paid.get(&(u.clone(), a.clone())).copied().unwrap_or(0)).sum();
            let dist = self.distributed.get(a).copied().unwrap_or(0);
            ensure_p!(claimable + paid <= dist, &["C12"], "after {what}: {paid} paid and {claimable} claimable of {a}, only {dist} distributed");
            let held = self.bal(self.d.as_str(), a);
            let extra = if a == "uone" { self.donated } else { 0 };
            ensure_eq_p!(held, dist - paid + extra, &["C12"], "after {what}: {a} held by the distributor");
            for u in &self.users {
                ensure_eq_p!(self.bal(u, a), self.balances[&(u.clone(), a.clone())], &["C12"], "after {what}: balance of {u} in {a}");
            }
        }
        Ok(())
    }

    fn dist_expect(&self, r: &Result<cw_multi_test::AppResponse, String>, assets: &[String], what: &str, cov: &mut Cov) -> Res<bool> {
        let wl = assets.iter().all(|a| self.whitelisted(a));
        let tot = self.total_eff() > 0;
        match r {
            Ok(_) if wl && tot => {
                cov.hit("distribution");
                Ok(true)
            }
            Ok(_) if !wl => div(&["C13"], format!("{what}: an asset that is not whitelisted was accepted")),
            Ok(_) => div(&["C13"], format!("{what}: accepted although nobody is eligible")),
            Err(e) if wl && tot => div(&["C12", "C13"], format!("{what} fails: {e}")),
            Err(_) => {
                cov.hit(if wl { "refused-no-eligible-weight" } else { "refused-not-whitelisted" });
                Ok(false)
            }
        }
    }

    fn step(&mut self, op: &Op, what: &str, cov: &mut Cov) -> Res {
        let d = self.d.clone();
        let mut dist = BTreeMap::new();
        match op {
            Op::Weights { by_admin, list, big } => {
                let s = if *by_admin { ADMIN.to_string() } else { user(list.first().map(|x| x.0).unwrap_or(0)) };
                let mul = if *big { 1_000_000_000_000_000_000u128 } else { 1 };
                let ms: Vec<_> = list.iter().map(|(u, x)| json!({"user": user(*u), "weight": (*x as u128 * mul).to_string()})).collect();
                let r = self.w.exec(&s, &d, &json!({"update_user_weights": {"new_user_weights": ms}}), &[]);
                match (r, *by_admin) {
                    (Ok(_), true) => {
                        for (u, x) in list {
                            self.weights.insert(user(*u), *x as u128 * mul);
                            *self.accruals.entry(user(*u)).or_default() += 1;
                        }
                        cov.hit("weights-changed");
                        if self.reward.values().any(|x| *x > 0) {
                            cov.hit("weights-changed-with-rewards");
                        }
                    }
                    (Err(_), false) => {}
                    (Ok(_), false) => return div(&["C15", "C13", "C12"], format!("{what}: weights changed by {s}")),
                    (Err(e), true) => return div(&["C12", "C13"], format!("{what} fails: {e}")),
                }
            }
            Op::Min { by_admin, abs, of_user, delta } => {
                let v = match of_user {
                    Some(u) => (self.weights.get(&user(*u)).copied().unwrap_or(0) as i128 + *delta as i128).max(0) as u128,
                    None => *abs as u128,
                };
                let s = if *by_admin { ADMIN } else { "user0" };
                let r = self.w.exec(s, &d, &json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": v.to_string()}}), &[]);
                match (r, *by_admin) {
                    (Ok(_), true) => {
                        let before: Vec<u128> = self.users.iter().map(|u| self.eff(u)).collect();
                        self.min = v;
                        for u in self.users.clone() {
                            *self.accruals.entry(u).or_default() += 1;
                        }
                        let after: Vec<u128> = self.users.iter().map(|u| self.eff(u)).collect();
                        if before.iter().zip(&after).any(|(b, a)| b > a) {
                            cov.hit("min-excludes");
                        }
                        if before.iter().zip(&after).any(|(b, a)| b < a) {
                            cov.hit("min-includes");
                        }
                    }
                    (Err(_), false) => {}
                    (Ok(_), false) => return div(&["C15", "C13"], format!("{what}: minimum changed by {s}")),
                    (Err(e), true) => return div(&["C13"], format!("{what} fails: {e}")),
                }
            }
            Op::Native { by, list } => {
                let s = user(*by);
                let mut m: BTreeMap<String, u128> = BTreeMap::new();
                for (a, x) in list {
                    m.insert(NATIVE[*a as usize % NATIVE.len()].to_string(), (*x as u128).max(1));
                }
                let funds: Vec<Coin> = m.iter().map(|(a, x)| Coin::new(*x, a.clone())).collect();
                let r = self.w.exec(&s, &d, &json!({"distribute_native": {}}), &funds);
                if self.dist_expect(&r, &m.keys().cloned().collect::<Vec<_>>(), what, cov)? {
                    for (a, x) in &m {
                        *self.distributed.entry(a.clone()).or_default() += x;
                        *self.balances.get_mut(&(s.clone(), a.clone())).unwrap() -= x;
                    }
                    dist = m;
                }
            }
            Op::Cw20 { by, asset, amt } => {
                let s = user(*by);
                let t = self.cw20[*asset as usize % self.cw20.len()].clone();
                let amt = (*amt as u128).max(1);
                let r = self.w.cw20_send(&t, &s, &d, amt, &json!({"distribute": {}}));
                if self.dist_expect(&r, &[t.to_string()], what, cov)? {
                    *self.distributed.entry(t.to_string()).or_default() += amt;
                    *self.balances.get_mut(&(s, t.to_string())).unwrap() -= amt;
                    dist.insert(t.to_string(), amt);
                    cov.hit("distribution-cw20");
                }
            }
            Op::Fake { by, amt } => {
                let s = user(*by);
                let r = self.w.exec(&s, &d, &json!({"receive": {"sender": s, "amount": amt.to_string(), "msg": to_json_binary(&json!({"distribute": {}})).unwrap()}}), &[]);
                ensure_p!(r.is_err(), &["C13", "C12"], "{what}: a user pretending to be a token distributed nothing");
            }
            Op::Claim { by, user: target, native, cw20 } => {
                let s = user(*by);
                let t = target.map(user).unwrap_or(s.clone());
                let nd: Vec<String> = native.iter().map(|i| NATIVE[*i as usize % NATIVE.len()].to_string()).collect();
                let cw: Vec<String> = cw20.iter().map(|i| self.cw20[*i as usize % self.cw20.len()].to_string()).collect();
                return self.claim(&s, &t, nd, cw, what, cov);
            }
            Op::ClaimAll { by } => {
                let s = user(*by);
                let nd = self.native.clone();
                let cw = self.cw20.iter().map(|s| s.to_string()).collect();
                return self.claim(&s, &s, nd, cw, what, cov);
            }
            Op::Whitelist { add, remove } => {
                let assets = self.assets();
                let info = |i: &u8| {
                    let a = &assets[*i as usize % assets.len()];
                    if self.native.contains(a) { json!({"native": a}) } else { json!({"cw20": a}) }
                };
                self.w
                    .exec(
                        ADMIN,
                        &self.treasury.clone(),
                        &json!({"update_asset_whitelist": {"add": add.iter().map(info).collect::<Vec<_>>(), "remove": remove.iter().map(info).collect::<Vec<_>>()}}),
                        &[],
                    )
                    .expect("whitelist update");
                for i in add {
                    self.listed.insert(assets[*i as usize % assets.len()].clone());
                }
                for i in remove {
                    self.listed.remove(&assets[*i as usize % assets.len()]);
                }
                cov.hit("whitelist-changed");
            }
            Op::Spread { by, from, n, amt } => {
                let wide = self.native.len() - NATIVE.len();
                if wide == 0 {
                    return Ok(());
                }
                let s = user(*by);
                let mut m: BTreeMap<String, u128> = BTreeMap::new();
                for k in 0..*n {
                    m.insert(self.native[NATIVE.len() + (*from as usize + k as usize) % wide].clone(), (*amt as u128).max(1) + k as u128);
                }
                let funds: Vec<Coin> = m.iter().map(|(a, x)| Coin::new(*x, a.clone())).collect();
                let r = self.w.exec(&s, &d, &json!({"distribute_native": {}}), &funds);
                if self.dist_expect(&r, &m.keys().cloned().collect::<Vec<_>>(), what, cov)? {
                    for (a, x) in &m {
                        *self.distributed.entry(a.clone()).or_default() += x;
                        *self.balances.get_mut(&(s.clone(), a.clone())).unwrap() -= x;
                    }
                    dist = m;
                    cov.hit("many-denoms-distributed");
                }
            }
            Op::Crowd { w, upto } => {
                if self.crowd == 0 {
                    return Ok(());
                }
                let n = *upto % (self.crowd + 1);
                let list: Vec<String> = (0..n).map(crowd).collect();
                let ms: Vec<_> = list.iter().map(|u| json!({"user": u, "weight": w.to_string()})).collect();
                if let Err(e) = self.w.exec(ADMIN, &d, &json!({"update_user_weights": {"new_user_weights": ms}}), &[]) {
                    return div(&["C12", "C13"], format!("{what} fails: {e}"));
                }
                for u in list {
                    *self.accruals.entry(u.clone()).or_default() += 1;
                    self.weights.insert(u, *w as u128);
                }
                cov.hit("crowd-reweighted");
            }
            Op::Donate { by, amt } => {
                let s = user(*by);
                let amt = (*amt as u128).max(1);
                self.w
                    .exec_msg(&s, cosmwasm_std::BankMsg::Send { to_address: d.to_string(), amount: vec![Coin::new(amt, "uone")] }.into())
                    .expect("send");
                *self.balances.get_mut(&(s, "uone".to_string())).unwrap() -= amt;
                self.donated += amt;
            }
        }
        self.observe(what, &dist, None)
    }

    fn claim(&mut self, s: &str, t: &str, nd: Vec<String>, cw: Vec<String>, what: &str, cov: &mut Cov) -> Res {
        let d = self.d.clone();
        let set: BTreeSet<String> = nd.iter().chain(cw.iter()).cloned().collect();
        let r = self.w.exec(s, &d, &json!({"claim_rewards": {"user": t, "native_denoms": nd, "cw20_assets": cw}}), &[]);
        if s != t {
            ensure_p!(r.is_err(), &["C12"], "{what}: {s} claimed the rewards of {t}");
            cov.hit("claim-other");
            return self.observe(what, &BTreeMap::new(), None);
        }
        if let Err(e) = r {
            return div(&["C12"], format!("{what} fails: {e}"));
        }
        *self.accruals.entry(t.to_string()).or_default() += 1;
        let mut some = false;
        for a in &set {
            let k = (t.to_string(), a.clone());
            let due = self.reward.get(&k).copied().unwrap_or(0);
            *self.paid.entry(k.clone()).or_default() += due;
            *self.balances.get_mut(&k).unwrap() += due;
            some |= due > 0;
        }
        if some {
            cov.hit("claim-paid");
        }
        if nd.len() + cw.len() > set.len() {
            cov.hit("claim-duplicate-asset");
        }
        self.observe(what, &BTreeMap::new(), Some((t, &set)))
    }
}

fn run_case(c: &Case, cov: &mut Cov) -> Res {
    let Some(mut m) = M::build(c)? else {
        cov.hit("dup-initial-refused");
        return Ok(());
    };
    m.observe("creation", &BTreeMap::new(), None)?;
    for (i, op) in c.ops.iter().enumerate() {
        m.step(op, &format!("step {i} {op:?}"), cov)?;
    }
    Ok(())
}

fn op() -> BoxedStrategy<Op> {
    let u = || 0..NU;
    let amt = || prop_oneof![1 => 1u64..10, 4 => 1u64..100_000, 4 => 1u64..1_000_000_000_000];
    let weight = || prop_oneof![2 => Just(0u64), 4 => 1u64..10, 4 => 1u64..1000, 1 => 1u64..1_000_000_000_000];
    prop_oneof![
        6 => (prop::bool::weighted(0.93), prop::collection::vec((u(), weight()), 1..4), prop::bool::weighted(0.06)).prop_map(|(by_admin, list, big)| Op::Weights { by_admin, list, big }),
        3 => (prop::bool::weighted(0.93), 0u64..1200, prop::option::weighted(0.7, u()), -1i8..2).prop_map(|(by_admin, abs, of_user, delta)| Op::Min { by_admin, abs, of_user, delta }),
        5 => (u(), prop::collection::vec((prop_oneof![4 => Just(0u8), 4 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)], amt()), 1..4)).prop_map(|(by, list)| Op::Native { by, list }),
        5 => (u(), prop_oneof![4 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8)], amt()).prop_map(|(by, asset, amt)| Op::Cw20 { by, asset, amt }),
        1 => (u(), amt()).prop_map(|(by, amt)| Op::Fake { by, amt }),
        4 => (u(), prop::option::weighted(0.2, u()), prop::collection::vec(0u8..4, 0..4), prop::collection::vec(0u8..3, 0..4)).prop_map(|(by, user, native, cw20)| Op::Claim { by, user, native, cw20 }),
        2 => u().prop_map(|by| Op::ClaimAll { by }),
        1 => (prop::collection::vec(0u8..7, 0..2), prop::collection::vec(0u8..7, 0..2)).prop_map(|(add, remove)| Op::Whitelist { add, remove }),
        1 => (u(), 1u64..1000).prop_map(|(by, amt)| Op::Donate { by, amt }),
    ]
    .boxed()
}
fn case(min_w: f64) -> BoxedStrategy<Case> {
    let init = (prop::collection::vec((0..NU, 0u64..1000), 0..5), prop::bool::weighted(0.92)).prop_map(|(v, dedup)| {
        let mut seen = BTreeSet::new();
        v.into_iter().filter(|x| !dedup || seen.insert(x.0)).collect::<Vec<_>>()
    });
    (
        init,
        prop::option::weighted(min_w, 0u64..600),
        prop_oneof![6 => Just((0u8, 0u8)), 1 => (0u8..70, 0u8..70)],
        prop_oneof![
            16 => prop::collection::vec(op(), 2..30).prop_map(|ops| (0u8, 0u8, ops)),
            1 => (5u8..45, prop::collection::vec(prop_oneof![2 => op(), 1 => (0..NU, any::<u8>(), 1u8..12, 1u64..100_000).prop_map(|(by, from, n, amt)| Op::Spread { by, from, n, amt })], 4..30)).prop_map(|(n, ops)| (n, 0, ops)),
            1 => (1u8..140, prop::collection::vec(prop_oneof![4 => op(), 1 => (0u64..800, any::<u8>()).prop_map(|(w, upto)| Op::Crowd { w, upto })], 4..20)).prop_map(|(n, ops)| (0, n, ops)),
        ],
    )
        .prop_map(|(init, min, filler, (wide, crowd, ops))| Case { init, min, filler, wide, crowd, ops })
        .boxed()
}

fn assumptions() -> Vec<&'static str> {
    vec![
        "5 users (in some cases up to 139 more), 7 assets (in some cases up to 44 more), up to 30 operations, single distribution below 1e12 units, weights up to 1e30",
        "rounding tolerance: one unit per accrual of the user plus weight*1e-18 per distribution",
    ]
}
pub struct C12;
impl Check for C12 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        case(0.3)
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let r = run_case(c, cov);
        cov.nontrivial = cov.count("distribution") >= 2 && cov.has("claim-paid") && cov.has("weights-changed-with-rewards");
        r
    }
    fn cases(&self) -> (u64, u64) {
        (6_000, 200_000)
    }
    fn rule(&self) -> &'static str {
        "at least 2 distributions, a paid claim and a weight change while rewards were outstanding"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        assumptions()
    }
}
pub struct C13;
impl Check for C13 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        case(0.8)
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let r = run_case(c, cov);
        cov.nontrivial = cov.has("distribution") && (cov.has("min-excludes") || cov.has("min-includes"));
        r
    }
    fn cases(&self) -> (u64, u64) {
        (6_000, 200_000)
    }
    fn rule(&self) -> &'static str {
        "at least one distribution and a change of the minimum that changed somebody's eligibility"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        assumptions()
    }
}
