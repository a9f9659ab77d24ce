//! E2: the four membership contracts, model-based. C08 weights, C09 token/denom custody,
//! C10 NFT custody, C11 listener reports and multisig edits.
use crate::fw::*;
use crate::world::*;
use crate::{ensure_eq_p, ensure_p};
use common::cw::ReleaseAt;
use cosmwasm_std::{coins, to_json_binary, Addr, Coin, Empty, Timestamp, Uint128};
use cw_utils::{Duration, Expiration};
use membership_common_api::api::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
    Denom,
    Token,
    Nft,
    Multisig,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dur {
    Secs(u64),
    Blocks(u64),
}
impl Dur {
    pub fn dur(&self) -> Duration {
        match self {
            Dur::Secs(s) => Duration::Time(*s),
            Dur::Blocks(b) => Duration::Height(*b),
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Sel {
    Abs(u64),
    All,
    AllPlusOne,
    Half,
    AllMinusOne,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// denom/token: `by` stakes `amt` (shifted) for user; NFT: owner of nft `nft` stakes it for user
    Stake { by: u8, for_: u8, to_self: bool, amt: u64, shift: u8, nft: u8 },
    StakeWrong { by: u8, how: u8, nft: u8 },
    Donate { by: u8, amt: u64, nft: u8 },
    AddStakes { by: u8, list: Vec<(u8, u64)>, delta: i8 },
    AddClaims { by: u8, list: Vec<(u8, u64, Dur)>, delta: i8, nft: u8 },
    /// `own`: pick (cyclically from `by`) a user who has stake
    Unstake { by: u8, sel: Sel, nfts: Vec<u8>, own: bool },
    /// `own`: pick (cyclically from `by`) a user who has claims
    Claim { by: u8, user: Option<u8>, own: bool },
    SetUnlock { by_ctrl: bool, by: u8, dur: Option<Dur> },
    Hook { add: bool, idx: u8, by_ctrl: bool, by: u8 },
    Update { by_ctrl: bool, by: u8, list: Vec<(u8, u64)>, dup: bool },
    Set { by_ctrl: bool, by: u8, list: Vec<(u8, u64)>, dup: bool },
    /// many members at once: multisig lists, stakes for many users, or many NFTs for one user
    Flock { by: u8, n: u8, w: u8, set: bool },
    /// many unstakes of one unit each (long claim lists)
    Burst { by: u8, n: u8 },
    Advance { nanos: u64, blocks: u64 },
    ToRelease { idx: u8, off: i8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: Kind,
    pub unlock: Dur,
    pub init: Option<Vec<(u8, u64)>>,
    pub hooks: u8,
    /// extra listeners (a quarter of it) and extra NFTs
    #[serde(default)]
    pub wide: u8,
    pub ops: Vec<Op>,
}

pub const NU: u8 = 5;
const NNFT: u8 = 12;
const DENOM: &str = "udao";
const OTHER: &str = "uother";
const CTRL: &str = "the_controller";
const START: u128 = 1 << 110;

pub fn user(i: u8) -> String {
    format!("user{}", i % NU)
}
fn crowd(i: u8) -> String {
    format!("crowd{i:03}")
}
fn nft_id(i: u8) -> String {
    format!("nft{:02}", i % NNFT)
}

#[derive(Clone, Debug, PartialEq)]
struct Claim {
    user: String,
    amount: u128,
    ids: BTreeSet<String>,
    rel: ReleaseAt,
}

struct Listener {
    addr: Addr,
    registered: bool,
    known: BTreeMap<String, u128>,
    seen: usize,
}

struct M {
    w: World,
    kind: Kind,
    c: Addr,
    token: Addr,
    other_token: Addr,
    nft: Addr,
    other_nft: Addr,
    weights: BTreeMap<String, u128>,
    stakers: BTreeMap<String, String>,
    nft_owner: BTreeMap<String, String>,
    claims: Vec<Claim>,
    balances: BTreeMap<String, u128>,
    donated: u128,
    unlock: Dur,
    events: Vec<(u64, u64, u128)>,
    listeners: Vec<Listener>,
    ids: Vec<String>,
}

#[derive(Deserialize, Debug)]
struct AnyClaim {
    user: String,
    #[serde(default)]
    amount: Option<Uint128>,
    #[serde(default)]
    nft_ids: Option<Vec<String>>,
    release_at: ReleaseAt,
}
#[derive(Deserialize, Debug)]
struct AnyClaims {
    claims: Vec<AnyClaim>,
}

fn relkey(r: &ReleaseAt) -> (u8, u64) {
    match r {
        ReleaseAt::Timestamp(t) => (0, t.nanos()),
        ReleaseAt::Height(h) => (1, h.u64()),
    }
}

impl M {
    fn custody(&self) -> PropId {
        if self.kind == Kind::Nft { "C10" } else { "C09" }
    }
    fn wp(&self) -> Vec<PropId> {
        if self.kind == Kind::Multisig { vec!["C11"] } else { vec!["C08"] }
    }
    fn wcp(&self) -> Vec<PropId> {
        if self.kind == Kind::Multisig { vec!["C11"] } else { vec!["C08", self.custody()] }
    }
    fn total(&self) -> u128 {
        self.weights.values().sum()
    }
    fn weight(&self, u: &str) -> u128 {
        self.weights.get(u).copied().unwrap_or(0)
    }
    fn event(&mut self) {
        let (h, s, t) = (self.w.height(), self.w.now().seconds(), self.total());
        self.events.push((h, s, t));
    }
    fn released(&self, r: &ReleaseAt) -> bool {
        match r {
            ReleaseAt::Timestamp(t) => self.w.now() >= *t,
            ReleaseAt::Height(h) => self.w.height() >= h.u64(),
        }
    }
    fn rel(&self, d: Dur) -> ReleaseAt {
        match d {
            Dur::Secs(s) => ReleaseAt::Timestamp(self.w.now().plus_seconds(s)),
            Dur::Blocks(b) => ReleaseAt::Height((self.w.height() + b).into()),
        }
    }

    fn build(case: &Case) -> Res<Option<M>> {
        let mut w = World::new();
        let (e, _) = standalone_enterprise(&mut w, CTRL);
        let mut balances = BTreeMap::new();
        let mut bal = vec![];
        for i in 0..NU {
            w.mint(&user(i), START, DENOM);
            w.mint(&user(i), START, OTHER);
            balances.insert(user(i), START);
            bal.push(user(i));
        }
        let bl: Vec<(&str, u128)> = bal.iter().map(|u| (u.as_str(), START)).collect();
        let token = w.new_cw20("DAO", &bl);
        let other_token = w.new_cw20("OTH", &bl);
        let nft = w.new_cw721(ECO_ADMIN);
        let other_nft = w.new_cw721(ECO_ADMIN);
        let mut nft_owner = BTreeMap::new();
        if case.kind == Kind::Nft {
            for i in 0..NNFT {
                w.mint_nft(&nft, ECO_ADMIN, &nft_id(i), &user(i));
                w.mint_nft(&other_nft, ECO_ADMIN, &nft_id(i), &user(i));
                nft_owner.insert(nft_id(i), user(i));
            }
            for i in 0..case.wide {
                let id = format!("xnft{i:03}");
                w.mint_nft(&nft, ECO_ADMIN, &id, &user(i));
                nft_owner.insert(id, user(i));
            }
        }
        let mut listeners = vec![];
        let nl = 3 + case.wide / 4;
        for i in 0..nl {
            let addr = w.inst(w.codes.recorder, ECO_ADMIN, &Empty {}, None).unwrap();
            listeners.push(Listener { addr, registered: i < case.hooks.min(3) || i >= 3, known: BTreeMap::new(), seen: 0 });
        }
        let hooks: Vec<String> = listeners.iter().filter(|l| l.registered).map(|l| l.addr.to_string()).collect();
        let code = match case.kind {
            Kind::Denom => w.codes.denom,
            Kind::Token => w.codes.token,
            Kind::Nft => w.codes.nft,
            Kind::Multisig => w.codes.multisig,
        };
        let unlock = case.unlock.dur();
        let mut weights: BTreeMap<String, u128> = BTreeMap::new();
        let mut dup = false;
        let msg = match case.kind {
            Kind::Denom => json!({"enterprise_contract": e, "denom": DENOM, "unlocking_period": unlock, "weight_change_hooks": hooks}),
            Kind::Token => json!({"enterprise_contract": e, "token_contract": token, "unlocking_period": unlock, "weight_change_hooks": hooks}),
            Kind::Nft => json!({"enterprise_contract": e, "nft_contract": {"cw721": {"contract": nft}}, "unlocking_period": unlock, "weight_change_hooks": hooks}),
            Kind::Multisig => {
                let init = case.init.as_ref().map(|l| {
                    l.iter()
                        .map(|(u, x)| {
                            if weights.insert(user(*u), *x as u128).is_some() {
                                dup = true;
                            }
                            json!({"user": user(*u), "weight": x.to_string()})
                        })
                        .collect::<Vec<_>>()
                });
                json!({"enterprise_contract": e, "initial_weights": init, "weight_change_hooks": hooks})
            }
        };
        let r = w.inst(code, ECO_ADMIN, &msg, None);
        if dup {
            ensure_p!(r.is_err(), &["C11"], "multisig created with a member listed twice");
            return Ok(None);
        }
        let c = match r {
            Ok(c) => c,
            Err(e) => return div(&["C08", "C09", "C10", "C11"], format!("membership of kind {:?} cannot be created: {e}", case.kind)),
        };
        for l in &mut listeners {
            if l.registered {
                l.known = weights.clone();
            }
        }
        let ids: Vec<String> = nft_owner.keys().cloned().collect();
        let mut m = M {
            w, kind: case.kind, c, token, other_token, nft, other_nft, weights, stakers: BTreeMap::new(), nft_owner,
            claims: vec![], balances, donated: 0, unlock: case.unlock, events: vec![], listeners, ids,
        };
        m.event();
        Ok(Some(m))
    }

    // ------------------------------------------------------------------ observation
    fn observe(&mut self, what: &str, cov: &mut Cov) -> Res {
        let wp = self.wp();
        for i in 0..NU {
            let u = user(i);
            let r: UserWeightResponse = self.q(&json!({"user_weight": {"user": u}}), &wp)?;
            ensure_eq_p!(r.weight.u128(), self.weight(&u), &wp, "after {what}: weight of {u}");
            ensure_eq_p!(r.user.to_string(), u.clone(), &wp, "after {what}: user in the answer");
        }
        let tot: TotalWeightResponse = self.q(&json!({"total_weight": {"expiration": {"never": {}}}}), &wp)?;
        ensure_eq_p!(tot.total_weight.u128(), self.total(), &wp, "after {what}: total weight");
        let mut members = vec![];
        loop {
            let after = members.last().map(|m: &membership_common_api::api::UserWeightResponse| m.user.to_string());
            let mem: MembersResponse = self.q(&json!({"members": {"start_after": after, "limit": 100}}), &wp)?;
            let n = mem.members.len();
            members.extend(mem.members);
            if n == 0 || members.len() < 50 {
                break;
            }
            cov.hit("member-pages");
        }
        let got: Vec<(String, u128)> = members.iter().map(|m| (m.user.to_string(), m.weight.u128())).filter(|x| x.1 > 0).collect();
        let want: Vec<(String, u128)> = self.weights.iter().map(|(a, b)| (a.clone(), *b)).filter(|x| x.1 > 0).collect();
        let mut gs = got.clone();
        gs.sort();
        ensure_eq_p!(gs, want, &wp, "after {what}: member listing");

        let cp = self.custody();
        if self.kind != Kind::Multisig {
            for i in 0..NU {
                let u = user(i);
                for (q, only) in [("claims", false), ("releasable_claims", true)] {
                    let r: AnyClaims = self.q(&json!({ q: {"user": u} }), &[cp])?;
                    let mut got: Vec<_> = r
                        .claims
                        .iter()
                        .map(|c| {
                            let mut ids = c.nft_ids.clone().unwrap_or_default();
                            ids.sort();
                            (relkey(&c.release_at), c.amount.map(|a| a.u128()).unwrap_or(0), ids, c.user.clone())
                        })
                        .collect();
                    got.sort();
                    let mut want: Vec<_> = self
                        .claims
                        .iter()
                        .filter(|c| c.user == u && (!only || self.released(&c.rel)))
                        .map(|c| (relkey(&c.rel), c.amount, c.ids.iter().cloned().collect::<Vec<_>>(), c.user.clone()))
                        .collect();
                    want.sort();
                    ensure_eq_p!(got, want, &[cp], "after {what}: {q} of {u} at height {} time {}", self.w.height(), self.w.now().nanos());
                }
            }
        }
        match self.kind {
            Kind::Denom | Kind::Token => {
                let held = self.bal(self.c.as_str());
                let want: u128 = self.total() + self.claims.iter().map(|c| c.amount).sum::<u128>() + self.donated;
                ensure_eq_p!(held, want, &["C09"], "after {what}: assets held by the membership contract");
                for i in 0..NU {
                    ensure_eq_p!(self.bal(&user(i)), self.balances[&user(i)], &["C09"], "after {what}: balance of {}", user(i));
                }
            }
            Kind::Nft => {
                for id in self.ids.clone() {
                    let o = self.w.nft_owner(&self.nft, &id);
                    ensure_eq_p!(o.as_deref(), Some(self.nft_owner[&id].as_str()), &["C10"], "after {what}: owner of {id}");
                }
                let us: BTreeSet<String> = (0..NU).map(user).chain(self.stakers.values().cloned()).collect();
                for u in us {
                    let r: nft_staking_api::api::UserNftStakeResponse = self.q(&json!({"user_stake": {"user": u, "limit": 100}}), &["C10", "C08"])?;
                    let mut got = r.tokens.clone();
                    got.sort();
                    let want: Vec<String> = self.stakers.iter().filter(|(_, s)| **s == u).map(|(t, _)| t.clone()).collect();
                    ensure_eq_p!(got, want, &["C10", "C08"], "after {what}: NFTs staked by {u}");
                    ensure_eq_p!(r.total_user_stake.u128(), want.len() as u128, &["C08"], "after {what}: stake size of {u}");
                }
                let r: nft_staking_api::api::StakedNftsResponse = self.q(&json!({"staked_nfts": {"limit": 100}}), &["C10"])?;
                let mut got = r.nfts.clone();
                got.sort();
                let want: Vec<String> = self.stakers.keys().cloned().collect();
                ensure_eq_p!(got, want, &["C10"], "after {what}: listing of staked NFTs");
            }
            Kind::Multisig => {}
        }
        // listeners
        for i in 0..self.listeners.len() {
            let all: Vec<UserWeightChange> = self.w.query(&self.listeners[i].addr, &Empty {}).unwrap();
            let l = &mut self.listeners[i];
            if !l.registered {
                ensure_eq_p!(all.len(), l.seen, &["C11"], "after {what}: reports sent to an unregistered listener");
                continue;
            }
            for r in &all[l.seen..] {
                let k = l.known.get(&r.user).copied().unwrap_or(0);
                ensure_eq_p!(r.old_weight.u128(), k, &["C11"], "after {what}: old weight of {} reported to a listener", r.user);
                l.known.insert(r.user.clone(), r.new_weight.u128());
            }
            l.seen = all.len();
            let us: BTreeSet<String> = (0..NU).map(user).chain(self.weights.keys().cloned()).collect();
            for u in us {
                let k = l.known.get(&u).copied().unwrap_or(0);
                let wgt = self.weights.get(&u).copied().unwrap_or(0);
                ensure_eq_p!(k, wgt, &["C11"], "after {what}: weight of {u} as known to a listener");
            }
            if l.seen > 0 {
                cov.hit("listener-informed");
            }
        }
        Ok(())
    }

    fn history(&mut self, cov: &mut Cov) -> Res {
        let wp: Vec<PropId> = if self.kind == Kind::Multisig { vec!["C11", "C08"] } else { vec!["C08"] };
        let mut hs = BTreeSet::new();
        let mut ts = BTreeSet::new();
        for (h, s, _) in &self.events {
            hs.extend([h.saturating_sub(1), *h, h + 1]);
            ts.extend([s.saturating_sub(1), *s, s + 1]);
        }
        for h in hs {
            if h > self.w.height() {
                continue;
            }
            let want = self.events.iter().filter(|e| e.0 < h).last().map(|e| e.2).unwrap_or(0);
            let r: TotalWeightResponse = self.q(&json!({"total_weight": {"expiration": Expiration::AtHeight(h)}}), &wp)?;
            ensure_eq_p!(r.total_weight.u128(), want, &wp, "total weight at past height {h}, changes {:?}", self.events);
            cov.hit("history-height");
        }
        for t in ts {
            if t > self.w.now().seconds() {
                continue;
            }
            let want = self.events.iter().filter(|e| e.1 < t).last().map(|e| e.2).unwrap_or(0);
            for nanos in [0u64, 999_999_999] {
                let ts = Timestamp::from_seconds(t).plus_nanos(nanos);
                let r: TotalWeightResponse = self.q(&json!({"total_weight": {"expiration": Expiration::AtTime(ts)}}), &wp)?;
                ensure_eq_p!(r.total_weight.u128(), want, &wp, "total weight at past time {ts}, changes {:?}", self.events);
            }
            cov.hit("history-time");
        }
        Ok(())
    }

    fn q<T: serde::de::DeserializeOwned>(&self, m: &serde_json::Value, props: &[PropId]) -> Res<T> {
        match self.w.query(&self.c, m) {
            Ok(v) => Ok(v),
            Err(e) => div(props, format!("query {m} fails: {e}")),
        }
    }
    fn bal(&self, a: &str) -> u128 {
        if self.kind == Kind::Denom { self.w.bank(a, DENOM) } else { self.w.cw20(&self.token, a) }
    }

    fn expect(&self, r: Result<cw_multi_test::AppResponse, String>, ok: bool, props: &[PropId], what: &str) -> Res<bool> {
        match (r, ok) {
            (Ok(_), true) => Ok(true),
            (Err(_), false) => Ok(false),
            (Ok(_), false) => div(props, format!("{what} was accepted but must be refused")),
            (Err(e), true) => div(props, format!("{what} must succeed but fails: {e}")),
        }
    }

    // ------------------------------------------------------------------ operations
    fn step(&mut self, op: &Op, cov: &mut Cov) -> Res {
        let c = self.c.clone();
        match op {
            Op::Stake { by, for_, to_self, amt, shift, nft } => {
                let (by, target) = (user(*by), user(*for_));
                let amt = ((*amt as u128).max(1)) << (*shift as u32 % 40);
                match self.kind {
                    Kind::Denom => {
                        let target = if *to_self { by.clone() } else { target };
                        let msg = json!({"stake": {"user": if *to_self { None } else { Some(&target) }}});
                        let ok = self.balances[&by] >= amt;
                        let r = self.w.exec(&by, &c, &msg, &coins(amt, DENOM));
                        if self.expect(r, ok, &["C08", "C09"], "staking the DAO denom")? {
                            *self.balances.get_mut(&by).unwrap() -= amt;
                            *self.weights.entry(target.clone()).or_default() += amt;
                            self.event();
                            cov.hit(if target == by { "stake" } else { "stake-for-other" });
                        }
                    }
                    Kind::Token => {
                        let ok = self.balances[&by] >= amt;
                        let r = self.w.cw20_send(&self.token.clone(), &by, &c, amt, &json!({"stake": {"user": target}}));
                        if self.expect(r, ok, &["C08", "C09"], "staking the DAO token")? {
                            *self.balances.get_mut(&by).unwrap() -= amt;
                            *self.weights.entry(target.clone()).or_default() += amt;
                            self.event();
                            cov.hit(if target == by { "stake" } else { "stake-for-other" });
                        }
                    }
                    Kind::Nft => {
                        let id = nft_id(*nft);
                        let owner = self.nft_owner[&id].clone();
                        // mostly the actual owner; a non-owner attempt is refused by the collection itself
                        let sender = if owner == c.as_str() { by } else { owner.clone() };
                        let ok = sender == owner;
                        let r = self.w.send_nft(&self.nft.clone(), &sender, &c, &id, &json!({"stake": {"user": target}}));
                        if self.expect(r, ok, &["C08", "C10"], "staking an NFT")? {
                            self.nft_owner.insert(id.clone(), c.to_string());
                            self.stakers.insert(id, target.clone());
                            *self.weights.entry(target.clone()).or_default() += 1;
                            self.event();
                            cov.hit(if target == sender { "stake" } else { "stake-for-other" });
                        }
                    }
                    Kind::Multisig => {}
                }
            }
            Op::StakeWrong { by, how, nft } => {
                let by = user(*by);
                let t = json!({"stake": {"user": by}});
                let (r, what) = match self.kind {
                    Kind::Denom => match how % 3 {
                        0 => (self.w.exec(&by, &c, &t, &coins(7, OTHER)), "staking a foreign denom"),
                        1 => (self.w.exec(&by, &c, &t, &[Coin::new(3, DENOM), Coin::new(4, OTHER)]), "staking two denoms at once"),
                        _ => (self.w.exec(&by, &c, &t, &[]), "staking nothing"),
                    },
                    Kind::Token => match how % 3 {
                        0 => (self.w.cw20_send(&self.other_token.clone(), &by, &c, 9, &t), "staking a foreign token"),
                        1 => (
                            self.w.exec(&by, &c, &json!({"receive": {"sender": by, "amount": "9", "msg": to_json_binary(&t).unwrap()}}), &[]),
                            "claiming to have sent tokens",
                        ),
                        _ => (
                            self.w.cw20_send(&self.other_token.clone(), &by, &c, 9, &json!({"add_claims": {"claims": [
                                {"user": by, "claim_amount": "9", "release_at": ReleaseAt::Height(1u64.into())}]}})),
                            "adding a claim backed by a foreign token",
                        ),
                    },
                    Kind::Nft => {
                        let id = nft_id(*nft);
                        let owner = user(*nft % NNFT);
                        let t = json!({"stake": {"user": owner}});
                        match how % 3 {
                            0 => (self.w.send_nft(&self.other_nft.clone(), &owner, &c, &id, &t), "staking an NFT of a foreign collection"),
                            1 => (
                                self.w.exec(&by, &c, &json!({"receive_nft": {"sender": by, "token_id": id, "msg": to_json_binary(&t).unwrap()}}), &[]),
                                "claiming to have sent an NFT",
                            ),
                            _ => (
                                self.w.send_nft(&self.other_nft.clone(), &owner, &c, &id, &json!({"add_claim": {"user": by, "release_at": ReleaseAt::Height(1u64.into())}})),
                                "adding a claim with an NFT of a foreign collection",
                            ),
                        }
                    }
                    Kind::Multisig => return Ok(()),
                };
                self.expect(r, false, &[self.custody(), "C08"], what)?;
                cov.hit("wrong-asset");
            }
            Op::Donate { by, amt, nft } => {
                let by = user(*by);
                let amt = (*amt as u128).max(1);
                match self.kind {
                    Kind::Denom => {
                        self.w
                            .exec_msg(&by, cosmwasm_std::BankMsg::Send { to_address: c.to_string(), amount: coins(amt, DENOM) }.into())
                            .expect("bank send");
                        *self.balances.get_mut(&by).unwrap() -= amt;
                        self.donated += amt;
                        cov.hit("donation");
                    }
                    Kind::Token => {
                        self.w
                            .exec(&by, &self.token.clone(), &json!({"transfer": {"recipient": c, "amount": amt.to_string()}}), &[])
                            .expect("cw20 transfer");
                        *self.balances.get_mut(&by).unwrap() -= amt;
                        self.donated += amt;
                        cov.hit("donation");
                    }
                    Kind::Nft => {
                        let id = nft_id(*nft);
                        let owner = self.nft_owner[&id].clone();
                        if owner == c.as_str() || *nft < NNFT - 2 {
                            // keep most NFTs in play: hand them to another user instead
                            if owner != c.as_str() {
                                self.w
                                    .exec(&owner, &self.nft.clone(), &json!({"transfer_nft": {"recipient": by, "token_id": id}}), &[])
                                    .expect("nft transfer");
                                self.nft_owner.insert(id, by);
                            }
                            return Ok(());
                        }
                        self.w
                            .exec(&owner, &self.nft.clone(), &json!({"transfer_nft": {"recipient": c, "token_id": id}}), &[])
                            .expect("nft transfer");
                        self.nft_owner.insert(id, c.to_string());
                        cov.hit("donation");
                    }
                    Kind::Multisig => {}
                }
            }
            Op::AddStakes { by, list, delta } => {
                if self.kind != Kind::Token || list.is_empty() {
                    return Ok(());
                }
                let by = user(*by);
                let sum: u128 = list.iter().map(|x| x.1 as u128).sum();
                let sent = (sum as i128 + *delta as i128).max(1) as u128;
                let ok = sent == sum;
                let stakers: Vec<_> = list.iter().map(|(u, a)| json!({"user": user(*u), "staked_amount": a.to_string()})).collect();
                let r = self.w.cw20_send(&self.token.clone(), &by, &c, sent, &json!({"add_stakes": {"stakers": stakers}}));
                if self.expect(r, ok, &["C08", "C09"], &format!("adding stakes summing to {sum} while sending {sent}"))? {
                    *self.balances.get_mut(&by).unwrap() -= sent;
                    for (u, a) in list {
                        *self.weights.entry(user(*u)).or_default() += *a as u128;
                    }
                    self.event();
                    cov.hit("add-stakes");
                } else {
                    cov.hit("add-stakes-mismatch");
                }
            }
            Op::AddClaims { by, list, delta, nft } => match self.kind {
                Kind::Token => {
                    if list.is_empty() {
                        return Ok(());
                    }
                    let by = user(*by);
                    let list: Vec<_> = list.iter().map(|(u, a, d)| (user(*u), (*a as u128).max(1), self.rel(*d))).collect();
                    let sum: u128 = list.iter().map(|x| x.1).sum();
                    let sent = (sum as i128 + *delta as i128).max(1) as u128;
                    let ok = sent == sum;
                    let claims: Vec<_> = list.iter().map(|(u, a, d)| json!({"user": u, "claim_amount": a.to_string(), "release_at": d})).collect();
                    let r = self.w.cw20_send(&self.token.clone(), &by, &c, sent, &json!({"add_claims": {"claims": claims}}));
                    if self.expect(r, ok, &["C09"], &format!("adding claims summing to {sum} while sending {sent}"))? {
                        *self.balances.get_mut(&by).unwrap() -= sent;
                        for (u, a, d) in list {
                            self.claims.push(Claim { user: u, amount: a, ids: BTreeSet::new(), rel: d });
                        }
                        cov.hit("add-claims");
                    } else {
                        cov.hit("add-claims-mismatch");
                    }
                }
                Kind::Nft => {
                    let id = nft_id(*nft);
                    let owner = self.nft_owner[&id].clone();
                    if owner == c.as_str() || list.is_empty() {
                        return Ok(());
                    }
                    let (u, _, d) = list[0];
                    let rel = self.rel(d);
                    let r = self.w.send_nft(&self.nft.clone(), &owner, &c, &id, &json!({"add_claim": {"user": user(u), "release_at": rel}}));
                    self.expect(r, true, &["C10"], "adding an NFT claim")?;
                    self.nft_owner.insert(id.clone(), c.to_string());
                    self.claims.push(Claim { user: user(u), amount: 0, ids: [id].into(), rel });
                    cov.hit("add-claims");
                }
                _ => {}
            },
            Op::Unstake { by, sel, nfts, own } => {
                let mut u = user(*by);
                if *own {
                    if let Some(x) = (0..NU).map(|i| user(by + i)).find(|x| self.weight(x) > 0) {
                        u = x;
                    }
                }
                match self.kind {
                    Kind::Denom | Kind::Token => {
                        let w = self.weight(&u);
                        let amt = match sel {
                            Sel::Abs(a) => *a as u128,
                            Sel::All => w,
                            Sel::AllPlusOne => w + 1,
                            Sel::Half => w / 2,
                            Sel::AllMinusOne => w.saturating_sub(1),
                        }
                        .max(1);
                        let ok = amt <= w;
                        let r = self.w.exec(&u, &c, &json!({"unstake": {"amount": amt.to_string()}}), &[]);
                        if self.expect(r, ok, &["C08", "C09"], &format!("unstaking {amt} of a stake of {w}"))? {
                            *self.weights.get_mut(&u).unwrap() -= amt;
                            let rel = self.rel(self.unlock);
                            self.claims.push(Claim { user: u, amount: amt, ids: BTreeSet::new(), rel });
                            self.event();
                            cov.hit("unstake");
                        } else {
                            cov.hit("unstake-too-much");
                        }
                    }
                    Kind::Nft => {
                        let mut ids: Vec<String> = nfts.iter().map(|n| nft_id(*n)).collect();
                        if *own {
                            let mine: Vec<String> = self.stakers.iter().filter(|(_, s)| **s == u).map(|(t, _)| t.clone()).collect();
                            if !mine.is_empty() {
                                let mut set = BTreeSet::new();
                                for n in nfts {
                                    set.insert(mine[*n as usize % mine.len()].clone());
                                }
                                ids = set.into_iter().collect();
                            }
                        }
                        if ids.is_empty() {
                            return Ok(());
                        }
                        let set: BTreeSet<String> = ids.iter().cloned().collect();
                        let ok = set.len() == ids.len() && ids.iter().all(|i| self.stakers.get(i) == Some(&u));
                        let r = self.w.exec(&u, &c, &json!({"unstake": {"nft_ids": ids}}), &[]);
                        if self.expect(r, ok, &["C08", "C10"], &format!("{u} unstaking {ids:?}, stakers {:?}", self.stakers))? {
                            for i in &ids {
                                self.stakers.remove(i);
                            }
                            *self.weights.get_mut(&u).unwrap() -= ids.len() as u128;
                            let rel = self.rel(self.unlock);
                            self.claims.push(Claim { user: u, amount: 0, ids: set, rel });
                            self.event();
                            cov.hit("unstake");
                        } else {
                            cov.hit("unstake-too-much");
                        }
                    }
                    Kind::Multisig => {}
                }
            }
            Op::Flock { by, n, w, set } => match self.kind {
                Kind::Multisig => {
                    let l: Vec<(String, u128)> = (0..*n).map(|i| (crowd(i), if *w == 0 { 0 } else { *w as u128 + i as u128 % 3 })).collect();
                    let ms: Vec<_> = l.iter().map(|(u, x)| json!({"user": u, "weight": x.to_string()})).collect();
                    let msg = if *set { json!({"set_members": {"new_members": ms}}) } else { json!({"update_members": {"update_members": ms}}) };
                    let r = self.w.exec(CTRL, &c, &msg, &[]);
                    self.expect(r, true, &["C11"], &format!("listing {n} members at once"))?;
                    if *set {
                        self.weights.clear();
                    }
                    self.weights.extend(l);
                    self.event();
                    cov.hit("flock");
                }
                Kind::Nft => {
                    let mut who = *by;
                    for id in self.ids.clone().into_iter().filter(|i| i.starts_with('x')).take(*n as usize) {
                        let owner = self.nft_owner[&id].clone();
                        if owner == c.as_str() {
                            continue;
                        }
                        let target = if *set { who = who.wrapping_add(1); crowd(who) } else { user(*by) };
                        let r = self.w.send_nft(&self.nft.clone(), &owner, &c, &id, &json!({"stake": {"user": target}}));
                        self.expect(r, true, &["C08", "C10"], "staking an NFT")?;
                        self.nft_owner.insert(id.clone(), c.to_string());
                        self.stakers.insert(id, target.clone());
                        *self.weights.entry(target).or_default() += 1;
                        self.event();
                        cov.hit("flock");
                    }
                }
                Kind::Denom | Kind::Token => {
                    let by = user(*by);
                    let l: Vec<(String, u128)> = (0..*n).map(|i| (crowd(i), 1 + *w as u128 + i as u128 % 3)).collect();
                    let sum: u128 = l.iter().map(|x| x.1).sum();
                    if l.is_empty() || self.balances[&by] < sum {
                        return Ok(());
                    }
                    if self.kind == Kind::Token && *set {
                        let stakers: Vec<_> = l.iter().map(|(u, a)| json!({"user": u, "staked_amount": a.to_string()})).collect();
                        let r = self.w.cw20_send(&self.token.clone(), &by, &c, sum, &json!({"add_stakes": {"stakers": stakers}}));
                        self.expect(r, true, &["C08", "C09"], "adding many stakes")?;
                    } else {
                        for (u, a) in &l {
                            let msg = json!({"stake": {"user": u}});
                            let r = if self.kind == Kind::Denom {
                                self.w.exec(&by, &c, &msg, &coins(*a, DENOM))
                            } else {
                                self.w.cw20_send(&self.token.clone(), &by, &c, *a, &msg)
                            };
                            self.expect(r, true, &["C08", "C09"], "staking for somebody")?;
                        }
                    }
                    for (u, a) in l {
                        *self.weights.entry(u).or_default() += a;
                    }
                    *self.balances.get_mut(&by).unwrap() -= sum;
                    self.event();
                    cov.hit("flock");
                }
            },
            Op::Burst { by, n } => {
                for _ in 0..*n {
                    let op = Op::Unstake { by: *by, sel: Sel::Abs(1), nfts: vec![0], own: true };
                    self.step(&op, cov)?;
                }
                cov.hit("burst");
            }
            Op::Claim { by, user: target, own } => {
                if self.kind == Kind::Multisig {
                    return Ok(());
                }
                let i0 = *by;
                let mut by = user(*by);
                if *own {
                    if let Some(x) = (0..NU).map(|i| user(i0 + i)).find(|x| self.claims.iter().any(|c| c.user == *x)) {
                        by = x;
                    }
                }
                let target_u = target.map(user).unwrap_or(by.clone());
                let r = self.w.exec(&by, &c, &json!({"claim": {"user": target.map(user)}}), &[]);
                let payable: Vec<usize> =
                    (0..self.claims.len()).filter(|i| self.claims[*i].user == target_u && self.released(&self.claims[*i].rel)).collect();
                if by != target_u {
                    self.expect(r, false, &[self.custody()], "claiming on behalf of somebody else")?;
                    cov.hit("claim-other");
                } else if payable.is_empty() {
                    cov.hit(if self.claims.iter().any(|c| c.user == by) { "claim-too-early" } else { "claim-nothing" });
                } else {
                    self.expect(r, true, &[self.custody()], "claiming payable claims")?;
                    for i in payable.iter().rev() {
                        let cl = self.claims.remove(*i);
                        *self.balances.get_mut(&by).unwrap() += cl.amount;
                        for id in cl.ids {
                            self.nft_owner.insert(id, by.clone());
                        }
                    }
                    cov.hit("claim-paid");
                    if payable.len() > 1 {
                        cov.hit("claim-several");
                    }
                    if self.claims.iter().any(|c| c.user == by) {
                        cov.hit("claim-partial");
                    }
                }
            }
            Op::SetUnlock { by_ctrl, by, dur } => {
                if self.kind == Kind::Multisig {
                    return Ok(());
                }
                let s = if *by_ctrl { CTRL.to_string() } else { user(*by) };
                let r = self.w.exec(&s, &c, &json!({"update_unlocking_period": {"new_unlocking_period": dur.map(|d| d.dur())}}), &[]);
                if self.expect(r, *by_ctrl, &["C15", self.custody()], "changing the unlocking period")? {
                    if let Some(d) = dur {
                        self.unlock = *d;
                        cov.hit("unlock-changed");
                    }
                }
            }
            Op::Hook { add, idx, by_ctrl, by } => {
                let s = if *by_ctrl { CTRL.to_string() } else { user(*by) };
                let i = *idx as usize % self.listeners.len();
                let a = self.listeners[i].addr.clone();
                let msg = if *add { json!({"add_weight_change_hook": {"hook_addr": a}}) } else { json!({"remove_weight_change_hook": {"hook_addr": a}}) };
                let r = self.w.exec(&s, &c, &msg, &[]);
                if self.expect(r, *by_ctrl, &["C15", "C11"], "changing the listeners")? {
                    if *add && !self.listeners[i].registered {
                        self.listeners[i].known = self.weights.clone();
                        cov.hit("listener-added");
                    } else if !*add && self.listeners[i].registered {
                        cov.hit("listener-removed");
                    }
                    self.listeners[i].registered = *add;
                }
            }
            Op::Update { by_ctrl, by, list, dup } | Op::Set { by_ctrl, by, list, dup } => {
                if self.kind != Kind::Multisig {
                    return Ok(());
                }
                let set = matches!(op, Op::Set { .. });
                let s = if *by_ctrl { CTRL.to_string() } else { user(*by) };
                let mut l: Vec<(String, u128)> = vec![];
                for (u, x) in list {
                    if *dup || !l.iter().any(|y| y.0 == user(*u)) {
                        l.push((user(*u), *x as u128));
                    }
                }
                let uniq: BTreeSet<&String> = l.iter().map(|x| &x.0).collect();
                let has_dup = uniq.len() != l.len();
                let ms: Vec<_> = l.iter().map(|(u, x)| json!({"user": u, "weight": x.to_string()})).collect();
                let msg = if set { json!({"set_members": {"new_members": ms}}) } else { json!({"update_members": {"update_members": ms}}) };
                let r = self.w.exec(&s, &c, &msg, &[]);
                let what = format!("{} {l:?} by {s}", if set { "replacing the members by" } else { "editing members" });
                let props: &[PropId] = if *by_ctrl { &["C11"] } else { &["C11", "C15"] };
                if self.expect(r, *by_ctrl && !has_dup, props, &what)? {
                    if set {
                        if self.weights.iter().any(|(u, x)| *x > 0 && !uniq.contains(u)) {
                            cov.hit("member-removed-by-replacement");
                        }
                        self.weights.clear();
                    }
                    for (u, x) in l {
                        self.weights.insert(u, x);
                    }
                    self.event();
                    cov.hit(if set { "set-members" } else { "update-members" });
                } else if has_dup {
                    cov.hit("dup-members-refused");
                }
            }
            Op::Advance { nanos, blocks } => {
                // a block never has a later height with an earlier time; time may move within a second
                self.w.advance(*nanos, (*blocks).max(1));
            }
            Op::ToRelease { idx, off } => {
                if self.claims.is_empty() {
                    return Ok(());
                }
                let r = self.claims[*idx as usize % self.claims.len()].rel.clone();
                match r {
                    ReleaseAt::Timestamp(t) => {
                        let t = (t.nanos() as i128 + *off as i128) as u64;
                        self.w.set_time(Timestamp::from_nanos(t));
                    }
                    ReleaseAt::Height(h) => {
                        let h = (h.u64() as i64 + *off as i64) as u64;
                        if h > self.w.height() {
                            let d = h - self.w.height();
                            self.w.advance(1_000_000_000, d);
                        }
                    }
                }
                cov.hit("to-release-boundary");
            }
        }
        Ok(())
    }
}

fn run_case(case: &Case, cov: &mut Cov) -> Res {
    cov.hit(format!("kind-{:?}", case.kind));
    let Some(mut m) = M::build(case)? else {
        cov.hit("dup-members-refused");
        return Ok(());
    };
    m.observe("creation", cov)?;
    for (i, op) in case.ops.iter().enumerate() {
        m.step(op, cov)?;
        m.observe(&format!("step {i} {op:?}"), cov)?;
    }
    m.history(cov)?;
    Ok(())
}

// ---------------------------------------------------------------------- generators
pub fn dur() -> BoxedStrategy<Dur> {
    prop_oneof![
        1 => Just(Dur::Secs(0)),
        4 => (1u64..2000).prop_map(Dur::Secs),
        3 => (1u64..40).prop_map(Dur::Blocks),
        1 => Just(Dur::Blocks(0)),
        1 => (2_000u64..40_000_000).prop_map(Dur::Secs),
        1 => (40u64..3_000_000).prop_map(Dur::Blocks),
    ]
    .boxed()
}
fn weightlist() -> impl Strategy<Value = Vec<(u8, u64)>> {
    prop::collection::vec((0..NU, prop_oneof![2 => Just(0u64), 5 => 1u64..100, 1 => any::<u64>()]), 0..6)
}
fn op(kind: Kind) -> BoxedStrategy<Op> {
    let u = || 0..NU;
    let adv = prop_oneof![
        2 => (0u64..3_000_000_000, 1u64..3),
        1 => (0u64..900_000_000_000, 1u64..30),
    ]
    .prop_map(|(nanos, blocks)| Op::Advance { nanos, blocks });
    let hook = (any::<bool>(), 0u8..3, prop::bool::weighted(0.8), u()).prop_map(|(add, idx, by_ctrl, by)| Op::Hook { add, idx, by_ctrl, by });
    let ctrl = || prop::bool::weighted(0.85);
    let flock = (u(), prop_oneof![3 => 1u8..8, 2 => 8u8..45, 1 => 45u8..140], 0u8..5, any::<bool>()).prop_map(|(by, n, w, set)| Op::Flock { by, n, w, set });
    if kind == Kind::Multisig {
        return prop_oneof![
            5 => (ctrl(), u(), weightlist(), prop::bool::weighted(0.2)).prop_map(|(by_ctrl, by, list, dup)| Op::Update { by_ctrl, by, list, dup }),
            4 => (ctrl(), u(), weightlist(), prop::bool::weighted(0.2)).prop_map(|(by_ctrl, by, list, dup)| Op::Set { by_ctrl, by, list, dup }),
            2 => hook,
            1 => flock,
            3 => adv,
        ]
        .boxed();
    }
    let amt = || prop_oneof![6 => 1u64..60, 1 => any::<u64>()];
    let sel = prop_oneof![4 => (1u64..30).prop_map(Sel::Abs), 2 => Just(Sel::All), 1 => Just(Sel::AllPlusOne), 2 => Just(Sel::Half), 1 => Just(Sel::AllMinusOne)];
    prop_oneof![
        7 => (u(), u(), any::<bool>(), amt(), prop_oneof![3 => Just(0u8), 1 => 0u8..40], 0..NNFT)
            .prop_map(|(by, for_, to_self, amt, shift, nft)| Op::Stake { by, for_, to_self, amt, shift, nft }),
        1 => (u(), any::<u8>(), 0..NNFT).prop_map(|(by, how, nft)| Op::StakeWrong { by, how, nft }),
        1 => (u(), 1u64..50, 0..NNFT).prop_map(|(by, amt, nft)| Op::Donate { by, amt, nft }),
        1 => (u(), prop::collection::vec((u(), 0u64..40), 1..5), prop_oneof![3 => Just(0i8), 1 => -3i8..4]).prop_map(|(by, list, delta)| Op::AddStakes { by, list, delta }),
        1 => (u(), prop::collection::vec((u(), 1u64..40, dur()), 1..4), prop_oneof![3 => Just(0i8), 1 => -3i8..4], 0..NNFT)
            .prop_map(|(by, list, delta, nft)| Op::AddClaims { by, list, delta, nft }),
        6 => (u(), sel, prop_oneof![14 => prop::collection::vec(0..NNFT, 1..4), 1 => prop::collection::vec(0..NNFT, 4..13)], prop::bool::weighted(0.8)).prop_map(|(by, sel, nfts, own)| Op::Unstake { by, sel, nfts, own }),
        5 => (u(), prop_oneof![4 => Just(None), 1 => u().prop_map(Some)], prop::bool::weighted(0.85)).prop_map(|(by, user, own)| Op::Claim { by, user, own }),
        1 => (ctrl(), u(), prop::option::weighted(0.9, dur())).prop_map(|(by_ctrl, by, dur)| Op::SetUnlock { by_ctrl, by, dur }),
        1 => hook,
        1 => flock,
        1 => (u(), prop_oneof![4 => 1u8..12, 1 => 30u8..60]).prop_map(|(by, n)| Op::Burst { by, n }),
        3 => adv,
        3 => (any::<u8>(), -1i8..2).prop_map(|(idx, off)| Op::ToRelease { idx, off }),
    ]
    .boxed()
}
fn case(kinds: Vec<(u32, Kind)>, len: usize) -> BoxedStrategy<Case> {
    prop::strategy::Union::new_weighted(kinds.into_iter().map(|(w, k)| (w, Just(k).boxed())).collect::<Vec<_>>())
        .prop_flat_map(move |kind| {
            (
                dur(),
                prop::option::weighted(0.8, prop::collection::vec((0..NU, 0u64..50), 0..4)),
                0u8..4,
                prop_oneof![9 => Just(0u8), 2 => 1u8..60],
                prop::collection::vec(op(kind), 1..len),
                // now and then: many NFTs of one user unstaked one by one, or all at once
                prop::option::weighted(0.05, (0..NU, 10u8..45)),
            )
                .prop_map(move |(unlock, init, hooks, mut wide, mut ops, many)| {
                    if let (Some((by, n)), Kind::Nft) = (many, kind) {
                        wide = wide.max(n);
                        let at = ops.len() / 2;
                        ops.insert(at, Op::Flock { by, n, w: 0, set: false });
                        ops.insert(at + 1, if n % 3 == 0 { Op::Unstake { by, sel: Sel::All, nfts: (0..n).collect(), own: true } } else { Op::Burst { by, n } });
                    }
                    Case { kind, unlock, init, hooks, wide, ops }
                })
        })
        .boxed()
}

macro_rules! check {
    ($name:ident, $kinds:expr, $len:expr, $cases:expr, $rule:expr, $nt:expr) => {
        pub struct $name;
        impl Check for $name {
            type Case = Case;
            fn strategy(&self) -> BoxedStrategy<Case> {
                case($kinds, $len)
            }
            fn run(&self, c: &Case, cov: &mut Cov) -> Res {
                let r = run_case(c, cov);
                let f: fn(&Cov) -> bool = $nt;
                cov.nontrivial = f(cov);
                r
            }
            fn cases(&self) -> (u64, u64) {
                $cases
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn assumptions(&self) -> Vec<&'static str> {
                vec![
                    "5 active users (up to 140 more that only hold weight), up to 71 NFTs, up to 17 listeners, histories up to the stated length",
                    "cw-multi-test and the cw20-base/cw721-base contracts stand for the chain and the assets",
                    "a real DAO main contract designates the governance account",
                ]
            }
        }
    };
}

check!(C08, vec![(2, Kind::Denom), (2, Kind::Token), (2, Kind::Nft)], 30, (8_000, 240_000),
    "at least 2 stakes and 1 unstake succeeded and a past total was queried",
    |c| c.count("stake") + c.count("stake-for-other") >= 2 && c.has("unstake") && c.has("history-time"));
check!(C09, vec![(1, Kind::Denom), (1, Kind::Token)], 36, (8_000, 240_000),
    "at least one claim was paid and another claim stayed outstanding or an early claim was attempted",
    |c| c.has("claim-paid") && (c.has("claim-partial") || c.has("claim-too-early")));
check!(C10, vec![(1, Kind::Nft)], 36, (8_000, 240_000),
    "at least one NFT claim was paid out and one unstake or wrong-asset attempt was refused",
    |c| c.has("claim-paid") && (c.has("unstake-too-much") || c.has("wrong-asset") || c.has("claim-too-early")));
check!(C11, vec![(6, Kind::Multisig), (1, Kind::Denom), (1, Kind::Token), (1, Kind::Nft)], 26, (8_000, 240_000),
    "at least one listener received a report",
    |c| c.has("listener-informed"));
