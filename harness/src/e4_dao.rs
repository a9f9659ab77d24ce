//! E4: a whole DAO, created by the real factory and driven through histories of user operations
//! and proposals, against a reference model. Decides C03-C07, C14, C17, C18, C27-C29.
use crate::dao::*;
use crate::e1_poll::{oracle_decided, oracle_status, ratio_ge, Decided};
use crate::e2_member::{Dur, Kind};
use crate::fw::*;
use crate::world::*;
use crate::{ensure_eq_p, ensure_p};
use common::cw::ReleaseAt;
use cosmwasm_std::{coin, to_json_binary, Addr, Coin, Empty, Timestamp};
use enterprise_governance_controller_api::api::{GovConfigResponse, ProposalResponse, ProposalStatus, ProposalVotesResponse, ProposalsResponse};
use enterprise_protocol::api::{DaoInfoResponse, DaoMetadata, DaoSocialData, IsRestrictedUserResponse, Logo};
use enterprise_versioning_api::api::{AddVersionMsg, Version};
use membership_common_api::api::{MembersResponse, TotalWeightResponse, UserWeightResponse};
use poll_engine_api::api::{PollRejectionReason, PollStatus};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const N: u8 = 5;
const FUNDS: u128 = 1 << 60;
const T_FUNDS: u128 = 50_000_000;
const DENOM: &str = "udao";
const MAXP: usize = 7;

fn usr(i: u8) -> String {
    user(i, N)
}

// ------------------------------------------------------------------ case
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Meta { mask: u8, val: u8 },
    Gov { q: Option<u16>, t: Option<u16>, v: Option<Option<u16>>, dur: Option<u32>, unlock: Option<Dur>, dep: Option<Option<u32>>, early: Option<bool> },
    Council(Option<CouncilSpec>),
    Assets { add: Vec<u8>, rem: Vec<u8> },
    Nfts { add: Vec<u8>, rem: Vec<u8> },
    Fund { to: u8, items: Vec<(u8, u32)>, over: bool },
    Upgrade { v: u8 },
    /// via: 0 controller, 1 treasury, 2 DAO main contract; entries: 0..=249 probe tag, 250..=252 failing call, 253.. unparsable
    Msgs { via: u8, what: Vec<u8> },
    TBank { to: u8, asset: u8, amt: u32 },
    TNft { id: u8, to: u8 },
    Members(Vec<(u8, u32)>),
    Dist { items: Vec<(u8, u32)> },
    MinW(u32),
    Deploy,
    SetAtt(u8),
    RemAtt,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Dep {
    /// 0 none, 1 the DAO's natural deposit path, 2 CW20 send, 3 NFT deposit, 4 wrong token / coin
    pub path: u8,
    /// amount relative to the minimum deposit (or absolute when there is none)
    pub delta: i8,
    pub extra: bool,
    pub dup: bool,
    /// NFT: 0 own tokens, 1 somebody else's, 2 somebody else's with approval, 3 approved to a third
    /// user only, 4 approved to a third user and to the proposer, 5 only the first one approved,
    /// 6 with an approval that has expired
    pub foreign: u8,
    pub owner: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Adv(u32),
    ToEnd { p: u8, off: i8 },
    ToCool { p: u8, off: i8 },
    Stake { by: u8, for_: Option<u8>, amt: u32, k: u8 },
    Unstake { by: u8, amt: u32, all: bool },
    ClaimStake { by: u8 },
    Propose { by: u8, acts: Vec<Act>, dep: Dep },
    CPropose { by: u8, acts: Vec<Act> },
    Vote { by: u8, p: u8, o: u8 },
    CVote { by: u8, p: u8, o: u8 },
    VoteMany { p: u8, o: u8, mask: u8, council: bool },
    Exec { by: u8, p: u8 },
    Claim { by: u8, other: Option<u8> },
    Dist { by: u8, items: Vec<(u8, u32)> },
    Sign { by: u8 },
    SignAll,
    Fund { asset: u8, amt: u32 },
    Attack { by: u8, what: u8, p: u8 },
    /// propose, let every member vote yes, go to the end, execute
    Pass { acts: Vec<Act>, council: bool, outcome: u8, dep: Dep },
    /// n proposals in a row, voted on by the same users
    Flood { by: u8, n: u8, o: u8, mask: u8, council: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: Kind,
    pub fresh_asset: bool,
    pub gov: GovSpec,
    pub unlock: Dur,
    pub council: Option<CouncilSpec>,
    pub attest: bool,
    pub pre_sign: u8,
    pub min_w: Option<u32>,
    pub wl: u8,
    pub init: Vec<u32>,
    pub ops: Vec<Op>,
}

// ------------------------------------------------------------------ model
#[derive(Clone, Debug)]
enum DepAsset {
    Fungible(String, u128),
    Nfts(Vec<String>),
}
#[derive(Clone, Debug)]
struct P {
    council: bool,
    proposer: String,
    title: String,
    acts: Vec<Act>,
    actions: Value,
    start: u64,
    end: u64,
    q: u128,
    t: u128,
    v: Option<u128>,
    votes: BTreeMap<String, (u8, u128)>,
    executed: Option<u64>,
    /// available votes accepted for an executed proposal
    final_totals: Vec<u128>,
    final_outcome: Option<PollStatus>,
    dep: Option<(String, DepAsset)>,
    lo: u64,
    hi: u64,
    /// end of the last wait, were it not for the end of voting
    cool: u64,
}
impl P {
    fn tally(&self) -> [u128; 4] {
        let mut r = [0u128; 4];
        for (o, a) in self.votes.values() {
            r[*o as usize] += a;
        }
        r
    }
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Standing {
    Open,
    Yes,
    No,
    Veto,
    Draw(u128),
}

#[derive(Clone, Debug)]
struct Claim {
    user: String,
    amount: u128,
    ids: BTreeSet<String>,
    rel: ReleaseAt,
}

#[derive(Clone, Debug)]
struct S {
    kind: Kind,
    now: u64,
    height: u64,
    gov: GovSpec,
    council: Option<(u16, u16, Vec<u8>)>,
    cmem: BTreeSet<String>,
    ctot: Vec<(u64, u128)>,
    w: BTreeMap<String, u128>,
    tot: Vec<(u64, u128)>,
    unlock: Dur,
    meta: DaoMetadata,
    wl_a: BTreeSet<u8>,
    wl_n: BTreeSet<u8>,
    min_w: u128,
    version: (u64, u64, u64),
    att: Option<u32>,
    att_gen: u32,
    signed: BTreeSet<(u32, String)>,
    bal: BTreeMap<(String, String), u128>,
    nft: BTreeMap<String, String>,
    art: BTreeMap<String, String>,
    staked: BTreeMap<String, String>,
    claims: Vec<Claim>,
    probe: Vec<(String, u32)>,
    props: Vec<P>,
    /// (user, asset) -> (lowest, highest) pending rewards
    rew: BTreeMap<(String, String), (u128, u128)>,
    slack: u128,
}

/// addresses the model needs
#[derive(Clone, Debug)]
struct A {
    treasury: String,
    controller: String,
    enterprise: String,
    distributor: String,
    membership: String,
    dao_asset: String,
    t1: String,
    t2: String,
    probe: String,
    art: String,
}

impl S {
    fn weight(&self, u: &str) -> u128 {
        self.w.get(u).copied().unwrap_or(0)
    }
    fn total(&self) -> u128 {
        self.w.values().sum()
    }
    fn total_of(&self, council: bool) -> u128 {
        if council { self.cmem.len() as u128 } else { self.total() }
    }
    fn total_at(&self, council: bool, t: u64) -> u128 {
        let h = if council { &self.ctot } else { &self.tot };
        h.iter().rev().find(|(s, _)| *s < t).map(|x| x.1).unwrap_or(0)
    }
    fn mark(&mut self) {
        let (n, t, c) = (self.now, self.total(), self.cmem.len() as u128);
        self.tot.push((n, t));
        self.ctot.push((n, c));
    }
    fn restricted(&self, u: &str) -> bool {
        self.att.map(|g| !self.signed.contains(&(g, u.to_string()))).unwrap_or(false)
    }
    fn b(&self, h: &str, a: &str) -> u128 {
        self.bal.get(&(h.to_string(), a.to_string())).copied().unwrap_or(0)
    }
    fn mv(&mut self, from: &str, to: &str, asset: &str, amt: u128) -> Result<(), String> {
        let f = self.b(from, asset);
        if f < amt {
            return Err(format!("{from} has only {f} {asset}"));
        }
        self.bal.insert((from.into(), asset.into()), f - amt);
        let t = self.b(to, asset);
        self.bal.insert((to.into(), asset.into()), t + amt);
        Ok(())
    }
    fn set_weight(&mut self, u: &str, x: u128) {
        self.w.insert(u.to_string(), x);
        let now = self.now;
        for p in self.props.iter_mut() {
            if !p.council && p.executed.is_none() && p.end > now {
                if let Some(v) = p.votes.get_mut(u) {
                    v.1 = x;
                }
            }
        }
        self.slack += 1;
        self.mark();
    }
    fn eligible(&self, u: &str) -> u128 {
        let w = self.weight(u);
        if w >= self.min_w { w } else { 0 }
    }
    fn distribute(&mut self, asset: &str, amt: u128) -> Result<(), String> {
        let users: Vec<String> = self.w.keys().cloned().collect();
        let tot: u128 = users.iter().map(|u| self.eligible(u)).sum();
        if tot == 0 {
            return Err("no eligible weight".into());
        }
        for u in users {
            let e = self.eligible(&u);
            let x = amt * e;
            let r = self.rew.entry((u.clone(), asset.to_string())).or_insert((0, 0));
            r.0 += x / tot;
            r.1 += (x + tot - 1) / tot;
        }
        self.slack += 1;
        Ok(())
    }
    fn standing(&self, p: &P, total: u128) -> Standing {
        let r = p.tally();
        let cast: u128 = r.iter().sum();
        if !ratio_ge(cast, total, p.q) {
            return Standing::Open;
        }
        match oracle_decided(&r, p.t, p.v) {
            Decided::None => Standing::Open,
            Decided::Yes => Standing::Yes,
            Decided::No => Standing::No,
            Decided::Veto => Standing::Veto,
            Decided::Draw => Standing::Draw(r[0]),
        }
    }
    fn early_allowed(&self, p: &P) -> bool {
        p.council || self.gov.early
    }
    fn gov_apply(g: &GovSpec, a: &Act) -> GovSpec {
        let mut g = g.clone();
        if let Act::Gov { q, t, v, dur, dep, early, .. } = a {
            if let Some(x) = q {
                g.q = *x;
            }
            if let Some(x) = t {
                g.t = *x;
            }
            if let Some(x) = v {
                g.v = *x;
            }
            if let Some(x) = dur {
                g.dur = *x;
            }
            if let Some(x) = dep {
                g.dep = *x;
            }
            if let Some(x) = early {
                g.early = *x;
            }
        }
        g
    }
    /// reasons for which these actions must be refused when proposed
    fn validate(&self, acts: &[Act]) -> Option<(Vec<PropId>, String)> {
        let bad = |p: &[PropId], m: &str| Some((p.to_vec(), m.to_string()));
        if acts.len() > 10 {
            return bad(&["C27"], "more than ten actions");
        }
        for a in acts {
            match a {
                Act::Gov { .. } => {
                    if !S::gov_apply(&self.gov, a).valid(self.kind) {
                        return bad(&["C27", "C18"], "invalid governance settings");
                    }
                }
                Act::Council(Some(c)) => {
                    if !c.valid(N) {
                        return bad(&["C27", "C06"], "invalid council");
                    }
                }
                Act::Assets { add, rem } | Act::Nfts { add, rem } => {
                    let s = |v: &Vec<u8>| v.iter().map(|x| wl_key(*x)).collect::<BTreeSet<u8>>();
                    let (sa, sr) = (s(add), s(rem));
                    if sa.len() != add.len() || sr.len() != rem.len() || sa.intersection(&sr).next().is_some() {
                        return bad(&["C27", "C16"], "duplicate or contradictory whitelist entries");
                    }
                }
                Act::Fund { items, .. } | Act::Dist { items } => {
                    if items.iter().any(|(a, _)| *a == 9) {
                        return bad(&["C27"], "multi-token asset");
                    }
                }
                Act::Upgrade { v } => {
                    if VERSIONS[*v as usize % 4] <= self.version {
                        return bad(&["C27", "C20"], "upgrade target not above the current version");
                    }
                }
                Act::Msgs { what, .. } => {
                    if what.iter().any(|x| *x >= 253) {
                        return bad(&["C27"], "unparsable custom message");
                    }
                }
                Act::Members(l) => {
                    if self.kind != Kind::Multisig {
                        return bad(&["C27"], "membership edit outside a multisig DAO");
                    }
                    if l.iter().map(|x| x.0 % N).collect::<BTreeSet<_>>().len() != l.len() {
                        return bad(&["C27", "C11"], "duplicate member in a membership edit");
                    }
                }
                _ => {}
            }
        }
        None
    }
    /// apply a passed proposal's actions; Err = some action fails
    fn apply(&mut self, acts: &[Act], a: &A) -> Result<(), String> {
        // settings are validated and stored in order first
        for act in acts {
            match act {
                Act::Gov { unlock, .. } => {
                    let g = S::gov_apply(&self.gov, act);
                    if !g.valid(self.kind) {
                        return Err("invalid governance settings".into());
                    }
                    if let Some(Dur::Secs(s)) = unlock {
                        if *s < g.dur as u64 {
                            return Err("unlocking period shorter than the voting period".into());
                        }
                    }
                    self.gov = g;
                }
                Act::Council(c) => {
                    self.council = c.as_ref().map(|c| (c.q, c.t, c.allowed.as_ref().map(|v| v.iter().map(|x| x % 14).collect()).unwrap_or(vec![6])));
                }
                Act::Upgrade { v } => {
                    if VERSIONS[*v as usize % 4] <= self.version {
                        return Err("lower version".into());
                    }
                }
                _ => {}
            }
        }
        for act in acts {
            match act {
                Act::Meta { mask, val } => apply_meta(&mut self.meta, *mask, *val),
                Act::Gov { unlock, .. } => {
                    if let (Some(d), true) = (unlock, self.kind != Kind::Multisig) {
                        self.unlock = *d;
                    }
                }
                Act::Council(c) => {
                    self.cmem = c.as_ref().map(|c| c.members.iter().map(|m| usr(*m)).collect()).unwrap_or_default();
                    self.mark();
                }
                Act::Assets { add, rem } => {
                    if add.iter().any(|x| *x >= 8) {
                        return Err("a multi-token asset cannot be whitelisted".into());
                    }
                    self.wl_a.extend(add.iter().map(|x| x % 4));
                    for r in rem.iter().filter(|x| **x < 8) {
                        self.wl_a.remove(&(r % 4));
                    }
                }
                Act::Nfts { add, rem } => {
                    self.wl_n.extend(add.iter().map(|x| x % 4));
                    for r in rem {
                        self.wl_n.remove(&(r % 4));
                    }
                }
                Act::Fund { to, items, .. } => {
                    for (x, amt) in fund_items(act, items, a) {
                        self.mv(&a.treasury, &recipient(*to), &x, amt)?;
                    }
                }
                Act::Upgrade { v } => {
                    let v = VERSIONS[*v as usize % 4];
                    if v <= self.version {
                        return Err("lower version".into());
                    }
                    self.version = v;
                }
                Act::Msgs { via, what } => {
                    let s = via_sender(*via, a);
                    for x in what {
                        if *x >= 250 {
                            return Err("failing custom message".into());
                        }
                        self.probe.push((s.clone(), *x as u32));
                    }
                }
                Act::TBank { to, asset, amt } => {
                    let d = ["uone", "utwo"][*asset as usize % 2];
                    self.mv(&a.treasury, &recipient(*to), d, *amt as u128)?;
                }
                Act::TNft { id, to } => {
                    let id = format!("art{}", id % 3);
                    if self.art[&id] != a.treasury {
                        return Err("treasury does not own it".into());
                    }
                    self.art.insert(id, recipient(*to));
                }
                Act::Members(l) => {
                    for (u, x) in l {
                        self.set_weight(&usr(*u), *x as u128);
                    }
                }
                Act::Dist { items } => {
                    let items: Vec<(String, u128)> = dist_items(items, a);
                    let native = |x: &String| x == "uone" || x == "utwo" || x == DENOM;
                    for pass in [false, true] {
                        for (x, amt) in items.iter().filter(|i| native(&i.0) == pass) {
                            if !self.whitelisted(x, a) {
                                return Err(format!("{x} is not whitelisted"));
                            }
                            self.mv(&a.treasury, &a.distributor, x, *amt)?;
                            self.distribute(x, *amt)?;
                        }
                    }
                }
                Act::MinW(x) => {
                    self.min_w = *x as u128;
                    self.slack += 1;
                }
                Act::Deploy => return Err("no cross-chain transport here".into()),
                Act::SetAtt(_) => {
                    self.att_gen += 1;
                    self.att = Some(self.att_gen);
                }
                Act::RemAtt => self.att = None,
            }
        }
        Ok(())
    }
    fn whitelisted(&self, x: &str, a: &A) -> bool {
        x == "uone" || self.wl_a.iter().any(|i| wl_asset(*i, a) == x)
    }
}

const VERSIONS: [(u64, u64, u64); 4] = [(1, 0, 0), (1, 2, 1), (1, 3, 0), (2, 0, 0)];

/// entries from 8 on are multi-token assets
fn wl_key(x: u8) -> u8 {
    if x >= 8 { x } else { x % 4 }
}
/// 0 utwo, 1 T1, 2 unrelated native, 3 the DAO's own fungible asset or T2
fn wl_asset(i: u8, a: &A) -> String {
    match i % 4 {
        0 => "utwo".into(),
        1 => a.t1.clone(),
        2 => "uxyz".into(),
        _ => a.t2.clone(),
    }
}
fn is_native(x: &str) -> bool {
    x == "uone" || x == "utwo" || x == DENOM || x == "uxyz"
}
fn info_json(x: &str) -> Value {
    if is_native(x) { json!({ "native": x }) } else { json!({ "cw20": x }) }
}
fn pay_asset(i: u8, a: &A) -> String {
    match i % 4 {
        0 => "uone".into(),
        1 => "utwo".into(),
        2 => a.t1.clone(),
        _ => a.dao_asset.clone(),
    }
}
fn recipient(to: u8) -> String {
    if to % 6 == 5 { "outsider".into() } else { usr(to) }
}
fn fund_items(act: &Act, items: &[(u8, u32)], a: &A) -> Vec<(String, u128)> {
    let over = matches!(act, Act::Fund { over: true, .. });
    let n = items.len();
    items.iter().enumerate().map(|(i, (x, amt))| (pay_asset(*x, a), *amt as u128 + if over && i + 1 == n { T_FUNDS * 20 } else { 0 })).collect()
}
fn dist_items(items: &[(u8, u32)], a: &A) -> Vec<(String, u128)> {
    items.iter().map(|(x, amt)| (pay_asset(*x, a), *amt as u128)).collect()
}
fn via_sender(via: u8, a: &A) -> String {
    match via % 3 {
        0 => a.controller.clone(),
        1 => a.treasury.clone(),
        _ => a.enterprise.clone(),
    }
}
fn meta_val(i: u8, val: u8) -> Option<String> {
    let x = val.wrapping_add(i.wrapping_mul(37));
    if x % 3 == 0 { None } else { Some(format!("v{x}-{i}")) }
}
fn apply_meta(m: &mut DaoMetadata, mask: u8, val: u8) {
    if mask & 1 != 0 {
        m.name = format!("name{val}");
    }
    if mask & 2 != 0 {
        m.description = meta_val(1, val);
    }
    if mask & 4 != 0 {
        m.logo = meta_val(2, val).map(Logo::Url).unwrap_or(Logo::None);
    }
    let s = &mut m.socials;
    for (i, f) in [&mut s.github_username, &mut s.discord_username, &mut s.twitter_username, &mut s.telegram_username].into_iter().enumerate() {
        if mask & (8 << i) != 0 {
            *f = meta_val(3 + i as u8, val);
        }
    }
}
fn ch<T: Serialize>(c: bool, v: T) -> Value {
    if c { json!({ "change": v }) } else { json!("no_change") }
}
fn wasm_msg(c: &str, m: &Value) -> String {
    json!({"wasm": {"execute": {"contract_addr": c, "msg": to_json_binary(m).unwrap(), "funds": []}}}).to_string()
}

fn act_json(act: &Act, a: &A) -> Value {
    match act {
        Act::Meta { mask, val } => {
            let f = |i: u8| ch(mask & (8 << (i - 3)) != 0, meta_val(i, *val));
            json!({"update_metadata": {
                "name": ch(mask & 1 != 0, format!("name{val}")),
                "description": ch(mask & 2 != 0, meta_val(1, *val)),
                "logo": ch(mask & 4 != 0, meta_val(2, *val).map(|u| json!({"url": u})).unwrap_or(json!("none"))),
                "github_username": f(3), "discord_username": f(4), "twitter_username": f(5), "telegram_username": f(6)}})
        }
        Act::Gov { q, t, v, dur, unlock, dep, early } => json!({"update_gov_config": {
            "quorum": ch(q.is_some(), dec_s(pm(q.unwrap_or(0)))),
            "threshold": ch(t.is_some(), dec_s(pm(t.unwrap_or(0)))),
            "veto_threshold": ch(v.is_some(), v.flatten().map(|x| dec_s(pm(x)))),
            "voting_duration": ch(dur.is_some(), dur.unwrap_or(0).to_string()),
            "unlocking_period": ch(unlock.is_some(), unlock.map(|u| dur_json(&u))),
            "minimum_deposit": ch(dep.is_some(), dep.flatten().map(|x| x.to_string())),
            "allow_early_proposal_execution": ch(early.is_some(), early.unwrap_or(false))}}),
        Act::Council(c) => json!({"update_council": {"dao_council": c.as_ref().map(|c| c.json(N))}}),
        Act::Assets { add, rem } => {
            let f = |v: &Vec<u8>| {
                v.iter().map(|x| if *x >= 8 { json!({"cw1155": [a.t1, x.to_string()]}) } else { info_json(&wl_asset(*x, a)) }).collect::<Vec<_>>()
            };
            json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": f(add), "remove": f(rem)}})
        }
        Act::Nfts { add, rem } => {
            let f = |v: &Vec<u8>| v.iter().map(|x| format!("nftcoll{}", x % 4)).collect::<Vec<_>>();
            json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": f(add), "remove": f(rem)}})
        }
        Act::Fund { to, items, .. } => {
            let mut v: Vec<Value> = fund_items(act, items, a).into_iter().map(|(x, n)| json!({"info": info_json(&x), "amount": n.to_string()})).collect();
            for (i, (x, _)) in items.iter().enumerate() {
                if *x == 9 {
                    v[i] = json!({"info": {"cw1155": [a.t1, "7"]}, "amount": "1"});
                }
            }
            json!({"request_funding_from_dao": {"remote_treasury_target": null, "recipient": recipient(*to), "assets": v}})
        }
        Act::Upgrade { v } => {
            let (x, y, z) = VERSIONS[*v as usize % 4];
            json!({"upgrade_dao": {"new_version": {"major": x, "minor": y, "patch": z}, "migrate_msgs": []}})
        }
        Act::Msgs { via, what } => {
            let msgs: Vec<String> = what
                .iter()
                .map(|x| match x {
                    0..=249 => wasm_msg(&a.probe, &json!({"tag": {"tag": x}})),
                    250..=252 => wasm_msg(&a.probe, &json!({"fail": {}})),
                    253 => "not json at all".to_string(),
                    _ => json!({"no_such_kind": {}}).to_string(),
                })
                .collect();
            match via % 3 {
                0 => json!({"execute_msgs": {"action_type": "x", "msgs": msgs}}),
                1 => json!({"execute_treasury_msgs": {"action_type": "x", "msgs": msgs, "remote_treasury_target": null}}),
                _ => json!({"execute_enterprise_msgs": {"action_type": "x", "msgs": msgs}}),
            }
        }
        Act::TBank { to, asset, amt } => {
            let d = ["uone", "utwo"][*asset as usize % 2];
            let m = json!({"bank": {"send": {"to_address": recipient(*to), "amount": [{"denom": d, "amount": amt.to_string()}]}}}).to_string();
            json!({"execute_treasury_msgs": {"action_type": "x", "msgs": [m], "remote_treasury_target": null}})
        }
        Act::TNft { id, to } => {
            let m = wasm_msg(&a.art, &json!({"transfer_nft": {"recipient": recipient(*to), "token_id": format!("art{}", id % 3)}}));
            json!({"execute_treasury_msgs": {"action_type": "x", "msgs": [m], "remote_treasury_target": null}})
        }
        Act::Members(l) => json!({"modify_multisig_membership": {"edit_members": l.iter().map(|(u, x)| json!({"user": usr(*u), "weight": x.to_string()})).collect::<Vec<_>>()}}),
        Act::Dist { items } => {
            let mut v: Vec<Value> = dist_items(items, a).into_iter().map(|(x, n)| json!({"info": info_json(&x), "amount": n.to_string()})).collect();
            if items.iter().any(|(x, _)| *x == 9) {
                v.push(json!({"info": {"cw1155": [a.t1, "7"]}, "amount": "1"}));
            }
            json!({"distribute_funds": {"funds": v}})
        }
        Act::MinW(x) => json!({"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": x.to_string()}}),
        Act::Deploy => json!({"deploy_cross_chain_treasury": {
            "enterprise_treasury_code_id": 1, "ics_proxy_code_id": 2, "chain_global_proxy": "juno1globalproxy",
            "cross_chain_msg_spec": {"src_ibc_channel": "channel-1", "src_ibc_port": "transfer", "dest_ibc_channel": "channel-2", "dest_ibc_port": "transfer", "uluna_denom": "ibc/x", "timeout_nanos": null, "chain_bech32_prefix": "juno", "chain_id": "chain-9"},
            "asset_whitelist": null, "nft_whitelist": null}}),
        Act::SetAtt(t) => json!({"execute_msgs": {"action_type": "x", "msgs": [wasm_msg(&a.enterprise, &json!({"set_attestation": {"attestation_text": format!("text {t}")}}))]}}),
        Act::RemAtt => json!({"execute_msgs": {"action_type": "x", "msgs": [wasm_msg(&a.enterprise, &json!({"remove_attestation": {}}))]}}),
    }
}
fn act_type(a: &Act) -> u8 {
    match a {
        Act::Meta { .. } => 0,
        Act::Gov { .. } => 1,
        Act::Council(_) => 2,
        Act::Assets { .. } => 3,
        Act::Nfts { .. } => 4,
        Act::Fund { .. } => 5,
        Act::Upgrade { .. } => 6,
        Act::Msgs { via, .. } => 7 + via % 3,
        Act::TBank { .. } | Act::TNft { .. } => 8,
        Act::Members(_) => 10,
        Act::Dist { .. } => 11,
        Act::MinW(_) => 12,
        Act::Deploy => 13,
        Act::SetAtt(_) | Act::RemAtt => 7,
    }
}
fn act_tags(acts: &[Act]) -> Vec<PropId> {
    let mut v: Vec<PropId> = vec![];
    for a in acts {
        v.extend_from_slice(match a {
            Act::Meta { .. } => &["C29"],
            Act::Gov { .. } => &["C18"],
            Act::Council(_) => &["C29", "C06"],
            Act::Assets { .. } | Act::Nfts { .. } => &["C16"],
            Act::Fund { .. } | Act::TBank { .. } | Act::TNft { .. } => &["C28"],
            Act::Upgrade { .. } => &["C20"],
            Act::Members(_) => &["C29", "C07"],
            Act::Dist { .. } => &["C14", "C28"],
            Act::MinW(_) => &["C29", "C13"],
            Act::SetAtt(_) | Act::RemAtt => &["C17"],
            _ => &[],
        });
    }
    v
}

// ------------------------------------------------------------------ machine
struct M {
    w: World,
    d: Dao,
    a: A,
    s: S,
    token: Option<Addr>,
    nft: Option<Addr>,
    t1: Addr,
    creation: u64,
    mod_att: bool,
    /// proposals made at most
    cap: usize,
}

fn own(v: &[PropId], extra: &[PropId]) -> Vec<PropId> {
    let mut x = v.to_vec();
    x.extend_from_slice(extra);
    x.sort();
    x.dedup();
    x
}

fn meta0() -> DaoMetadata {
    DaoMetadata {
        name: "dao".into(),
        description: Some("first".into()),
        logo: Logo::Url("logo".into()),
        socials: DaoSocialData { github_username: Some("gh".into()), discord_username: None, twitter_username: Some("tw".into()), telegram_username: None },
    }
}

impl M {
    fn build(c: &Case, cov: &mut Cov) -> Res<M> {
        let mut w = World::with_global_whitelist(vec![cw_asset::AssetInfoUnchecked::native("uone")]);
        w.app.update_block(|b| b.time = Timestamp::from_seconds(1_700_000_000));
        let users: Vec<String> = (0..N).map(usr).collect();
        let bals: Vec<(&str, u128)> = users.iter().map(|u| (u.as_str(), FUNDS)).collect();
        let t1 = w.new_cw20("TONE", &bals);
        let t2 = w.new_cw20("TTWO", &bals);
        let mut gov = c.gov.clone();
        if c.kind == Kind::Multisig {
            gov.dep = None;
        }
        let unlock = match c.unlock {
            Dur::Secs(s) => Dur::Secs(s.max(gov.dur as u64)),
            b => b,
        };
        let ul = dur_json(&unlock);
        let init: Vec<(String, u128)> = (0..N).map(|i| (usr(i), c.init.get(i as usize).copied().unwrap_or(0) as u128)).collect();
        let (mut token, mut nft) = (None, None);
        let membership = match c.kind {
            Kind::Denom => json!({"new_denom": {"denom": DENOM, "unlocking_period": ul}}),
            Kind::Token if c.fresh_asset => json!({"new_cw20": {"token_name": "Dao Token", "token_symbol": "DAOT", "token_decimals": 6,
                "initial_token_balances": users.iter().map(|u| json!({"address": u, "amount": FUNDS.to_string()})).collect::<Vec<_>>(),
                "initial_dao_balance": "1000", "token_mint": null, "token_marketing": null, "unlocking_period": ul}}),
            Kind::Token => {
                let t = w.new_cw20("DAOX", &bals);
                token = Some(t.clone());
                json!({"import_cw20": {"cw20_contract": t, "unlocking_period": ul}})
            }
            Kind::Nft if c.fresh_asset => json!({"new_cw721": {"nft_name": "Dao", "nft_symbol": "DAO", "minter": ECO_ADMIN, "unlocking_period": ul}}),
            Kind::Nft => {
                let t = w.new_cw721(ECO_ADMIN);
                nft = Some(t.clone());
                json!({"import_cw721": {"cw721_contract": t, "unlocking_period": ul}})
            }
            Kind::Multisig => {
                let mut ms: Vec<Value> = init.iter().filter(|x| x.1 > 0).map(|(u, x)| json!({"user": u, "weight": x.to_string()})).collect();
                if ms.is_empty() {
                    ms.push(json!({"user": usr(0), "weight": "1"}));
                }
                json!({"new_multisig": {"multisig_members": ms}})
            }
        };
        let council = c.council.clone().filter(|x| x.valid(N));
        let wl_a: BTreeSet<u8> = (0..4).filter(|i| c.wl & (1 << i) != 0).collect();
        let pre = A {
            treasury: String::new(),
            controller: String::new(),
            enterprise: String::new(),
            distributor: String::new(),
            membership: String::new(),
            dao_asset: String::new(),
            t1: t1.to_string(),
            t2: t2.to_string(),
            probe: String::new(),
            art: String::new(),
        };
        let msg = json!({
            "dao_metadata": meta0(), "gov_config": gov.json(), "dao_council": council.as_ref().map(|x| x.json(N)),
            "dao_membership": membership,
            "asset_whitelist": wl_a.iter().map(|i| info_json(&wl_asset(*i, &pre))).collect::<Vec<_>>(),
            "nft_whitelist": ["nftcoll0"], "minimum_weight_for_rewards": c.min_w.map(|x| x.to_string()),
            "cross_chain_treasuries": null, "attestation_text": if c.attest { Some("please sign") } else { None },
        });
        if let Err(e) = create_dao(&mut w, &msg, Some(current_version())) {
            return div(&["C21"], format!("a valid DAO creation request failed: {e}"));
        }
        for v in [Version::new(1, 3, 0), Version::new(2, 0, 0)] {
            let info = version_info(v, &w.codes);
            w.exec(ECO_ADMIN, &w.versioning.clone(), &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: info }), &[]).unwrap();
        }
        let d = match last_dao(&w) {
            Ok(d) => d,
            Err(e) => return div(&["C21"], format!("the created DAO cannot be inspected: {e}")),
        };
        let probe_code = w.app.store_code(probe());
        let probe_addr = w.inst(probe_code, ECO_ADMIN, &Empty {}, None).unwrap();
        let mem = d.c.membership_contract.clone();
        let mut dao_asset = DENOM.to_string();
        if c.kind == Kind::Token {
            let r: token_staking_api::api::TokenConfigResponse = match w.query(&mem, &json!({"token_config": {}})) {
                Ok(r) => r,
                Err(e) => return div(&["C21"], format!("token config: {e}")),
            };
            token = Some(r.token_contract);
            dao_asset = token.clone().unwrap().to_string();
        }
        if c.kind == Kind::Nft {
            let r: nft_staking_api::api::NftConfigResponse = match w.query(&mem, &json!({"nft_config": {}})) {
                Ok(r) => r,
                Err(e) => return div(&["C21"], format!("NFT config: {e}")),
            };
            nft = Some(r.nft_contract);
        }
        let art = w.new_cw721(ECO_ADMIN);
        let a = A {
            treasury: d.treasury.to_string(),
            controller: d.c.enterprise_governance_controller_contract.to_string(),
            enterprise: d.enterprise.to_string(),
            distributor: d.c.funds_distributor_contract.to_string(),
            membership: mem.to_string(),
            dao_asset: dao_asset.clone(),
            probe: probe_addr.to_string(),
            art: art.to_string(),
            ..pre
        };
        let now = w.now().seconds();
        let mut s = S {
            kind: c.kind,
            now,
            height: w.height(),
            gov,
            council: council.as_ref().map(|c| (c.q, c.t, c.allowed.as_ref().map(|v| v.iter().map(|x| x % 14).collect()).unwrap_or(vec![6]))),
            cmem: council.as_ref().map(|c| c.members.iter().map(|m| usr(*m)).collect()).unwrap_or_default(),
            ctot: vec![],
            w: users.iter().map(|u| (u.clone(), 0)).collect(),
            tot: vec![],
            unlock,
            meta: meta0(),
            wl_a,
            wl_n: [0].into(),
            min_w: c.min_w.unwrap_or(0) as u128,
            version: (1, 2, 1),
            att: if c.attest { Some(0) } else { None },
            att_gen: 0,
            signed: BTreeSet::new(),
            bal: BTreeMap::new(),
            nft: BTreeMap::new(),
            art: BTreeMap::new(),
            staked: BTreeMap::new(),
            claims: vec![],
            probe: vec![],
            props: vec![],
            rew: BTreeMap::new(),
            slack: 0,
        };
        if c.kind == Kind::Multisig {
            for (u, x) in &init {
                s.w.insert(u.clone(), *x);
            }
            if s.total() == 0 {
                s.w.insert(usr(0), 1);
            }
        }
        s.mark();
        // funding
        for u in &users {
            for dn in ["uone", "utwo", DENOM] {
                w.mint(u, FUNDS, dn);
                s.bal.insert((u.clone(), dn.into()), FUNDS);
            }
            s.bal.insert((u.clone(), a.t1.clone()), FUNDS);
            s.bal.insert((u.clone(), a.t2.clone()), FUNDS);
            if c.kind == Kind::Token {
                s.bal.insert((u.clone(), dao_asset.clone()), FUNDS);
            }
        }
        if c.kind == Kind::Token && c.fresh_asset {
            s.bal.insert((a.treasury.clone(), dao_asset.clone()), 1000);
        }
        for dn in ["uone", "utwo", DENOM] {
            w.mint(&a.treasury, T_FUNDS, dn);
            let x = s.b(&a.treasury, dn);
            s.bal.insert((a.treasury.clone(), dn.into()), x + T_FUNDS);
        }
        for t in [Some(t1.clone()), token.clone()].into_iter().flatten() {
            w.exec(&usr(0), &t, &json!({"transfer": {"recipient": a.treasury, "amount": T_FUNDS.to_string()}}), &[]).unwrap();
            s.mv(&usr(0), &a.treasury, t.as_str(), T_FUNDS).unwrap();
        }
        for i in 0..3 {
            let id = format!("art{i}");
            w.mint_nft(&art, ECO_ADMIN, &id, &a.treasury);
            s.art.insert(id, a.treasury.clone());
        }
        if let Some(n) = &nft {
            for u in 0..N {
                for k in 0..4 {
                    let id = format!("n{u}{k}");
                    w.mint_nft(n, ECO_ADMIN, &id, &usr(u));
                    s.nft.insert(id, usr(u));
                }
                w.exec(&usr(u), n, &json!({"approve_all": {"operator": a.controller, "expires": null}}), &[]).unwrap();
            }
        }
        let mod_att = c.attest || c.ops.iter().any(|o| matches!(o, Op::Pass { acts, .. } | Op::Propose { acts, .. } if acts.iter().any(|x| matches!(x, Act::SetAtt(_) | Act::RemAtt))));
        let mut m = M { w, d, a, s, token, nft, t1, creation: now, mod_att, cap: MAXP };
        cov.hit(format!("kind-{:?}", c.kind));
        m.observe("creation", &[])?;
        for i in 0..N {
            if c.pre_sign & (1 << i) != 0 {
                m.step(&Op::Sign { by: i }, cov)?;
            }
        }
        m.adv(1);
        if c.kind != Kind::Multisig {
            for i in 0..N {
                let x = c.init.get(i as usize).copied().unwrap_or(0);
                if x > 0 {
                    m.step(&Op::Stake { by: i, for_: None, amt: x, k: x as u8 % 3 + 1 }, cov)?;
                }
            }
            m.adv(1);
        }
        Ok(m)
    }

    fn adv(&mut self, secs: u64) {
        self.w.advance(secs * 1_000_000_000, secs / 6 + 1);
        self.s.now = self.w.now().seconds();
        self.s.height = self.w.height();
    }
    fn to(&mut self, t: u64) {
        if t > self.s.now {
            self.adv(t - self.s.now);
        }
    }

    fn expect(&self, r: Result<cw_multi_test::AppResponse, String>, ok: bool, tags: &[PropId], what: &str) -> Res<bool> {
        match (r, ok) {
            (Ok(_), true) => Ok(true),
            (Err(_), false) => Ok(false),
            (Ok(_), false) => div(tags, format!("accepted but must be refused: {what}")),
            (Err(e), true) => div(tags, format!("refused but must work: {what}: {e}")),
        }
    }
    fn att_tags(&self, t: &[PropId]) -> Vec<PropId> {
        if self.mod_att { own(t, &["C17"]) } else { t.to_vec() }
    }

    // ------------------------------------------------------------ observation
    fn q<T: serde::de::DeserializeOwned>(&self, c: &Addr, m: &Value, tags: &[PropId], at: &str) -> Res<T> {
        match self.w.query(c, m) {
            Ok(v) => Ok(v),
            Err(e) => div(tags, format!("after {at}: query {m} failed: {e}")),
        }
    }
    /// expected reported status; None = not asserted
    fn status(&self, p: &P) -> Option<ProposalStatus> {
        let s = &self.s;
        if p.executed.is_some() {
            return Some(ProposalStatus::Executed);
        }
        if s.now >= p.end {
            let tot = s.total_at(p.council, p.end);
            return Some(match oracle_status(&p.tally(), tot, p.q, p.t, p.v) {
                PollStatus::Passed { .. } => ProposalStatus::Passed,
                _ => ProposalStatus::Rejected,
            });
        }
        let tot = s.total_of(p.council);
        let st = if tot == 0 { Standing::Open } else { s.standing(p, tot) };
        let can = match st {
            Standing::Draw(_) => None,
            Standing::Open => Some(false),
            _ => Some(s.early_allowed(p)),
        };
        let can = match can {
            Some(true) if s.now < p.lo => Some(false),
            Some(true) if s.now < p.hi => None,
            x => x,
        };
        can.map(|c| if c { ProposalStatus::InProgressCanExecuteEarly } else { ProposalStatus::InProgress })
    }

    fn observe(&self, at: &str, ctx: &[PropId]) -> Res {
        let s = &self.s;
        let g = self.d.c.enterprise_governance_controller_contract.clone();
        let tg = |t: &[PropId]| own(t, ctx);
        // proposals
        let mut l: ProposalsResponse = self.q(&g, &json!({"proposals": {}}), &tg(&["C03", "C25"]), at)?;
        while let (Some(last), true) = (l.proposals.last().map(|p| p.proposal.id), l.proposals.len() > MAXP) {
            let more: ProposalsResponse = self.q(&g, &json!({"proposals": {"start_after": last}}), &tg(&["C03", "C25"]), at)?;
            if more.proposals.is_empty() {
                break;
            }
            l.proposals.extend(more.proposals);
        }
        ensure_eq_p!(l.proposals.iter().map(|p| p.proposal.id).collect::<Vec<_>>(), (1..=s.props.len() as u64).collect::<Vec<_>>(), &tg(&["C03"]), "after {at}: proposal ids");
        for (i, p) in s.props.iter().enumerate() {
            let r: &ProposalResponse = &l.proposals[i];
            let id = i + 1;
            let ct: &[PropId] = if p.council { &["C03", "C06", "C02"] } else { &["C03", "C07", "C02"] };
            let ct = tg(ct);
            let mut res = [0u128; 4];
            for (o, x) in &r.results {
                res[*o as usize % 4] += x;
            }
            ensure_eq_p!(res, p.tally(), &ct, "after {at}: tally of proposal {id}");
            if let Some(st) = self.status(p) {
                let mut t = ct.clone();
                t.push("C01");
                t.push("C18");
                if s.now < p.end {
                    t.push("C04");
                }
                ensure_eq_p!(r.proposal_status, st, &t, "after {at}: status of proposal {id} (now {}, end {}, votes {:?}, total {})", s.now, p.end, p.tally(), s.total_of(p.council));
                ensure_eq_p!(r.proposal.status, st, &t, "after {at}: inner status of proposal {id}");
            }
            let totals = match p.executed {
                Some(_) => p.final_totals.clone(),
                None if s.now >= p.end => vec![s.total_at(p.council, p.end)],
                None => vec![s.total_of(p.council)],
            };
            ensure_p!(totals.contains(&r.total_votes_available.u128()), &ct, "after {at}: votes available on proposal {id}: got {}, expected one of {totals:?}", r.total_votes_available);
            let x = &r.proposal;
            let ident = (
                x.title.clone(),
                x.proposer.to_string(),
                x.started_at,
                format!("{:?}", x.expires),
                x.proposal_type.to_string(),
            );
            let want = (
                p.title.clone(),
                p.proposer.clone(),
                Timestamp::from_seconds(p.start),
                format!("{:?}", cw_utils::Expiration::AtTime(Timestamp::from_seconds(p.end))),
                if p.council { "Council" } else { "General" }.to_string(),
            );
            ensure_eq_p!(ident, want, &own(&ct, &["C18"]), "after {at}: identity of proposal {id}");
            let acts: Vec<enterprise_governance_controller_api::api::ProposalAction> = serde_json::from_value(p.actions.clone()).unwrap();
            ensure_eq_p!(x.proposal_actions, acts, &own(&ct, &["C27"]), "after {at}: actions of proposal {id}");
            let v: ProposalVotesResponse = self.q(&g, &json!({"proposal_votes": {"proposal_id": id, "limit": 50}}), &ct, at)?;
            let got: BTreeMap<String, (u8, u128)> = v.votes.iter().map(|v| (v.voter.to_string(), (v.outcome, v.amount))).collect();
            ensure_eq_p!(got, p.votes, &ct, "after {at}: votes on proposal {id}");
        }
        // membership
        let mem = &self.d.c.membership_contract;
        for u in s.w.keys() {
            let r: UserWeightResponse = self.q(mem, &json!({"user_weight": {"user": u}}), &["C07", "C08"], at)?;
            ensure_eq_p!(r.weight.u128(), s.weight(u), &tg(&["C08", "C07", "C29", "C11"]), "after {at}: membership weight of {u}");
        }
        let r: TotalWeightResponse = self.q(mem, &json!({"total_weight": {"expiration": {"never": {}}}}), &["C07", "C08"], at)?;
        ensure_eq_p!(r.total_weight.u128(), s.total(), &tg(&["C08", "C07", "C11"]), "after {at}: total membership weight");
        // governance settings and council
        let gc: GovConfigResponse = self.q(&g, &json!({"gov_config": {}}), &tg(&["C18"]), at)?;
        ensure_eq_p!(serde_json::to_value(&gc.gov_config).unwrap(), s.gov.json(), &tg(&["C18"]), "after {at}: governance settings");
        let got = gc.council_gov_config.as_ref().map(|c| serde_json::to_value(c).unwrap());
        let want = s.council.as_ref().map(|(q, t, al)| json!({"allowed_proposal_action_types": al.iter().map(|x| TYPES[*x as usize]).collect::<Vec<_>>(), "quorum": dec_s(pm(*q)), "threshold": dec_s(pm(*t))}));
        ensure_eq_p!(got, want, &tg(&["C06", "C29"]), "after {at}: council settings");
        let cm: MembersResponse = self.q(&self.d.c.council_membership_contract, &json!({"members": {"limit": 50}}), &["C06"], at)?;
        let got: BTreeMap<String, u128> = cm.members.iter().filter(|m| !m.weight.is_zero()).map(|m| (m.user.to_string(), m.weight.u128())).collect();
        ensure_eq_p!(got, s.cmem.iter().map(|u| (u.clone(), 1u128)).collect::<BTreeMap<_, _>>(), &tg(&["C06", "C29"]), "after {at}: council members");
        // main contract
        let di: DaoInfoResponse = self.q(&self.d.enterprise, &json!({"dao_info": {}}), &tg(&["C29"]), at)?;
        ensure_eq_p!(di.metadata, s.meta, &tg(&["C29"]), "after {at}: metadata");
        ensure_eq_p!((di.dao_version.major, di.dao_version.minor, di.dao_version.patch), s.version, &tg(&["C20", "C29"]), "after {at}: DAO version");
        ensure_eq_p!(di.creation_date.seconds(), self.creation, &tg(&["C29", "C21"]), "after {at}: creation date");
        for i in 0..N {
            let r: IsRestrictedUserResponse = self.q(&self.d.enterprise, &json!({"is_restricted_user": {"user": usr(i)}}), &tg(&["C17"]), at)?;
            ensure_eq_p!(r.is_restricted, s.restricted(&usr(i)), &tg(&["C17"]), "after {at}: restriction of user{i}");
        }
        // treasury whitelists
        let t = &self.d.treasury;
        let r: Value = self.q(t, &json!({"asset_whitelist": {"limit": 100}}), &tg(&["C16"]), at)?;
        let got: BTreeSet<String> = r["assets"].as_array().map(|v| v.iter().map(|x| x.to_string()).collect()).unwrap_or_default();
        let want: BTreeSet<String> = s.wl_a.iter().map(|i| info_json(&wl_asset(*i, &self.a)).to_string()).collect();
        ensure_eq_p!(got, want, &tg(&["C16"]), "after {at}: asset whitelist");
        let r: Value = self.q(t, &json!({"nft_whitelist": {"limit": 100}}), &tg(&["C16"]), at)?;
        let got: BTreeSet<String> = r["nfts"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        let want: BTreeSet<String> = s.wl_n.iter().map(|i| format!("nftcoll{i}")).collect();
        ensure_eq_p!(got, want, &tg(&["C16"]), "after {at}: NFT whitelist");
        // rewards
        let f = &self.d.c.funds_distributor_contract;
        let r: funds_distributor_api::api::MinimumEligibleWeightResponse = self.q(f, &json!({"minimum_eligible_weight": {}}), &tg(&["C13", "C29"]), at)?;
        ensure_eq_p!(r.minimum_eligible_weight.u128(), s.min_w, &tg(&["C13", "C29"]), "after {at}: minimum weight for rewards");
        for i in 0..N {
            for (x, got) in self.rewards(&usr(i), at)? {
                let (lo, hi) = s.rew.get(&(usr(i), x.clone())).copied().unwrap_or((0, 0));
                let mut tags = tg(&["C14", "C12"]);
                if s.cmem.contains(&usr(i)) {
                    tags.push("C06");
                }
                ensure_p!(got <= hi && got + s.slack >= lo, &tags, "after {at}: pending {x} rewards of user{i}: got {got}, expected {lo}..{hi} (slack {})", s.slack);
            }
        }
        // balances
        let holders: Vec<String> = (0..N).map(usr).chain([self.a.treasury.clone(), self.a.controller.clone(), self.a.distributor.clone(), self.a.membership.clone(), self.a.enterprise.clone(), "outsider".into()]).collect();
        for h in &holders {
            let tags: &[PropId] = if *h == self.a.treasury {
                &["C28", "C05"]
            } else if *h == self.a.controller {
                &["C05"]
            } else if *h == self.a.distributor {
                &["C14", "C12", "C28"]
            } else if *h == self.a.membership {
                &["C09"]
            } else {
                &["C05", "C28", "C12"]
            };
            for x in ["uone", "utwo", DENOM, self.a.t1.as_str()].into_iter().chain(self.token.as_ref().map(|t| t.as_str())) {
                let got = if is_native(x) { self.w.bank(h, x) } else { self.w.cw20(&Addr::unchecked(x), h) };
                ensure_eq_p!(got, s.b(h, x), &tg(tags), "after {at}: {x} balance of {}", self.name(h));
            }
        }
        if let Some(n) = &self.nft {
            for (id, o) in &s.nft {
                let got = self.w.nft_owner(n, id);
                ensure_eq_p!(got.as_deref(), Some(o.as_str()), &tg(&["C05", "C10"]), "after {at}: owner of NFT {id}");
            }
        }
        for (id, o) in &s.art {
            let got = self.w.nft_owner(&Addr::unchecked(&self.a.art), id);
            ensure_eq_p!(got.as_deref(), Some(o.as_str()), &tg(&["C28"]), "after {at}: owner of treasury NFT {id}");
        }
        // custom messages
        let log: Vec<(String, u32)> = self.w.query(&Addr::unchecked(&self.a.probe), &json!({})).unwrap();
        ensure_eq_p!(log, s.probe, &tg(&["C27", "C03"]), "after {at}: custom messages received");
        // unlocking period and claims
        if s.kind != Kind::Multisig {
            let q = match s.kind {
                Kind::Denom => "denom_config",
                Kind::Token => "token_config",
                _ => "nft_config",
            };
            let r: Value = self.q(mem, &json!({ q: {} }), &tg(&["C18"]), at)?;
            ensure_eq_p!(r["unlocking_period"], dur_json(&s.unlock), &tg(&["C18"]), "after {at}: unlocking period");
            for i in 0..N {
                let r: Value = self.q(mem, &json!({"claims": {"user": usr(i)}}), &tg(&["C18", "C09", "C10"]), at)?;
                let mut got: Vec<String> = r["claims"]
                    .as_array()
                    .map(|v| {
                        v.iter()
                            .map(|c| {
                                let ids: BTreeSet<String> = c["nft_ids"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").into()).collect()).unwrap_or_default();
                                format!("{} {:?} {}", c["amount"].as_str().unwrap_or("0"), ids, c["release_at"])
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                let mut want: Vec<String> = s.claims.iter().filter(|c| c.user == usr(i)).map(|c| format!("{} {:?} {}", c.amount, c.ids, serde_json::to_value(&c.rel).unwrap())).collect();
                got.sort();
                want.sort();
                ensure_eq_p!(got, want, &tg(&["C18", "C09", "C10"]), "after {at}: claims of user{i}");
            }
        }
        Ok(())
    }
    fn name(&self, h: &str) -> String {
        let a = &self.a;
        for (x, n) in [(&a.treasury, "treasury"), (&a.controller, "governance controller"), (&a.distributor, "funds distributor"), (&a.membership, "membership"), (&a.enterprise, "main contract")] {
            if x == h {
                return n.to_string();
            }
        }
        h.to_string()
    }
    fn rewards(&self, u: &str, at: &str) -> Res<Vec<(String, u128)>> {
        let cw: Vec<String> = std::iter::once(self.a.t1.clone()).chain(self.token.as_ref().map(|t| t.to_string())).collect();
        let r: funds_distributor_api::api::UserRewardsResponse =
            self.q(&self.d.c.funds_distributor_contract, &json!({"user_rewards": {"user": u, "native_denoms": ["uone", "utwo", DENOM], "cw20_assets": cw}}), &["C14", "C12"], at)?;
        Ok(r.native_rewards.iter().map(|x| (x.denom.clone(), x.amount.u128())).chain(r.cw20_rewards.iter().map(|x| (x.asset.clone(), x.amount.u128()))).collect())
    }

    // ------------------------------------------------------------ steps
    fn pid(&self, p: u8) -> usize {
        // mostly an existing proposal; rarely one past the end
        let n = self.s.props.len();
        match p {
            _ if n == 0 => 1,
            250.. => n + 1,
            // the latest ones
            200..=249 => n - (p as usize - 200).min(n - 1),
            _ => p as usize % n + 1,
        }
    }
    fn rel(&self, d: Dur) -> ReleaseAt {
        match d {
            Dur::Secs(x) => ReleaseAt::Timestamp(self.w.now().plus_seconds(x)),
            Dur::Blocks(x) => ReleaseAt::Height((self.s.height + x).into()),
        }
    }
    fn released(&self, r: &ReleaseAt) -> bool {
        match r {
            ReleaseAt::Timestamp(t) => self.w.now() >= *t,
            ReleaseAt::Height(h) => self.s.height >= h.u64(),
        }
    }

    fn propose(&mut self, by: &str, acts: &[Act], dep: &Dep, council: bool, cov: &mut Cov) -> Res<Option<usize>> {
        if self.s.props.len() >= self.cap {
            return Ok(None);
        }
        let g = self.d.c.enterprise_governance_controller_contract.clone();
        let n = self.s.props.len() + 1;
        let title = format!("proposal {n} at {}", self.s.now);
        let actions: Value = acts.iter().map(|x| act_json(x, &self.a)).collect();
        let mut cp = json!({"title": title, "description": null, "proposal_actions": actions});
        let invalid = self.s.validate(acts);
        let restricted = self.s.restricted(by);
        let mut fail: Option<(Vec<PropId>, String)> = None;
        if restricted {
            fail = Some((vec!["C17"], "the proposer has not signed the attestation".into()));
        }
        if council {
            if fail.is_none() {
                match &self.s.council {
                    None => fail = Some((vec!["C06"], "there is no council".into())),
                    Some((_, _, allowed)) => {
                        if !self.s.cmem.contains(by) {
                            fail = Some((vec!["C06"], "the proposer is not a council member".into()));
                        } else if let Some(bad) = acts.iter().find(|x| !allowed.contains(&act_type(x))) {
                            fail = Some((vec!["C06"], format!("{} is not allowed to the council", TYPES[act_type(bad) as usize])));
                        } else {
                            fail = invalid;
                        }
                    }
                }
            }
            let r = self.w.exec(by, &g, &json!({ "create_council_proposal": cp }), &[]);
            let ok = fail.is_none();
            let (tags, why) = fail.unwrap_or((self.att_tags(&["C06", "C27"]), "valid".into()));
            if !self.expect(r, ok, &tags, &format!("{by} creating a council proposal {acts:?} ({why})"))? {
                cov.hit("council-proposal-refused");
                for t in &tags {
                    cov.hit(format!("refused-{t}"));
                }
                return Ok(None);
            }
            let (q, t, _) = self.s.council.clone().unwrap();
            cov.hit("council-proposal");
            self.push_prop(by, title, acts, actions, true, pm(q), pm(t), None);
            return Ok(Some(n));
        }
        let min = self.s.gov.dep;
        let amt = (min.unwrap_or(3) as i64 + dep.delta as i64).max(1) as u128;
        let owner = dep.owner.map(usr);
        if let Some(o) = &owner {
            cp["deposit_owner"] = json!(o);
        }
        let depositor = owner.clone().unwrap_or(by.to_string());
        let path = match (dep.path, self.s.kind) {
            (0, _) => 0,
            (1, Kind::Denom) => 1,
            (1, Kind::Token) | (2, _) => 2,
            (1, Kind::Nft) | (3, _) => 3,
            (1, Kind::Multisig) => 0,
            (4, _) => 4,
            _ => 0,
        };
        let mut deposit: Option<(String, DepAsset)> = None;
        let mut moved: Vec<(String, u128)> = vec![];
        let mut nft_moved: Vec<String> = vec![];
        let mut refuse = |t: &[PropId], m: &str| {
            if fail.is_none() {
                fail = Some((t.to_vec(), m.to_string()));
            }
        };
        let r = match path {
            1 => {
                let mut funds: Vec<Coin> = vec![coin(amt, DENOM)];
                moved.push((DENOM.into(), amt));
                if dep.extra && dep.delta % 2 == 0 {
                    funds.push(coin(7, "uone"));
                    moved.push(("uone".into(), 7));
                } else if dep.extra {
                    // a coin that comes before the DAO's in the list of funds
                    self.w.mint(by, 7, "ualt");
                    funds.insert(0, coin(7, "ualt"));
                    cov.hit("deposit-after-other-coin");
                }
                deposit = Some((depositor.clone(), DepAsset::Fungible(DENOM.into(), amt)));
                self.w.exec(by, &g, &json!({ "create_proposal": cp }), &funds)
            }
            2 => {
                let t = match (&self.token, self.s.kind) {
                    (Some(t), Kind::Token) => {
                        deposit = Some((depositor.clone(), DepAsset::Fungible(t.to_string(), amt)));
                        moved.push((t.to_string(), amt));
                        t.clone()
                    }
                    _ => {
                        refuse(&["C05"], "deposit in a token that is not the DAO's");
                        self.t1.clone()
                    }
                };
                self.w.cw20_send(&t, by, &g, amt, &json!({ "create_proposal": cp }))
            }
            3 => {
                let k = (amt as usize).min(4);
                let mut ids: Vec<String> = vec![];
                let mut approved: Option<(String, Vec<String>)> = None;
                if self.s.kind == Kind::Nft {
                    let n = self.nft.clone().unwrap();
                    let whose: Option<String> = if dep.foreign == 0 {
                        Some(by.to_string())
                    } else {
                        (0..N).map(usr).find(|u| u != by && self.s.nft.values().any(|o| o == u))
                    };
                    if let Some(whose) = whose {
                        ids = self.s.nft.iter().filter(|(_, o)| **o == whose).map(|(i, _)| i.clone()).take(k).collect();
                        if dep.foreign >= 2 && !ids.is_empty() {
                            let third = (0..N).map(usr).find(|u| *u != whose && u != by).unwrap();
                            let until = if dep.foreign == 6 { json!({"at_time": Timestamp::from_seconds(self.s.now + 1)}) } else { Value::Null };
                            for (k, i) in ids.iter().enumerate() {
                                if matches!(dep.foreign, 3 | 4) {
                                    self.w.exec(&whose, &n, &json!({"approve": {"spender": third, "token_id": i, "expires": null}}), &[]).unwrap();
                                }
                                if matches!(dep.foreign, 2 | 4 | 6) || (dep.foreign == 5 && k == 0) {
                                    self.w.exec(&whose, &n, &json!({"approve": {"spender": by, "token_id": i, "expires": until}}), &[]).unwrap();
                                }
                            }
                            approved = Some((whose.clone(), ids.clone()));
                            cov.hit(format!("nft-deposit-approved-{}", dep.foreign));
                            if dep.foreign == 6 {
                                self.adv(1);
                            }
                            if matches!(dep.foreign, 3 | 6) || (dep.foreign == 5 && ids.len() > 1) {
                                refuse(&["C05"], "deposit of somebody else's NFT without a valid approval");
                            }
                        } else if whose != by && !ids.is_empty() {
                            refuse(&["C05"], "deposit of somebody else's NFT");
                        }
                    }
                    if dep.dup && !ids.is_empty() {
                        let x = ids[0].clone();
                        ids.push(x);
                        refuse(&["C05"], "the same NFT deposited twice");
                    }
                    deposit = Some((depositor.clone(), DepAsset::Nfts(ids.clone())));
                    nft_moved = ids.clone();
                } else {
                    refuse(&["C05"], "NFT deposit in a DAO that is not an NFT DAO");
                    ids.push("n00".into());
                }
                let r = self.w.exec(by, &g, &json!({"create_proposal_with_nft_deposit": {"create_proposal_msg": cp, "deposit_tokens": ids}}), &[]);
                if let (Err(_), Some((whose, ids))) = (&r, &approved) {
                    // the approvals must not outlive this attempt
                    let n = self.nft.clone().unwrap();
                    for i in ids {
                        for u in (0..N).map(usr) {
                            let _ = self.w.exec(whose, &n, &json!({"revoke": {"spender": u, "token_id": i}}), &[]);
                        }
                    }
                }
                r
            }
            4 => {
                if self.s.kind == Kind::Token {
                    refuse(&["C05"], "deposit in a token that is not the DAO's");
                    self.w.cw20_send(&self.t1.clone(), by, &g, amt, &json!({ "create_proposal": cp }))
                } else {
                    moved.push(("utwo".into(), amt));
                    self.w.exec(by, &g, &json!({ "create_proposal": cp }), &[coin(amt, "utwo")])
                }
            }
            _ => self.w.exec(by, &g, &json!({ "create_proposal": cp }), &[]),
        };
        let damt = match &deposit {
            None => 0,
            Some((_, DepAsset::Fungible(_, x))) => *x,
            Some((_, DepAsset::Nfts(v))) => v.len() as u128,
        };
        match min {
            None if self.s.weight(by) == 0 => refuse(&["C05", "C07"], "the proposer has no voting weight"),
            Some(x) if damt < x as u128 => refuse(&["C05"], "the deposit is below the minimum"),
            _ => {}
        }
        if let Some((t, m)) = invalid {
            refuse(&t, &m);
        }
        let ok = fail.is_none();
        let (tags, why) = fail.unwrap_or((self.att_tags(&own(&["C05", "C27"], &act_tags(acts))), "valid".into()));
        if !self.expect(r, ok, &tags, &format!("{by} creating a proposal, deposit {damt} {dep:?} (minimum {min:?}), actions {acts:?} ({why})"))? {
            cov.hit("proposal-refused");
            for t in &tags {
                cov.hit(format!("refused-{t}"));
            }
            return Ok(None);
        }
        let c = self.a.controller.clone();
        for (x, n) in moved {
            self.s.mv(by, &c, &x, n).unwrap();
        }
        for i in nft_moved {
            self.s.nft.insert(i, c.clone());
        }
        cov.hit("proposal");
        if damt > 0 {
            cov.hit("deposit");
            if self.s.weight(by) == 0 {
                cov.hit("deposit-by-non-member");
            }
        }
        let gv = self.s.gov.clone();
        self.push_prop(by, title, acts, actions, false, pm(gv.q), pm(gv.t), deposit.filter(|_| damt > 0));
        Ok(Some(n))
    }
    fn push_prop(&mut self, by: &str, title: String, acts: &[Act], actions: Value, council: bool, q: u128, t: u128, dep: Option<(String, DepAsset)>) {
        let s = &mut self.s;
        s.props.push(P {
            council,
            proposer: by.into(),
            title,
            acts: acts.to_vec(),
            actions,
            start: s.now,
            end: s.now + s.gov.dur as u64,
            q,
            t,
            v: s.gov.v.map(pm),
            votes: BTreeMap::new(),
            executed: None,
            final_totals: vec![],
            final_outcome: None,
            dep,
            lo: 0,
            hi: 0,
            cool: 0,
        });
    }

    fn vote(&mut self, by: &str, id: usize, o: u8, council: bool, cov: &mut Cov) -> Res {
        let g = self.d.c.enterprise_governance_controller_contract.clone();
        let o = o % 4;
        let name = ["yes", "no", "abstain", "veto"][o as usize];
        let msg = json!({"proposal_id": id, "outcome": name});
        let msg = if council { json!({ "cast_council_vote": msg }) } else { json!({ "cast_vote": msg }) };
        let s = &self.s;
        let wt = if council { s.cmem.contains(by) as u128 } else { s.weight(by) };
        let p = s.props.get(id - 1);
        let vt: PropId = if council { "C06" } else { "C07" };
        let fail: Option<(Vec<PropId>, &str)> = if s.restricted(by) {
            Some((vec!["C17"], "the voter has not signed the attestation"))
        } else if council && s.council.is_none() {
            Some((vec!["C06"], "there is no council"))
        } else if wt == 0 {
            Some((vec![vt], "the voter has no weight"))
        } else if p.is_none() {
            Some((vec!["C03"], "no such proposal"))
        } else if p.unwrap().council != council {
            Some((vec!["C06"], "wrong kind of proposal"))
        } else if p.unwrap().executed.is_some() {
            Some((vec!["C03", "C02"], "already finalised"))
        } else if s.now >= p.unwrap().end {
            Some((vec!["C03", "C02", "C07"], "voting has ended"))
        } else {
            None
        };
        let r = self.w.exec(by, &g, &msg, &[]);
        let ok = fail.is_none();
        let (tags, why) = fail.unwrap_or((self.att_tags(&["C03", "C02", vt]), "valid"));
        if !self.expect(r, ok, &tags, &format!("{by} voting {name} on proposal {id} (council {council}, {why})"))? {
            cov.hit("vote-refused");
            for t in &tags {
                cov.hit(format!("refused-{t}"));
            }
            return Ok(());
        }
        let tot = self.s.total_of(council);
        let before = self.s.standing(&self.s.props[id - 1], tot);
        self.s.props[id - 1].votes.insert(by.into(), (o, wt));
        let after = self.s.standing(&self.s.props[id - 1], tot);
        cov.hit(if council { "council-vote" } else { "vote" });
        if !council && self.s.kind != Kind::Multisig && before != after {
            let now = self.s.now;
            let (cur, early) = (self.s.gov.dur as u64, self.s.gov.early);
            let p = &mut self.s.props[id - 1];
            let own = p.end - p.start;
            let lo = (now + cur.min(own) / 10).min(p.end);
            let hi = (now + (cur.max(own) + 9) / 10).min(p.end);
            let sure = early && !matches!((before, after), (Standing::Draw(_), Standing::Draw(_)));
            if sure {
                p.lo = lo;
                cov.hit("standing-changed");
            }
            p.hi = p.hi.max(hi);
            p.cool = now + (cur.max(own) + 9) / 10;
        } else if !council {
            cov.hit("standing-unchanged");
        }
        Ok(())
    }

    fn exec(&mut self, by: &str, id: usize, cov: &mut Cov) -> Res<Vec<PropId>> {
        let g = self.d.c.enterprise_governance_controller_contract.clone();
        let s = &self.s;
        let p = s.props.get(id - 1).cloned();
        let mut either = false;
        let mut tot = 0;
        let fail: Option<(Vec<PropId>, &str)> = if s.restricted(by) {
            Some((vec!["C17"], "the caller has not signed the attestation"))
        } else if p.is_none() {
            Some((vec!["C03"], "no such proposal"))
        } else {
            let p = p.as_ref().unwrap();
            let ended = s.now >= p.end;
            tot = if ended { s.total_at(p.council, p.end) } else { s.total_of(p.council) };
            if p.executed.is_some() {
                Some((vec!["C03", "C02"], "already finalised"))
            } else if !ended && !s.early_allowed(p) {
                Some((vec!["C03", "C04", "C02"], "voting is in progress and early execution is not allowed"))
            } else if tot == 0 {
                either = ended;
                Some((vec!["C03", "C04"], "no votes are available"))
            } else if !ended && s.standing(p, tot) == Standing::Open {
                Some((vec!["C03", "C04", "C01", "C02"], "quorum or threshold not reached before the end"))
            } else if !ended && s.now < p.lo {
                cov.hit("cool-down-blocked");
                Some((vec!["C04"], "the cool-down has not passed"))
            } else {
                either = !ended && s.now < p.hi;
                None
            }
        };
        let mut tags = self.att_tags(&["C03", "C01"]);
        if let Some(p) = &p {
            if s.now < p.end.max(p.cool) {
                tags.push("C04");
            }
            if p.dep.is_some() {
                tags.push("C05");
            }
            if p.council {
                tags.push("C06");
            }
            if !p.acts.is_empty() {
                tags.push("C27");
                tags.extend(act_tags(&p.acts));
            }
        }
        let r = self.w.exec(by, &g, &json!({"execute_proposal": {"proposal_id": id}}), &[]);
        if either && r.is_err() {
            cov.hit("execution-ambiguous");
            return Ok(vec![]);
        }
        if tot == 0 && either {
            // finalised with nothing to vote with: treated as quorum missed
            return Ok(vec![]);
        }
        let ok = fail.is_none();
        let (t2, why) = fail.unwrap_or((tags.clone(), "executable"));
        if !self.expect(r, ok, &t2, &format!("{by} executing proposal {id} ({why}; now {}, p {:?}, total {tot})", self.s.now, p.as_ref().map(|p| (p.start, p.end, p.tally(), p.lo, p.hi))))? {
            cov.hit("execute-refused");
            for t in &t2 {
                cov.hit(format!("refused-{t}"));
            }
            return Ok(vec![]);
        }
        let p = p.unwrap();
        let ended = self.s.now >= p.end;
        cov.hit(if ended { "executed-after-end" } else { "executed-early" });
        let st = oracle_status(&p.tally(), tot, p.q, p.t, p.v);
        let now = self.s.now;
        let council = p.council;
        let mut totals = vec![self.s.total_at(council, now.min(p.end))];
        if !ended {
            totals.push(tot);
        }
        {
            let q = &mut self.s.props[id - 1];
            q.executed = Some(now);
            q.final_totals = totals;
            q.final_outcome = Some(st.clone());
        }
        let mut to_treasury = false;
        match &st {
            PollStatus::Passed { .. } => {
                let mut s2 = self.s.clone();
                match s2.apply(&p.acts, &self.a) {
                    Ok(()) => {
                        self.s = s2;
                        cov.hit("passed");
                        if p.acts.len() > 1 {
                            cov.hit("passed-several-actions");
                        }
                        for a in &p.acts {
                            cov.hit(format!("did-{}", TYPES[act_type(a) as usize]));
                        }
                    }
                    Err(_) => {
                        cov.hit("passed-actions-failed");
                        if p.acts.len() > 1 {
                            cov.hit("rollback-several-actions");
                        }
                    }
                }
            }
            PollStatus::Rejected { reason } => {
                to_treasury = !council && matches!(reason, PollRejectionReason::QuorumNotReached | PollRejectionReason::IsVetoOutcome);
                cov.hit(format!("rejected-{}", if to_treasury { "punished" } else { "ordinary" }));
            }
            _ => {}
        }
        if let Some((owner, asset)) = &p.dep {
            let to = if to_treasury { self.a.treasury.clone() } else { owner.clone() };
            cov.hit(if to_treasury { "deposit-confiscated" } else { "deposit-returned" });
            let c = self.a.controller.clone();
            match asset {
                DepAsset::Fungible(x, n) => self.s.mv(&c, &to, x, *n).unwrap(),
                DepAsset::Nfts(ids) => {
                    for i in ids {
                        self.s.nft.insert(i.clone(), to.clone());
                    }
                }
            }
        }
        Ok(tags)
    }

    fn step(&mut self, op: &Op, cov: &mut Cov) -> Res {
        let mut ctx: Vec<PropId> = vec![];
        let mem = self.d.c.membership_contract.clone();
        match op {
            Op::Adv(x) => self.adv(*x as u64),
            Op::ToEnd { p, off } => {
                if let Some(p) = self.s.props.get(self.pid(*p) - 1) {
                    let t = (p.end as i64 + *off as i64) as u64;
                    self.to(t);
                }
            }
            Op::ToCool { p, off } => {
                if let Some(p) = self.s.props.get(self.pid(*p) - 1) {
                    let t = (p.lo as i64 + *off as i64).max(0) as u64;
                    self.to(t);
                }
            }
            Op::Stake { by, for_, amt, k } => {
                let (by, target) = (usr(*by), for_.map(usr).unwrap_or(usr(*by)));
                let rt = self.s.restricted(&target);
                let rs = self.s.restricted(&by);
                let amt = (*amt).max(1) as u128;
                let tags = if rt { vec!["C17"] } else { self.att_tags(&["C08", "C07", "C14"]) };
                let r = match self.s.kind {
                    Kind::Multisig => return Ok(()),
                    Kind::Token if *k % 3 == 2 => {
                        // several stakes in one transfer
                        let second = usr(*k / 3);
                        let list = [(target.clone(), amt), (second.clone(), 1 + *k as u128 % 3)];
                        let any = rt || self.s.restricted(&second);
                        let total = list[0].1 + list[1].1;
                        let stakers: Vec<_> = list.iter().map(|(u, a)| json!({"user": u, "staked_amount": a.to_string()})).collect();
                        let r = self.w.cw20_send(&self.token.clone().unwrap(), &by, &mem, total, &json!({"add_stakes": {"stakers": stakers}}));
                        let tags = if any { vec!["C17"] } else { self.att_tags(&["C08", "C07", "C14"]) };
                        if rs && !any && r.is_err() {
                            return self.observe(&format!("{op:?}"), &[]);
                        }
                        if self.expect(r, !any, &tags, &format!("{by} staking {list:?} in one transfer"))? {
                            let (asset, m) = (self.a.dao_asset.clone(), self.a.membership.clone());
                            self.s.mv(&by, &m, &asset, total).unwrap();
                            for (u, x) in list {
                                let w = self.s.weight(&u) + x;
                                self.s.set_weight(&u, w);
                            }
                            cov.hit("stake");
                            cov.hit("stake-several");
                        } else {
                            cov.hit("stake-refused");
                            cov.hit("refused-C17");
                        }
                        return self.observe(&format!("{op:?}"), &[]);
                    }
                    Kind::Denom => self.w.exec(&by, &mem, &json!({"stake": {"user": for_.map(usr)}}), &[coin(amt, DENOM)]),
                    Kind::Token => self.w.cw20_send(&self.token.clone().unwrap(), &by, &mem, amt, &json!({"stake": {"user": target}})),
                    Kind::Nft => {
                        let n = self.nft.clone().unwrap();
                        let ids: Vec<String> = self.s.nft.iter().filter(|(_, o)| **o == by).map(|x| x.0.clone()).take((*k % 3 + 1) as usize).collect();
                        for id in ids {
                            let r = self.w.send_nft(&n, &by, &mem, &id, &json!({"stake": {"user": target}}));
                            if rs && !rt && r.is_err() {
                                break;
                            }
                            if !self.expect(r, !rt, &tags, &format!("{by} staking NFT {id} for {target}"))? {
                                cov.hit("stake-refused");
                                break;
                            }
                            self.s.nft.insert(id.clone(), self.a.membership.clone());
                            self.s.staked.insert(id, target.clone());
                            let w = self.s.weight(&target) + 1;
                            self.s.set_weight(&target, w);
                            cov.hit("stake");
                        }
                        return self.observe(&format!("{op:?}"), &[]);
                    }
                };
                if rs && !rt && r.is_err() {
                    return self.observe(&format!("{op:?}"), &[]);
                }
                if self.expect(r, !rt, &tags, &format!("{by} staking {amt} for {target}"))? {
                    let asset = self.a.dao_asset.clone();
                    let m = self.a.membership.clone();
                    self.s.mv(&by, &m, &asset, amt).unwrap();
                    let w = self.s.weight(&target) + amt;
                    self.s.set_weight(&target, w);
                    cov.hit("stake");
                } else {
                    cov.hit("stake-refused");
                    cov.hit("refused-C17");
                }
            }
            Op::Unstake { by, amt, all } => {
                let mut u = usr(*by);
                if let Some(x) = (0..N).map(|i| usr(by.wrapping_add(i))).find(|x| self.s.weight(x) > 0) {
                    u = x;
                }
                let w = self.s.weight(&u);
                let restricted = self.s.restricted(&u);
                if self.s.kind == Kind::Multisig || w == 0 {
                    return Ok(());
                }
                let amt = if *all { w } else { (*amt as u128 % w) + 1 };
                let rel = self.rel(self.s.unlock);
                let (r, ids) = if self.s.kind == Kind::Nft {
                    let ids: BTreeSet<String> = self.s.staked.iter().filter(|x| *x.1 == u).map(|x| x.0.clone()).take(amt as usize).collect();
                    (self.w.exec(&u, &mem, &json!({"unstake": {"nft_ids": ids}}), &[]), ids)
                } else {
                    (self.w.exec(&u, &mem, &json!({"unstake": {"amount": amt.to_string()}}), &[]), BTreeSet::new())
                };
                if restricted && r.is_err() {
                    return Ok(());
                }
                self.expect(r, true, &["C08", "C09", "C10", "C07"], &format!("{u} unstaking {amt} of {w}"))?;
                for i in &ids {
                    self.s.staked.remove(i);
                }
                self.s.claims.push(Claim { user: u.clone(), amount: if ids.is_empty() { amt } else { 0 }, ids, rel });
                self.s.set_weight(&u, w - amt);
                cov.hit("unstake");
            }
            Op::ClaimStake { by } => {
                if self.s.kind == Kind::Multisig {
                    return Ok(());
                }
                let mut u = usr(*by);
                if let Some(x) = (0..N).map(|i| usr(by.wrapping_add(i))).find(|x| self.s.claims.iter().any(|c| c.user == *x)) {
                    u = x;
                }
                let r = self.w.exec(&u, &mem, &json!({"claim": {"user": null}}), &[]);
                let due: Vec<usize> = (0..self.s.claims.len()).filter(|i| self.s.claims[*i].user == u && self.released(&self.s.claims[*i].rel)).collect();
                if !due.is_empty() && !(r.is_err() && self.s.restricted(&u)) {
                    self.expect(r, true, &["C09", "C10", "C18"], "claiming released stake")?;
                    for i in due.into_iter().rev() {
                        let c = self.s.claims.remove(i);
                        let (m, x) = (self.a.membership.clone(), self.a.dao_asset.clone());
                        self.s.mv(&m, &u, &x, c.amount).unwrap();
                        for id in c.ids {
                            self.s.nft.insert(id, u.clone());
                        }
                    }
                    cov.hit("claim-stake");
                }
            }
            Op::Propose { by, acts, dep } => {
                self.propose(&usr(*by), acts, dep, false, cov)?;
            }
            Op::Flood { by, n, o, mask, council } => {
                self.cap = MAXP + *n as usize;
                let council = *council && !self.s.cmem.is_empty();
                let mem: Vec<String> = if council { self.s.cmem.iter().cloned().collect() } else { (0..N).map(usr).collect() };
                let dep = if council { Dep::default() } else { Dep { path: 1, ..Dep::default() } };
                for i in 0..*n {
                    let Some(id) = self.propose(&mem[*by as usize % mem.len()], &[], &dep, council, cov)? else { break };
                    for (_, v) in mem.iter().enumerate().filter(|(j, _)| mask & (1 << j) != 0) {
                        self.vote(v, id, (*o + i) % 4, council, cov)?;
                    }
                    cov.hit(if council { "one-of-many-council-proposals" } else { "one-of-many-proposals" });
                }
            }
            Op::CPropose { by, acts } => {
                let mut u = usr(*by);
                if *by < 200 {
                    if let Some(x) = self.s.cmem.iter().nth(*by as usize % self.s.cmem.len().max(1)) {
                        u = x.clone();
                    }
                }
                self.propose(&u, acts, &Dep::default(), true, cov)?;
            }
            Op::Vote { by, p, o } => {
                let id = self.pid(*p);
                self.vote(&usr(*by), id, *o, false, cov)?;
            }
            Op::CVote { by, p, o } => {
                let id = self.pid(*p);
                self.vote(&usr(*by), id, *o, true, cov)?;
            }
            Op::VoteMany { p, o, mask, council } => {
                let id = self.pid(*p);
                for i in 0..N {
                    if mask & (1 << i) != 0 {
                        self.vote(&usr(i), id, *o, *council, cov)?;
                    }
                }
            }
            Op::Exec { by, p } => {
                let id = self.pid(*p);
                ctx = self.exec(&usr(*by), id, cov)?;
            }
            Op::Claim { by, other } => {
                let u = usr(*by);
                let target = other.map(usr).unwrap_or(u.clone());
                let before = self.rewards(&target, "claim")?;
                let cw: Vec<String> = std::iter::once(self.a.t1.clone()).chain(self.token.as_ref().map(|t| t.to_string())).collect();
                let r = self.w.exec(&u, &self.d.c.funds_distributor_contract.clone(), &json!({"claim_rewards": {"user": target, "native_denoms": ["uone", "utwo", DENOM], "cw20_assets": cw}}), &[]);
                let rs = self.s.restricted(&u) || self.s.restricted(&target);
                let (ok, tags) = if rs {
                    (false, vec!["C17"])
                } else if u != target {
                    (false, vec!["C12", "C15"])
                } else {
                    (true, self.att_tags(&["C12", "C14"]))
                };
                if self.expect(r, ok, &tags, &format!("{u} claiming rewards of {target}"))? {
                    let dist = self.a.distributor.clone();
                    for (x, n) in before {
                        if self.s.mv(&dist, &u, &x, n).is_err() {
                            return div(&["C12", "C14"], format!("more {x} claimable by {u} than the distributor ever received"));
                        }
                        self.s.rew.remove(&(u.clone(), x));
                        if n > 0 {
                            cov.hit("rewards-claimed");
                        }
                    }
                } else {
                    cov.hit("claim-refused");
                    for t in &tags {
                        cov.hit(format!("refused-{t}"));
                    }
                }
            }
            Op::Dist { by, items } => {
                let u = usr(*by);
                let dist = self.d.c.funds_distributor_contract.clone();
                let tot: u128 = self.s.w.keys().map(|x| self.s.eligible(x)).sum();
                for (x, amt) in dist_items(items, &self.a) {
                    let ok = tot > 0 && self.s.whitelisted(&x, &self.a);
                    let r = if is_native(&x) {
                        self.w.exec(&u, &dist, &json!({"distribute_native": {}}), &[coin(amt, &x)])
                    } else {
                        self.w.cw20_send(&Addr::unchecked(&x), &u, &dist, amt, &json!({"distribute": {}}))
                    };
                    if self.expect(r, ok, &["C14", "C13"], &format!("{u} distributing {amt} {x} (eligible weight {tot})"))? {
                        let to = self.a.distributor.clone();
                        self.s.mv(&u, &to, &x, amt).unwrap();
                        self.s.distribute(&x, amt).unwrap();
                        cov.hit("distributed");
                    } else {
                        cov.hit("distribution-refused");
                    }
                }
            }
            Op::Sign { by } => self.sign(&usr(*by), cov)?,
            Op::SignAll => {
                for i in 0..N {
                    self.sign(&usr(i), cov)?;
                }
            }
            Op::Fund { asset, amt } => {
                let t = self.a.treasury.clone();
                let d = ["uone", "utwo"][*asset as usize % 2];
                self.w.mint(&t, *amt as u128, d);
                let x = self.s.b(&t, d);
                self.s.bal.insert((t, d.into()), x + *amt as u128);
            }
            Op::Attack { by, what, p } => {
                let u = usr(*by);
                let id = self.pid(*p);
                let (c, m, tags): (Addr, Value, Vec<PropId>) = match what % 8 {
                    0 => (self.d.treasury.clone(), json!({"spend": {"recipient": u, "assets": [{"info": {"native": "uone"}, "amount": "5"}]}}), vec!["C28", "C15"]),
                    1 => (self.d.c.enterprise_governance_controller_contract.clone(), json!({"execute_proposal_actions": {"proposal_id": id}}), vec!["C03", "C15", "C28"]),
                    2 => (self.d.c.enterprise_governance_contract.clone(), json!({"cast_vote": {"poll_id": id.to_string(), "outcome": "yes", "voter": u, "amount": "1000000"}}), vec!["C07", "C03", "C15"]),
                    3 => (self.d.c.funds_distributor_contract.clone(), json!({"update_user_weights": {"new_user_weights": [{"user": u, "weight": "1000000"}]}}), vec!["C14", "C15"]),
                    4 => (self.d.treasury.clone(), json!({"execute_cosmos_msgs": {"msgs": [json!({"bank": {"send": {"to_address": u, "amount": [{"denom": "uone", "amount": "5"}]}}}).to_string()]}}), vec!["C28", "C15"]),
                    5 => (self.d.treasury.clone(), json!({"distribute_funds": {"funds": [{"info": {"native": "uone"}, "amount": "5000"}], "funds_distributor_contract": self.a.distributor}}), vec!["C28", "C15"]),
                    6 => (self.d.c.enterprise_governance_controller_contract.clone(), json!({"weights_changed": {"weight_changes": [{"user": u, "old_weight": "0", "new_weight": "1000000"}]}}), vec!["C07", "C14", "C15"]),
                    _ => (self.d.enterprise.clone(), json!({"update_metadata": {"name": {"change": "hacked"}, "description": "no_change", "logo": "no_change", "github_username": "no_change", "discord_username": "no_change", "twitter_username": "no_change", "telegram_username": "no_change"}}), vec!["C29", "C15"]),
                };
                let r = self.w.exec(&u, &c, &m, &[]);
                self.expect(r, false, &tags, &format!("{u} calling {m}"))?;
                cov.hit("attack");
            }
            Op::Pass { acts, council, outcome, dep } => {
                let by = if *council {
                    match self.s.cmem.iter().find(|u| !self.s.restricted(u)) {
                        Some(u) => u.clone(),
                        None => return Ok(()),
                    }
                } else {
                    match (0..N).map(usr).find(|u| self.s.weight(u) > 0 && !self.s.restricted(u)) {
                        Some(u) => u,
                        None => return Ok(()),
                    }
                };
                let mut dep = dep.clone();
                if self.s.gov.dep.is_some() && dep.path == 0 {
                    dep.path = 1;
                }
                let Some(id) = self.propose(&by, acts, &dep, *council, cov)? else { return self.observe(&format!("{op:?}"), &[]) };
                for i in 0..N {
                    let u = usr(i);
                    let has = if *council { self.s.cmem.contains(&u) } else { self.s.weight(&u) > 0 };
                    if has && !self.s.restricted(&u) {
                        self.vote(&u, id, *outcome, *council, cov)?;
                    }
                }
                self.observe(&format!("votes of {op:?}"), &[])?;
                let end = self.s.props[id - 1].end;
                self.to(end);
                ctx = self.exec(&by, id, cov)?;
            }
        }
        self.observe(&format!("{op:?}"), &ctx)
    }
    fn sign(&mut self, u: &str, cov: &mut Cov) -> Res {
        let c: enterprise_protocol::api::ComponentContractsResponse = self.q(&self.d.enterprise, &json!({"component_contracts": {}}), &["C17", "C21"], "signing")?;
        ensure_eq_p!(c.attestation_contract.is_some(), self.s.att.is_some(), &["C17"], "presence of an attestation");
        if let Some(a) = c.attestation_contract {
            let r = self.w.exec(u, &a, &json!({"sign_attestation": {}}), &[]);
            self.expect(r, true, &["C17"], &format!("{u} signing the attestation"))?;
            self.s.signed.insert((self.s.att.unwrap(), u.into()));
            cov.hit("signed");
        }
        Ok(())
    }
}

fn run_case(c: &Case, cov: &mut Cov) -> Res {
    let mut m = M::build(c, cov)?;
    for op in &c.ops {
        m.step(op, cov)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ generators
#[derive(Clone)]
struct Prof {
    kinds: [u32; 4],
    /// weights of act kinds: meta gov council whitelist fund upgrade msgs treasury members dist minw deploy attest
    acts: [u32; 13],
    /// weights of ops: time, stake, propose, cpropose, vote, cvote, exec, claim, dist, sign, attack, pass, cpass, cool
    ops: [u32; 14],
    attest: f64,
    council: f64,
    dep: f64,
    early: f64,
    len: usize,
    bad: f64,
}
impl Prof {
    fn base() -> Prof {
        Prof {
            kinds: [3, 3, 3, 4],
            acts: [3, 3, 3, 2, 4, 1, 4, 2, 4, 2, 1, 1, 1],
            ops: [4, 6, 4, 1, 10, 1, 6, 1, 1, 1, 1, 3, 1, 2],
            attest: 0.1,
            council: 0.4,
            dep: 0.35,
            early: 0.6,
            len: 18,
            bad: 0.12,
        }
    }
}

fn permille(bad: f64) -> BoxedStrategy<u16> {
    let b = (bad * 100.0) as u32;
    prop_oneof![
        (100 - b) * 3 => prop::sample::select(vec![100u16, 200, 250, 300, 334, 400, 500, 501, 510, 600, 667, 750, 1000]),
        (100 - b) => 1u16..=1000,
        b.max(1) * 2 => prop::sample::select(vec![0u16, 1001, 1500, 1000, 1]),
    ]
    .boxed()
}
fn good_pm() -> BoxedStrategy<u16> {
    prop_oneof![3 => prop::sample::select(vec![100u16, 200, 250, 300, 334, 400, 500, 501, 600, 667, 1000]), 1 => 1u16..=1000].boxed()
}
fn gov_spec(p: &Prof) -> BoxedStrategy<GovSpec> {
    (
        good_pm(),
        good_pm(),
        prop::option::weighted(0.5, good_pm()),
        prop_oneof![9 => prop::sample::select(vec![10u32, 60, 95, 100, 1000]), 3 => 1u32..3000, 1 => prop::sample::select(vec![40_000u32, 604_800, 2_592_000])],
        prop::option::weighted(p.dep, prop_oneof![1 => Just(0u32), 6 => 1u32..4, 2 => 4u32..40]),
        prop::bool::weighted(p.early),
    )
        .prop_map(|(q, t, v, dur, dep, early)| GovSpec { q, t, v, dur, dep, early })
        .boxed()
}
fn council_spec(bad: f64) -> BoxedStrategy<CouncilSpec> {
    (
        prop::sample::subsequence((0..N).collect::<Vec<u8>>(), 0..=4),
        prop::bool::weighted(bad),
        permille(bad * 0.5),
        permille(bad * 0.5),
        prop::option::weighted(
            0.75,
            (prop::sample::subsequence(vec![0u8, 3, 4, 6, 13], 0..=5), prop::bool::weighted(bad), 0u8..14),
        ),
    )
        .prop_map(|(mut members, dup, q, t, allowed)| {
            if dup && !members.is_empty() {
                members.push(members[0]);
            }
            CouncilSpec {
                members,
                q,
                t,
                allowed: allowed.map(|(mut v, b, x)| {
                    if b {
                        v.push(x);
                    }
                    v
                }),
            }
        })
        .boxed()
}
fn good_council() -> BoxedStrategy<CouncilSpec> {
    (prop::sample::subsequence((0..N).collect::<Vec<u8>>(), 0..=4), good_pm(), good_pm(), prop::option::weighted(0.7, prop::sample::subsequence(vec![0u8, 3, 4, 6, 13], 0..=5)))
        .prop_map(|(members, q, t, allowed)| CouncilSpec { members, q, t, allowed })
        .boxed()
}
/// mostly shorter than a, now and then up to b
fn lens<T: std::fmt::Debug + Clone + 'static>(x: BoxedStrategy<T>, a: usize, b: usize) -> BoxedStrategy<Vec<T>> {
    prop_oneof![9 => prop::collection::vec(x.clone(), 0..a), 1 => prop::collection::vec(x, a..b)].boxed()
}
fn items(bad: f64) -> BoxedStrategy<Vec<(u8, u32)>> {
    let b = (bad * 30.0) as u32;
    let one = (prop_oneof![40 => 0u8..4, b.max(1) => Just(9u8)], 1000u32..2_000_000);
    prop_oneof![9 => prop::collection::vec(one.clone(), 1..3), 1 => prop::collection::vec(one, 3..10)].boxed()
}
fn dist_list() -> BoxedStrategy<Vec<(u8, u32)>> {
    prop::collection::vec((prop_oneof![3 => Just(0u8), 2 => 1u8..4], 1_000_000u32..9_000_000), 1..4).boxed()
}
fn unl() -> BoxedStrategy<Dur> {
    prop_oneof![4 => (0u64..4000).prop_map(Dur::Secs), 3 => (prop::sample::select(vec![10u64, 50, 60, 100, 1000, 3000]), 0u64..3).prop_map(|(x, d)| Dur::Secs(x + d - 1)), 2 => (0u64..60).prop_map(Dur::Blocks)].boxed()
}
fn wl_list(bad: f64) -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
    prop_oneof![
        ((1.0 - bad) * 100.0) as u32 => (0u8..16, 0u8..16).prop_map(|(x, y)| {
            let a: Vec<u8> = (0..4).filter(|i| x & (1 << i) != 0).collect();
            let r: Vec<u8> = (0..4).filter(|i| y & !x & (1 << i) != 0).collect();
            (a, r)
        }),
        (bad * 100.0) as u32 + 1 => (prop::collection::vec(0u8..4, 0..4), prop::collection::vec(0u8..4, 0..4)),
    ]
    .boxed()
}
fn multi_list() -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
    (prop::collection::vec(8u8..10, 0..3), prop::collection::vec(8u8..10, 0..3)).boxed()
}
fn act(p: &Prof) -> BoxedStrategy<Act> {
    let bad = p.bad;
    let w = p.acts;
    let o = |s: BoxedStrategy<u16>| prop::option::weighted(0.4, s);
    let tag = || prop_oneof![24 => 0u8..100, ((bad * 16.0) as u32).max(1) => 250u8..=255];
    let msgs = (0u8..3, lens(tag().boxed(), 3, 13)).prop_map(|(via, what)| Act::Msgs { via, what });
    let mut v: Vec<(u32, BoxedStrategy<Act>)> = vec![
        (w[0], (any::<u8>(), any::<u8>()).prop_map(|(mask, val)| Act::Meta { mask: mask & 127, val }).boxed()),
        (
            w[1],
            (
                o(permille(bad)),
                o(permille(bad)),
                prop::option::weighted(0.4, prop::option::weighted(0.7, permille(bad))),
                prop::option::weighted(0.4, prop_oneof![6 => prop::sample::select(vec![10u32, 50, 60, 100, 1000, 3000]), 2 => 1u32..3000, 1 => Just(0u32), 1 => Just(100_000u32)]),
                prop::option::weighted(0.35, unl()),
                prop::option::weighted(0.3, prop::option::weighted(0.5, 0u32..6)),
                prop::option::weighted(0.3, any::<bool>()),
            )
                .prop_map(|(q, t, v, dur, unlock, dep, early)| Act::Gov { q, t, v, dur, unlock, dep, early })
                .boxed(),
        ),
        (w[2], prop::option::weighted(0.85, council_spec(bad)).prop_map(Act::Council).boxed()),
        (
            w[3],
            (wl_list(bad), prop_oneof![8 => Just((vec![], vec![])), 1 => multi_list()])
                .prop_map(|((mut add, mut rem), (ma, mr))| {
                    add.extend(ma);
                    rem.extend(mr);
                    Act::Assets { add, rem }
                })
                .boxed(),
        ),
        (w[3], wl_list(bad).prop_map(|(add, rem)| Act::Nfts { add, rem }).boxed()),
        (w[4], (any::<u8>(), items(bad), prop::bool::weighted(bad)).prop_map(|(to, items, over)| Act::Fund { to, items, over }).boxed()),
        (w[5], prop_oneof![3 => 2u8..4, 1 => 0u8..2].prop_map(|v| Act::Upgrade { v }).boxed()),
        (w[6], msgs.boxed()),
        (w[7], (any::<u8>(), 0u8..2, prop_oneof![9 => 1u32..1_000_000, 1 => Just(u32::MAX)]).prop_map(|(to, asset, amt)| Act::TBank { to, asset, amt }).boxed()),
        (w[7], (0u8..3, any::<u8>()).prop_map(|(id, to)| Act::TNft { id, to }).boxed()),
        (
            w[8],
            prop_oneof![
                6 => (1u8..32, prop::collection::vec(prop_oneof![1 => Just(0u32), 4 => 1u32..60], 5)).prop_map(|(m, x)| Act::Members((0..N).filter(|i| m & (1 << i) != 0).map(|i| (i, x[i as usize])).collect())),
                1 => prop::collection::vec((0..N, 0u32..60), 0..4).prop_map(Act::Members),
            ]
            .boxed(),
        ),
        (w[9], prop_oneof![20 => dist_list(), ((bad * 20.0) as u32).max(1) => items(bad)].prop_map(|items| Act::Dist { items }).boxed()),
        (w[10], (0u32..40).prop_map(Act::MinW).boxed()),
        (w[11], Just(Act::Deploy).boxed()),
        (w[12], any::<u8>().prop_map(Act::SetAtt).boxed()),
        (w[12], Just(Act::RemAtt).boxed()),
    ];
    v.retain(|x| x.0 > 0);
    prop::strategy::Union::new_weighted(v).boxed()
}
fn acts(p: &Prof) -> BoxedStrategy<Vec<Act>> {
    prop_oneof![
        2 => Just(vec![]),
        20 => prop::collection::vec(act(p), 1..4),
        2 => prop::collection::vec(act(p), 4..8),
        1 => prop::collection::vec(act(p), 9..13),
    ]
    .boxed()
}
/// actions a council may be allowed to propose (and sometimes others)
fn cacts(p: &Prof) -> BoxedStrategy<Vec<Act>> {
    let mut q = p.clone();
    q.acts = [6, 0, 0, 5, 0, 5, 0, 0, 0, 0, 0, 1, 0];
    prop_oneof![5 => prop::collection::vec(act(&q), 0..3), 2 => acts(p)].boxed()
}
fn dep(p: &Prof) -> BoxedStrategy<Dep> {
    let b = (p.bad * 40.0) as u32 + 1;
    (
        prop_oneof![10 => Just(1u8), 3 => Just(0u8), b => 2u8..5],
        prop_oneof![5 => Just(0i8), 2 => Just(-1i8), 3 => 1i8..4, 1 => -4i8..20],
        prop::bool::weighted(0.15),
        prop::bool::weighted(0.08),
        prop_oneof![16 => Just(0u8), 2 => Just(1u8), 3 => Just(2u8), 4 => 3u8..7],
        prop::option::weighted(0.3, 0..N),
    )
        .prop_map(|(path, delta, extra, dup, foreign, owner)| Dep { path, delta, extra, dup, foreign, owner })
        .boxed()
}
fn gdep() -> BoxedStrategy<Dep> {
    (prop_oneof![3 => Just(0u8), 1 => Just(1u8)], 0i8..3, prop::option::weighted(0.3, 0..N)).prop_map(|(path, delta, owner)| Dep { path, delta, owner, ..Dep::default() }).boxed()
}
fn op(p: &Prof) -> BoxedStrategy<Op> {
    let u = || 0..N;
    let pr = || prop_oneof![15 => 0u8..8, 15 => 200u8..203, 1 => Just(255u8)];
    let w = p.ops;
    let outc = || prop_oneof![5 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 2 => Just(3u8)];
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (w[0], prop_oneof![2 => (0u32..40).prop_map(Op::Adv), 1 => (0u32..1500).prop_map(Op::Adv), 3 => (pr(), -2i8..3).prop_map(|(p, off)| Op::ToEnd { p, off })].boxed()),
        (w[1], (u(), prop::option::weighted(0.25, u()), prop_oneof![5 => 1u32..60, 1 => 1u32..100_000], any::<u8>()).prop_map(|(by, for_, amt, k)| Op::Stake { by, for_, amt, k }).boxed()),
        (w[1], (u(), any::<u32>(), prop::bool::weighted(0.35)).prop_map(|(by, amt, all)| Op::Unstake { by, amt, all }).boxed()),
        (w[1].min(1), u().prop_map(|by| Op::ClaimStake { by }).boxed()),
        (w[2], (u(), acts(p), dep(p)).prop_map(|(by, acts, dep)| Op::Propose { by, acts, dep }).boxed()),
        (w[3], (prop_oneof![5 => u(), 1 => Just(200u8), 1 => Just(203u8)], cacts(p)).prop_map(|(by, acts)| Op::CPropose { by, acts }).boxed()),
        (w[4], (u(), pr(), outc()).prop_map(|(by, p, o)| Op::Vote { by, p, o }).boxed()),
        (w[4] / 4, (pr(), outc(), 1u8..32).prop_map(|(p, o, mask)| Op::VoteMany { p, o, mask, council: false }).boxed()),
        (w[5], (u(), pr(), outc()).prop_map(|(by, p, o)| Op::CVote { by, p, o }).boxed()),
        (w[5] / 3, (pr(), outc(), 1u8..32).prop_map(|(p, o, mask)| Op::VoteMany { p, o, mask, council: true }).boxed()),
        (w[6], (u(), pr()).prop_map(|(by, p)| Op::Exec { by, p }).boxed()),
        (w[7], (u(), prop::option::weighted(0.1, u())).prop_map(|(by, other)| Op::Claim { by, other }).boxed()),
        (w[8], (u(), dist_list()).prop_map(|(by, items)| Op::Dist { by, items }).boxed()),
        (w[9], prop_oneof![4 => u().prop_map(|by| Op::Sign { by }), 1 => Just(Op::SignAll)].boxed()),
        (w[10], (u(), any::<u8>(), pr()).prop_map(|(by, what, p)| Op::Attack { by, what, p }).boxed()),
        (w[11], (acts(p), prop_oneof![8 => Just(0u8), 1 => 1u8..4], gdep()).prop_map(|(acts, outcome, dep)| Op::Pass { acts, council: false, outcome, dep }).boxed()),
        (w[12], (cacts(p), prop_oneof![8 => Just(0u8), 1 => 1u8..4]).prop_map(|(acts, outcome)| Op::Pass { acts, council: true, outcome, dep: Dep::default() }).boxed()),
        (w[13], (pr(), -1i8..2).prop_map(|(p, off)| Op::ToCool { p, off }).boxed()),
        (1, (0u8..2, 1u32..1000).prop_map(|(asset, amt)| Op::Fund { asset, amt }).boxed()),
    ];
    v.retain(|x| x.0 > 0);
    prop::strategy::Union::new_weighted(v).boxed()
}
/// one operation, or a short scenario around one new proposal
fn chunk(p: &Prof) -> BoxedStrategy<Vec<Op>> {
    let outc = || prop_oneof![6 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 2 => Just(3u8)];
    let council = p.ops[3] > p.ops[2];
    let few = || prop_oneof![3 => Just(vec![]).boxed(), 2 => prop::collection::vec(act(p), 1..3).boxed()];
    let prop_ = move |p: &Prof| -> BoxedStrategy<Op> {
        if council {
            prop_oneof![3 => (0..N, cacts(p)).prop_map(|(by, acts)| Op::CPropose { by, acts }), 1 => (0..N, acts(p), gdep()).prop_map(|(by, acts, dep)| Op::Propose { by, acts, dep })].boxed()
        } else {
            let d = if p.dep > 0.3 { dep(p) } else { gdep() };
            (0..N, few(), d).prop_map(|(by, acts, dep)| Op::Propose { by, acts, dep }).boxed()
        }
    };
    let many = move || (outc(), 1u8..32, prop::bool::weighted(if council { 0.7 } else { 0.03 })).prop_map(|(o, mask, council)| Op::VoteMany { p: 200, o, mask, council });
    let weight = || {
        prop_oneof![
            (0..N, 1u32..60, any::<u8>()).prop_map(|(by, amt, k)| Op::Stake { by, for_: None, amt, k }),
            (0..N, any::<u32>(), prop::bool::weighted(0.3)).prop_map(|(by, amt, all)| Op::Unstake { by, amt, all }),
        ]
    };
    let one = op(p);
    let between = prop::collection::vec(prop_oneof![2 => op(p), 1 => weight().boxed()], 0..3);
    prop_oneof![
        // very many open proposals voted on by the same users, whose weights change
        3 => (0..N, 8u8..60, outc(), 1u8..32, prop::collection::vec(weight(), 1..4), prop::option::of(-1i8..2), prop::bool::weighted(if council { 0.7 } else { 0.1 })).prop_map(|(by, n, o, mask, d, off, council)| {
            let end = off.map(|off| Op::ToEnd { p: n / 2, off });
            std::iter::once(Op::Flood { by, n, o, mask, council }).chain(end).chain(d).collect()
        }),
        560 => one.prop_map(|o| vec![o]),
        // voting on it is over, nobody finalises it
        40 => (prop_(p), many(), many(), 0i8..3).prop_map(|(a, b, c, off)| vec![a, b, c, Op::ToEnd { p: 200, off }]),
        // voted on, then weights change
        40 => (prop_(p), many(), many(), prop::collection::vec(weight(), 1..3)).prop_map(|(a, b, c, d)| [vec![a, b, c], d].concat()),
        // decided early, around the cool-down
        40 => (prop_(p), many(), prop::option::of(many()), prop::option::of(-1i8..2), 0..N).prop_map(|(a, b, c, off, by)| {
            let mut v = vec![a, b];
            v.extend(c);
            v.extend(off.map(|off| Op::ToCool { p: 200, off }));
            v.push(Op::Exec { by, p: 200 });
            v
        }),
        // voted on, over, things happen, finalised
        40 => (prop_(p), many(), many(), -1i8..3, between, 0..N).prop_map(|(a, b, c, off, d, by)| [vec![a, b, c, Op::ToEnd { p: 200, off }], d, vec![Op::Exec { by, p: 200 }]].concat()),
    ]
    .boxed()
}
fn case(p: Prof) -> BoxedStrategy<Case> {
    let kinds = prop::strategy::Union::new_weighted(
        [Kind::Denom, Kind::Token, Kind::Nft, Kind::Multisig].into_iter().zip(p.kinds).filter(|x| x.1 > 0).map(|(k, w)| (w, Just(k).boxed())).collect::<Vec<_>>(),
    );
    (
        (kinds, any::<bool>(), gov_spec(&p), prop_oneof![3 => (0u64..3000).prop_map(Dur::Secs), 1 => (0u64..50).prop_map(Dur::Blocks)]),
        (
            prop::option::weighted(p.council, good_council()),
            prop::bool::weighted(p.attest),
            prop_oneof![3 => Just(31u8), 4 => any::<u8>()],
            prop::option::weighted(0.25, 0u32..20),
            prop_oneof![2 => Just(15u8), 3 => any::<u8>()],
            prop::collection::vec(prop_oneof![1 => Just(0u32), 6 => 1u32..40, 1 => 1u32..2000], 5),
        ),
        prop::collection::vec(chunk(&p), 3..p.len * 7 / 10).prop_map(|v| v.concat()),
    )
        .prop_map(|((kind, fresh_asset, gov, unlock), (council, attest, pre_sign, min_w, wl, init), ops)| Case { kind, fresh_asset, gov, unlock, council, attest, pre_sign, min_w, wl, init, ops })
        .boxed()
}

macro_rules! check {
    ($name:ident, $prof:expr, $cases:expr, $rule:expr, $nt:expr) => {
        pub struct $name;
        impl Check for $name {
            type Case = Case;
            fn strategy(&self) -> BoxedStrategy<Case> {
                case($prof)
            }
            fn run(&self, c: &Case, cov: &mut Cov) -> Res {
                let r = run_case(c, cov);
                let f: fn(&Cov) -> bool = $nt;
                cov.nontrivial = f(cov);
                r
            }
            fn cases(&self) -> (u64, u64) {
                $cases
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn assumptions(&self) -> Vec<&'static str> {
                vec![
                    "5 users, at most 7 proposals per history, whole-second clock, history length as generated",
                    "cw-multi-test and the cw20-base/cw721-base contracts stand for the chain and the assets; cross-chain transport is absent, so cross-chain actions fail",
                    "where the property leaves a choice (draws before the end, re-weighted standing results, rounding of a tenth of the period) the model accepts every reading",
                ]
            }
        }
    };
}

// the share of whole-DAO histories in checks whose first engine drives one contract directly
check!(D01, Prof { dep: 0.1, council: 0.3, attest: 0.02, ops: [4, 5, 5, 1, 14, 2, 9, 0, 0, 0, 0, 2, 1, 3], acts: [2, 2, 0, 0, 0, 0, 2, 0, 1, 0, 0, 0, 0], len: 22, bad: 0.05, ..Prof::base() }, (1_000, 40_000),
    "a proposal was voted on and finalised",
    |c| c.has("vote") && executed(c));
check!(D08, Prof { kinds: [4, 4, 4, 1], dep: 0.05, council: 0.1, attest: 0.05, ops: [9, 16, 2, 0, 3, 0, 2, 0, 1, 1, 1, 2, 0, 1], acts: [0, 4, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0], len: 24, bad: 0.05, ..Prof::base() }, (1_000, 40_000),
    "stakes were made and withdrawn",
    |c| c.has("stake") && c.has("unstake"));
check!(D12, Prof { dep: 0.05, council: 0.3, attest: 0.02, ops: [3, 9, 1, 0, 2, 0, 2, 7, 12, 0, 1, 5, 0, 0], acts: [0, 1, 0, 1, 0, 0, 0, 0, 4, 6, 5, 0, 0], len: 20, bad: 0.05, ..Prof::base() }, (1_000, 40_000),
    "a distribution succeeded",
    |c| c.has("distributed") || c.has("did-distribute_funds"));
check!(D16, Prof { dep: 0.1, council: 0.2, attest: 0.02, ops: [1, 2, 5, 2, 4, 1, 3, 0, 0, 0, 0, 10, 2, 0], acts: [0, 0, 1, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0], len: 14, bad: 0.2, ..Prof::base() }, (1_000, 40_000),
    "a whitelist update was executed or an invalid one refused",
    |c| c.has("did-update_asset_whitelist") || c.has("did-update_nft_whitelist") || c.has("refused-C16"));

fn executed(c: &Cov) -> bool {
    c.has("executed-after-end") || c.has("executed-early")
}
check!(C03, Prof::base(), (5_000, 150_000),
    "at least one proposal was finalised and another execution attempt was refused",
    |c| executed(c) && c.has("execute-refused"));
check!(C04, Prof { kinds: [4, 4, 3, 2], early: 0.9, dep: 0.1, council: 0.2, attest: 0.02, ops: [3, 4, 4, 1, 16, 1, 12, 0, 0, 0, 0, 0, 0, 8], acts: [2, 1, 0, 0, 0, 0, 3, 0, 1, 0, 0, 0, 0], len: 24, bad: 0.02, ..Prof::base() }, (5_000, 150_000),
    "a vote changed the standing result and an execution attempt was made before the end",
    |c| c.has("standing-changed") && (c.has("executed-early") || c.has("cool-down-blocked") || c.has("refused-C04")));
check!(C05, Prof { kinds: [4, 4, 4, 1], dep: 0.85, council: 0.1, attest: 0.03, ops: [6, 3, 9, 0, 8, 0, 8, 0, 0, 0, 0, 3, 0, 1], acts: [2, 1, 0, 0, 1, 0, 3, 0, 1, 0, 0, 0, 0], len: 22, bad: 0.1, ..Prof::base() }, (5_000, 150_000),
    "a deposit was taken and returned or confiscated",
    |c| c.has("deposit-returned") || c.has("deposit-confiscated"));
check!(C06, Prof { council: 0.95, dep: 0.1, attest: 0.03, ops: [4, 3, 1, 8, 2, 10, 7, 1, 2, 0, 1, 2, 4, 1], acts: [3, 1, 5, 2, 2, 3, 2, 1, 2, 1, 1, 1, 0], len: 20, bad: 0.2, ..Prof::base() }, (5_000, 150_000),
    "a council proposal was created and voted on, and some council operation was refused",
    |c| c.has("council-vote") && c.has("refused-C06"));
check!(C07, Prof { dep: 0.1, council: 0.3, attest: 0.02, ops: [4, 10, 5, 1, 12, 1, 5, 0, 1, 0, 1, 3, 0, 1], acts: [1, 1, 0, 0, 1, 0, 1, 0, 10, 0, 0, 0, 0], len: 24, bad: 0.05, ..Prof::base() }, (5_000, 150_000),
    "a weight change happened after a vote was cast",
    |c| c.has("vote") && (c.count("stake") + c.count("unstake") > 2 || c.has("did-modify_multisig_membership")));
check!(C14, Prof { dep: 0.05, council: 0.6, attest: 0.02, ops: [3, 8, 1, 0, 2, 0, 2, 5, 9, 0, 2, 7, 1, 0], acts: [0, 1, 1, 2, 0, 0, 0, 0, 6, 9, 3, 0, 0], len: 18, bad: 0.05, ..Prof::base() }, (5_000, 150_000),
    "a distribution succeeded",
    |c| c.has("distributed") || c.has("did-distribute_funds"));
check!(C17, Prof { dep: 0.15, council: 0.5, attest: 0.85, ops: [3, 6, 5, 2, 8, 3, 6, 5, 2, 7, 0, 4, 1, 0], acts: [2, 0, 0, 0, 1, 0, 2, 0, 2, 1, 0, 0, 5], len: 20, bad: 0.03, ..Prof::base() }, (5_000, 150_000),
    "an operation by a user who had not signed was refused and some user signed",
    |c| c.has("refused-C17") && c.has("signed"));
check!(C18, Prof { dep: 0.3, council: 0.2, attest: 0.02, ops: [3, 5, 4, 1, 6, 0, 5, 0, 0, 0, 0, 8, 0, 1], acts: [1, 14, 1, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0], len: 18, bad: 0.2, ..Prof::base() }, (5_000, 150_000),
    "a governance settings change was executed or refused",
    |c| c.has("did-update_gov_config") || c.has("refused-C18") || c.has("passed-actions-failed"));
check!(C27, Prof { dep: 0.4, council: 0.3, attest: 0.02, ops: [2, 3, 4, 2, 5, 1, 4, 0, 0, 0, 1, 10, 2, 0], acts: [3, 3, 3, 3, 4, 2, 8, 3, 4, 3, 2, 1, 1], len: 14, bad: 0.25, ..Prof::base() }, (5_000, 150_000),
    "several actions were applied together, or rolled back together, or an invalid proposal was refused",
    |c| c.has("passed-several-actions") || c.has("rollback-several-actions") || c.has("refused-C27"));
check!(C28, Prof { dep: 0.3, council: 0.2, attest: 0.02, ops: [2, 3, 4, 1, 5, 0, 4, 2, 1, 0, 5, 9, 1, 0], acts: [0, 1, 0, 2, 9, 0, 2, 7, 1, 6, 0, 0, 0], len: 16, bad: 0.12, ..Prof::base() }, (5_000, 150_000),
    "a proposal moving treasury assets was executed",
    |c| c.has("did-request_funding_from_dao") || c.has("did-execute_treasury_msgs") || c.has("did-distribute_funds") || c.has("passed-actions-failed"));
check!(C29, Prof { dep: 0.15, council: 0.4, attest: 0.02, kinds: [2, 2, 2, 6], ops: [2, 3, 3, 2, 4, 1, 4, 0, 1, 0, 2, 10, 3, 0], acts: [9, 2, 6, 1, 0, 1, 0, 0, 6, 0, 4, 0, 0], len: 16, bad: 0.1, ..Prof::base() }, (5_000, 150_000),
    "a metadata, council, membership or minimum-weight update was executed",
    |c| c.has("did-update_metadata") || c.has("did-update_council") || c.has("did-modify_multisig_membership") || c.has("did-update_minimum_weight_for_rewards"));
