//! E12: moving a legacy DAO's stakes and claims out of its old contract. C26.
//! The real treasury runs on generated legacy state (token, NFT and multisig DAOs); steps of any
//! sizes, by anybody, interleave with members using the new membership contract. What each step
//! moves is read off both contracts and compared with the legacy population.
use crate::fw::*;
use crate::world::*;
use crate::wrap::Wrapped;
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::{Addr, Storage, Uint128};
use cw_storage_plus::{Index, IndexList, IndexedMap, Item, Map, MultiIndex, SnapshotItem, Strategy as Snap};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const P: &[PropId] = &["C26"];
const UNLOCK: u64 = 300;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Token,
    Nft,
    Multisig,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Stage {
    Absent,
    NotStarted,
    InProgress,
    Completed,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LClaim {
    /// amount (token), or how many NFTs
    size: u32,
    /// in the future if positive, seconds or blocks
    at: i16,
    height: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Step { limit: Option<u32>, by: u8 },
    Stake { user: u8, amount: u32 },
    Unstake { user: u8, part: u8 },
    Claim { user: u8 },
    Wait { secs: u16, blocks: u8 },
    /// migrate the old contract to its own code
    Recode,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    stage: Stage,
    /// (user, amount) for tokens and multisig; one NFT of the user each for NFTs
    stakes: Vec<(u16, u32)>,
    claims: Vec<(u16, Vec<LClaim>)>,
    extra: u32,
    init_limit: Option<u32>,
    /// earlier totals: (blocks or seconds before now, total)
    history: Vec<(u16, u32)>,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct RawNft {
    staker: Addr,
    token_id: String,
}
struct RawIdx<'a> {
    staker: MultiIndex<'a, Addr, RawNft, String>,
}
impl IndexList<RawNft> for RawIdx<'_> {
    fn get_indexes(&'_ self) -> Box<dyn Iterator<Item = &'_ dyn Index<RawNft>> + '_> {
        let v: Vec<&dyn Index<RawNft>> = vec![&self.staker];
        Box::new(v.into_iter())
    }
}
fn raw_nfts<'a>() -> IndexedMap<'a, String, RawNft, RawIdx<'a>> {
    IndexedMap::new("nft_stakes", RawIdx { staker: MultiIndex::new(|_, s| s.staker.clone(), "nft_stakes", "nft_stakes__staker") })
}
const RAW_STAKES: Map<Addr, Uint128> = Map::new("stakes");
const RAW_MULTISIG: Map<Addr, Uint128> = Map::new("multisig_members");
const RAW_CLAIMS: Map<&Addr, Value> = Map::new("claims");
const RAW_TYPE: Item<String> = Item::new("dao_type");
const RAW_ASSET: Item<Addr> = Item::new("dao_membership_contract");
const RAW_INFO: Item<Value> = Item::new("migration_info");
const RAW_STAGE: Item<String> = Item::new("migration_stage");
const RAW_TOT_H: SnapshotItem<Uint128> = SnapshotItem::new(
    "total_staked_block_height_snapshot",
    "total_staked_block_height_checkpoints",
    "total_staked_block_height_changelog",
    Snap::EveryBlock,
);
const RAW_TOT_T: SnapshotItem<Uint128> = SnapshotItem::new(
    "total_staked_time_seconds_snapshot",
    "total_staked_time_seconds_checkpoints",
    "total_staked_time_seconds_changelog",
    Snap::EveryBlock,
);

fn u(i: u16) -> String {
    format!("user{i}")
}

/// an outstanding claim: amount for tokens, the NFT otherwise, and the release
type C = (String, String, String);
type Bag = BTreeMap<C, u32>;
fn put(b: &mut Bag, c: C) {
    *b.entry(c).or_default() += 1;
}
/// a - b, or the claim missing from a
fn minus(a: &Bag, b: &Bag) -> Result<Bag, C> {
    let mut r = a.clone();
    for (k, n) in b {
        match r.get_mut(k) {
            Some(m) if *m >= *n => *m -= n,
            _ => return Err(k.clone()),
        }
    }
    r.retain(|_, n| *n > 0);
    Ok(r)
}
fn size(b: &Bag) -> u32 {
    b.values().sum()
}

/// the part of a state a step may change
#[derive(Clone, Debug, Default, PartialEq)]
struct Book {
    weight: BTreeMap<String, u128>,
    nfts: BTreeMap<String, String>,
    claims: Bag,
}

struct S {
    w: World,
    kind: Kind,
    asset: Addr,
    member: Addr,
    old: Addr,
    old_code: u64,
    users: Vec<String>,
    /// not yet moved
    left: Book,
    /// users with a zero entry in the legacy stakes
    zeros: u32,
    /// recorded in the new membership
    new: Book,
    /// legacy weights and totals, fixed
    legacy: BTreeMap<String, u128>,
    totals: Vec<(Value, u128)>,
    extra: u128,
    wallet: BTreeMap<String, u128>,
    wallet_nft: BTreeMap<String, String>,
    next: u32,
    stage: Stage,
}

fn release(at: &Value) -> String {
    at.to_string()
}

impl S {
    fn build(c: &Case) -> Result<S, String> {
        let mut w = World::new();
        w.advance(5_000_000_000_000, 100_000);
        let (e, _) = standalone_enterprise(&mut w, "controller");
        let (now, height) = (w.now(), w.height());
        let asset = match c.kind {
            Kind::Nft => w.new_cw721("minter"),
            _ => w.new_cw20("STK", &[]),
        };
        let member = match c.kind {
            Kind::Token => w.inst(w.codes.token, ECO_ADMIN, &json!({"enterprise_contract": e, "token_contract": asset, "unlocking_period": {"time": UNLOCK}, "weight_change_hooks": null}), None)?,
            Kind::Nft => w.inst(w.codes.nft, ECO_ADMIN, &json!({"enterprise_contract": e, "nft_contract": {"cw721": {"contract": asset}}, "unlocking_period": {"time": UNLOCK}, "weight_change_hooks": null}), None)?,
            Kind::Multisig => w.inst(w.codes.multisig, ECO_ADMIN, &json!({"enterprise_contract": e, "initial_weights": null, "weight_change_hooks": null}), None)?,
        };
        let mut legacy: BTreeMap<String, u128> = BTreeMap::new();
        let mut left = Book::default();
        let mut next = 0u32;
        let mut owned: Vec<String> = vec![];
        for (x, a) in &c.stakes {
            match c.kind {
                Kind::Nft => {
                    let t = format!("t{next}");
                    next += 1;
                    left.nfts.insert(t.clone(), u(*x));
                    owned.push(t);
                    *legacy.entry(u(*x)).or_default() += 1;
                }
                _ => {
                    legacy.entry(u(*x)).or_insert(*a as u128);
                }
            }
        }
        if c.kind != Kind::Multisig {
            left.weight = legacy.iter().filter(|(_, v)| **v > 0).map(|(k, v)| (k.clone(), *v)).collect();
        }
        let zeros = if c.kind == Kind::Token { legacy.values().filter(|v| **v == 0).count() as u32 } else { 0 };
        let mut raw_claims: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for (x, l) in &c.claims {
            if c.kind == Kind::Multisig {
                break;
            }
            let e = raw_claims.entry(u(*x)).or_default();
            for k in l {
                let at = if k.height {
                    json!({"height": ((height as i64 + k.at as i64).max(1)).to_string()})
                } else {
                    json!({"timestamp": (now.nanos() as i128 + k.at as i128 * 1_000_000_000 + k.at as i128 % 3 * 300_000_001).to_string()})
                };
                if c.kind == Kind::Token {
                    let n = k.size.max(1);
                    e.push(json!({"asset": {"cw20": {"amount": n.to_string()}}, "release_at": at}));
                    put(&mut left.claims, (u(*x), n.to_string(), release(&at)));
                } else {
                    let ts: Vec<String> = (0..k.size % 4)
                        .map(|_| {
                            next += 1;
                            format!("t{}", next - 1)
                        })
                        .collect();
                    for t in &ts {
                        owned.push(t.clone());
                        put(&mut left.claims, (u(*x), t.clone(), release(&at)));
                    }
                    e.push(json!({"asset": {"cw721": {"tokens": ts}}, "release_at": at}));
                }
            }
        }
        // totals as they were at earlier times, then now
        let mut totals = vec![];
        let mut hist: Vec<(u64, u32)> = c.history.iter().map(|(d, t)| (*d as u64 + 1, *t)).collect();
        hist.sort_by(|a, b| b.0.cmp(&a.0));
        hist.dedup_by_key(|x| x.0);
        let total: u128 = legacy.values().sum();
        let mut series: Vec<(u64, u128)> = hist.iter().map(|(d, t)| (*d, *t as u128)).collect();
        series.push((0, total));
        for i in 0..series.len() {
            // a snapshot taken at a moment shows from the next one
            if series[i].0 > 0 && series.get(i + 1).map(|n| n.0 < series[i].0).unwrap_or(true) {
                totals.push((json!({"at_height": height - series[i].0 + 1}), series[i].1));
                totals.push((json!({"at_time": now.minus_seconds(series[i].0 - 1).nanos().to_string()}), series[i].1));
            }
        }
        totals.push((json!({"never": {}}), total));
        totals.push((json!({"at_height": height + 1}), total));
        totals.push((json!({"at_time": now.plus_seconds(1).nanos().to_string()}), total));
        let (lg, lc, lk, lasset, lmember, lstage, ln) = (legacy.clone(), raw_claims, c.kind, asset.clone(), member.clone(), c.stage, left.nfts.clone());
        let vi = serde_json::to_value(version_info(current_version(), &w.codes)).unwrap();
        let init_limit = c.init_limit;
        let code = Wrapped::with_state(treasury_code(), move |s: &mut dyn Storage| {
            RAW_TYPE.save(s, &match lk { Kind::Token => "token", Kind::Nft => "nft", Kind::Multisig => "multisig" }.to_string()).unwrap();
            RAW_ASSET.save(s, &lasset).unwrap();
            match lk {
                Kind::Token => lg.iter().for_each(|(k, v)| RAW_STAKES.save(s, Addr::unchecked(k), &Uint128::new(*v)).unwrap()),
                Kind::Multisig => lg.iter().for_each(|(k, v)| RAW_MULTISIG.save(s, Addr::unchecked(k), &Uint128::new(*v)).unwrap()),
                Kind::Nft => ln.iter().for_each(|(t, o)| raw_nfts().save(s, t.clone(), &RawNft { staker: Addr::unchecked(o), token_id: t.clone() }).unwrap()),
            }
            for (k, v) in &lc {
                RAW_CLAIMS.save(s, &Addr::unchecked(k), &json!(v)).unwrap();
            }
            for (d, t) in &series {
                RAW_TOT_H.save(s, &Uint128::new(*t), height - d).unwrap();
                RAW_TOT_T.save(s, &Uint128::new(*t), now.seconds() - d).unwrap();
            }
            RAW_INFO
                .save(
                    s,
                    &json!({"version_info": vi, "enterprise_contract": "enterprise", "enterprise_governance_controller_contract": "controller", "enterprise_outposts_contract": "outposts",
                        "membership_contract": lmember, "council_membership_contract": "council", "initial_submsgs_limit": init_limit}),
                )
                .unwrap();
            match lstage {
                Stage::Absent => {}
                Stage::NotStarted => RAW_STAGE.save(s, &"migration_not_started".into()).unwrap(),
                Stage::InProgress => RAW_STAGE.save(s, &"migration_in_progress".into()).unwrap(),
                Stage::Completed => RAW_STAGE.save(s, &"migration_completed".into()).unwrap(),
            }
        });
        let old_code = w.app.store_code(code);
        let old = w.inst(old_code, ECO_ADMIN, &json!({"admin": e, "asset_whitelist": null, "nft_whitelist": null}), Some(ECO_ADMIN))?;
        let mut wallet_nft = BTreeMap::new();
        match c.kind {
            Kind::Nft => {
                for t in &owned {
                    w.mint_nft(&asset, "minter", t, old.as_str());
                }
                for k in 0..c.extra % 3 {
                    let t = format!("x{k}");
                    w.mint_nft(&asset, "minter", &t, old.as_str());
                    wallet_nft.insert(t, old.to_string());
                }
            }
            _ => {
                let sum: u128 = left.weight.values().sum::<u128>() + left.claims.iter().map(|(k, n)| k.1.parse::<u128>().unwrap() * *n as u128).sum::<u128>() + c.extra as u128;
                if sum > 0 {
                    w.exec(ECO_ADMIN, &asset, &json!({"mint": {"recipient": old, "amount": sum.to_string()}}), &[])?;
                }
            }
        }
        let mut users: Vec<String> = c.stakes.iter().map(|s| u(s.0)).chain(c.claims.iter().map(|s| u(s.0))).chain((0..5).map(u)).collect();
        users.sort();
        users.dedup();
        Ok(S {
            w,
            kind: c.kind,
            asset,
            member,
            old,
            old_code,
            users,
            left,
            zeros,
            new: Book::default(),
            legacy,
            totals,
            extra: c.extra as u128,
            wallet: BTreeMap::new(),
            wallet_nft,
            next,
            stage: c.stage,
        })
    }
    fn flag(&self, q: &str, field: &str, what: &str) -> Res<bool> {
        let v: Value = self.w.query(&self.old, &json!({q: {}})).map_err(|e| dv(P, format!("{what}: {e}")))?;
        v[field].as_bool().ok_or_else(|| dv(P, format!("{what}: {q} answers {v}")))
    }
    fn pending(&self, what: &str) -> Res<(bool, bool)> {
        Ok((
            self.flag("has_incomplete_v2_migration", "has_incomplete_migration", what)?,
            self.flag("has_unmoved_stakes_or_claims", "has_unmoved_stakes_or_claims", what)?,
        ))
    }
    fn items_left(&self) -> u32 {
        let s = if self.kind == Kind::Nft { self.left.nfts.len() } else { self.left.weight.len() };
        s as u32 + size(&self.left.claims)
    }
    /// what the new membership records
    fn read(&self, what: &str) -> Res<Book> {
        let fail = |e: String| dv(P, format!("{what}: {e}"));
        let mut b = Book::default();
        for x in &self.users {
            let v: Value = self.w.query(&self.member, &json!({"user_weight": {"user": x}})).map_err(fail)?;
            let n: u128 = v["weight"].as_str().and_then(|s| s.parse().ok()).ok_or_else(|| fail(format!("weight {v}")))?;
            if n > 0 {
                b.weight.insert(x.clone(), n);
            }
            if self.kind == Kind::Nft {
                let mut after: Option<String> = None;
                loop {
                    let v: Value = self.w.query(&self.member, &json!({"user_stake": {"user": x, "start_after": after, "limit": 50}})).map_err(fail)?;
                    let ts: Vec<String> = serde_json::from_value(v["tokens"].clone()).map_err(|e| fail(e.to_string()))?;
                    for t in &ts {
                        b.nfts.insert(t.clone(), x.clone());
                    }
                    if ts.len() < 50 {
                        break;
                    }
                    after = ts.last().cloned();
                }
            }
            if self.kind == Kind::Multisig {
                continue;
            }
            let v: Value = self.w.query(&self.member, &json!({"claims": {"user": x}})).map_err(fail)?;
            for k in v["claims"].as_array().ok_or_else(|| fail(format!("claims {v}")))? {
                let r = release(&k["release_at"]);
                if self.kind == Kind::Token {
                    put(&mut b.claims, (x.clone(), k["amount"].as_str().unwrap_or("?").to_string(), r));
                } else {
                    for t in k["nft_ids"].as_array().into_iter().flatten() {
                        put(&mut b.claims, (x.clone(), t.as_str().unwrap_or("?").to_string(), r.clone()));
                    }
                }
            }
        }
        Ok(b)
    }
    /// `got` must be `self.new` plus a part of `self.left`; moves that part over and counts it
    fn moved(&mut self, got: Book, what: &str) -> Res<u32> {
        let mut n = 0;
        match minus(&got.claims, &self.new.claims) {
            Err(c) => return div(P, format!("{what}: claim {c:?} disappeared from the new membership")),
            Ok(m) => match minus(&self.left.claims, &m) {
                Err(c) => return div(P, format!("{what}: claim {c:?} appeared in the new membership, but is not an unmoved legacy claim")),
                Ok(l) => {
                    n += size(&m);
                    self.left.claims = l;
                    self.new.claims = got.claims;
                }
            },
        }
        if self.kind == Kind::Nft {
            for (t, o) in &got.nfts {
                match self.new.nfts.get(t) {
                    Some(x) => ensure_eq_p!(o, x, P, "{what}: staker of {t}"),
                    None => {
                        ensure_eq_p!(self.left.nfts.remove(t), Some(o.clone()), P, "{what}: unmoved legacy staker of {t}, now staked in the new membership");
                        *self.left.weight.entry(o.clone()).or_insert(1) -= 1;
                        *self.new.weight.entry(o.clone()).or_default() += 1;
                        n += 1;
                    }
                }
            }
            for t in self.new.nfts.keys() {
                ensure_p!(got.nfts.contains_key(t), P, "{what}: staked {t} disappeared from the new membership");
            }
            self.new.nfts = got.nfts;
        } else {
            for x in self.users.clone() {
                let (a, b) = (self.new.weight.get(&x).copied().unwrap_or(0), got.weight.get(&x).copied().unwrap_or(0));
                if a != b {
                    let l = self.left.weight.remove(&x).unwrap_or(0);
                    ensure_eq_p!(b, a + l, P, "{what}: weight of {x} in the new membership, having had {a} and {l} unmoved");
                    self.new.weight.insert(x, b);
                    n += 1;
                }
            }
        }
        Ok(n)
    }
    fn step(&mut self, limit: Option<u32>, by: u8, what: &str, cov: &mut Cov) -> Res<u32> {
        let (incomplete, unmoved) = self.pending(what)?;
        let started = !matches!(self.stage, Stage::Absent | Stage::NotStarted);
        let by = ["user0", "user1", "stranger", "controller", ECO_ADMIN][by as usize % 5];
        let old = self.old.clone();
        let r = self.w.exec(by, &old, &json!({"perform_next_migration_step": {"submsgs_limit": limit}}), &[]);
        let allowed = started && (incomplete || unmoved);
        ensure_eq_p!(r.is_ok(), allowed, P, "{what}: step with in-progress={incomplete}, unmoved={unmoved} ({:?})", r.err());
        let before = self.items_left();
        let got = self.read(what)?;
        let n = self.moved(got, what)?;
        if !allowed {
            ensure_eq_p!(n, 0, P, "{what}: items moved by a refused step");
            cov.hit(if started { "refused-completed" } else { "refused-not-started" });
            return Ok(0);
        }
        let lim = limit.unwrap_or(if self.kind == Kind::Nft { 20 } else { 100 });
        if self.kind == Kind::Token {
            ensure_p!(n <= lim, P, "{what}: moved {n} items, more than {lim}");
        }
        if lim > self.zeros && before > 0 {
            ensure_p!(n > 0, P, "{what}: nothing moved although {before} items are left");
        }
        if n > 0 {
            cov.hit("moved");
            if self.items_left() > 0 {
                cov.hit("partial");
            }
        }
        if lim == 0 {
            cov.hit("limit-0");
        }
        let (i2, _) = self.pending(what)?;
        ensure_p!(i2 || self.items_left() == 0, P, "{what}: migration reported complete with {} items left", self.items_left());
        Ok(n)
    }
    fn user(&self, k: u8) -> String {
        self.users[k as usize % self.users.len()].clone()
    }
    fn op(&mut self, op: &Op, what: &str, cov: &mut Cov) -> Res {
        let now = self.w.now().seconds();
        let (m, asset) = (self.member.clone(), self.asset.clone());
        match op {
            Op::Step { limit, by } => {
                self.step(*limit, *by, what, cov)?;
            }
            Op::Wait { secs, blocks } => self.w.advance(*secs as u64 * 1_000_000_000, *blocks as u64),
            Op::Recode => {
                let (old, code) = (self.old.clone(), self.old_code);
                let r = self.w.exec_msg(ECO_ADMIN, cosmwasm_std::CosmosMsg::Wasm(cosmwasm_std::WasmMsg::Migrate { contract_addr: old.to_string(), new_code_id: code, msg: cosmwasm_std::Binary::from(b"{}".to_vec()) }));
                ensure_p!(r.is_ok(), P, "{what}: {:?}", r.err());
                cov.hit("recode");
            }
            Op::Stake { user, amount } => {
                let x = self.user(*user);
                match self.kind {
                    Kind::Multisig => {}
                    Kind::Token => {
                        let a = amount.max(&1);
                        self.w.exec(ECO_ADMIN, &asset, &json!({"mint": {"recipient": x, "amount": a.to_string()}}), &[]).map_err(|e| dv(P, e))?;
                        let r = self.w.cw20_send(&asset, &x, &m, *a as u128, &json!({"stake": {"user": x}}));
                        ensure_p!(r.is_ok(), P, "{what}: {:?}", r.err());
                        *self.new.weight.entry(x).or_default() += *a as u128;
                        cov.hit("stake");
                    }
                    Kind::Nft => {
                        let t = format!("t{}", self.next);
                        self.next += 1;
                        self.w.mint_nft(&asset, "minter", &t, &x);
                        let r = self.w.send_nft(&asset, &x, &m, &t, &json!({"stake": {"user": x}}));
                        ensure_p!(r.is_ok(), P, "{what}: {:?}", r.err());
                        *self.new.weight.entry(x.clone()).or_default() += 1;
                        self.new.nfts.insert(t, x);
                        cov.hit("stake");
                    }
                }
            }
            Op::Unstake { user, part } => {
                let st: Vec<String> = self.new.weight.iter().filter(|(_, v)| **v > 0).map(|(k, _)| k.clone()).collect();
                if st.is_empty() || self.kind == Kind::Multisig {
                    return Ok(());
                }
                let x = st[*user as usize % st.len()].clone();
                let have = self.new.weight[&x];
                let at = release(&json!({"timestamp": ((now + UNLOCK) * 1_000_000_000 + self.w.now().subsec_nanos()).to_string()}));
                if self.kind == Kind::Token {
                    let a = (have * (*part as u128 + 1) / 256).max(1);
                    let r = self.w.exec(&x, &m, &json!({"unstake": {"amount": a.to_string()}}), &[]);
                    ensure_p!(r.is_ok(), P, "{what}: {x} cannot unstake {a} of {have}: {:?}", r.err());
                    *self.new.weight.get_mut(&x).unwrap() -= a;
                    put(&mut self.new.claims, (x, a.to_string(), at));
                } else {
                    let mine: Vec<String> = self.new.nfts.iter().filter(|(_, o)| **o == x).map(|(t, _)| t.clone()).collect();
                    let t = mine[*part as usize % mine.len()].clone();
                    let r = self.w.exec(&x, &m, &json!({"unstake": {"nft_ids": [t]}}), &[]);
                    ensure_p!(r.is_ok(), P, "{what}: {x} cannot unstake {t}: {:?}", r.err());
                    *self.new.weight.get_mut(&x).unwrap() -= 1;
                    self.new.nfts.remove(&t);
                    put(&mut self.new.claims, (x, t, at));
                }
                cov.hit("unstake");
            }
            Op::Claim { user } => {
                if self.kind == Kind::Multisig {
                    return Ok(());
                }
                let cl: Vec<String> = self.new.claims.keys().map(|k| k.0.clone()).collect();
                if cl.is_empty() {
                    return Ok(());
                }
                let x = cl[*user as usize % cl.len()].clone();
                let (t, h) = (self.w.now().nanos() as u128, self.w.height() as u128);
                let due: Bag = self
                    .new
                    .claims
                    .iter()
                    .filter(|(k, _)| {
                        let v: Value = serde_json::from_str(&k.2).unwrap();
                        let n = |f: &str| v[f].as_str().and_then(|s| s.parse::<u128>().ok());
                        k.0 == x && (n("timestamp").is_some_and(|r| r <= t) || n("height").is_some_and(|r| r <= h))
                    })
                    .map(|(k, n)| (k.clone(), *n))
                    .collect();
                let r = self.w.exec(&x, &m, &json!({"claim": {"user": null}}), &[]);
                ensure_p!(r.is_ok() || due.is_empty(), P, "{what}: {x} cannot claim {due:?}: {:?}", r.err());
                if r.is_ok() {
                    for (k, n) in &due {
                        if self.kind == Kind::Token {
                            *self.wallet.entry(x.clone()).or_default() += k.1.parse::<u128>().unwrap() * *n as u128;
                        } else {
                            self.wallet_nft.insert(k.1.clone(), x.clone());
                        }
                        cov.hit("claimed");
                    }
                    self.new.claims = minus(&self.new.claims, &due).unwrap();
                }
            }
        }
        Ok(())
    }
    fn check(&mut self, what: &str) -> Res {
        let fail = |e: String| dv(P, format!("{what}: {e}"));
        let mut got = self.read(what)?;
        self.new.weight.retain(|_, v| *v > 0);
        self.left.weight.retain(|_, v| *v > 0);
        got.weight.retain(|_, v| *v > 0);
        ensure_eq_p!(got, self.new, P, "{what}: stakes and claims of the new membership");
        let v: Value = self.w.query(&self.member, &json!({"total_weight": {"expiration": {"never": {}}}})).map_err(fail)?;
        ensure_eq_p!(v["total_weight"], json!(self.new.weight.values().sum::<u128>().to_string()), P, "{what}: total weight of the new membership");
        // every item is backed where it is recorded
        match self.kind {
            Kind::Token => {
                let back = |b: &Book| b.weight.values().sum::<u128>() + b.claims.iter().map(|(k, n)| k.1.parse::<u128>().unwrap() * *n as u128).sum::<u128>();
                ensure_eq_p!(self.w.cw20(&self.asset, self.member.as_str()), back(&self.new), P, "{what}: tokens of the new membership");
                ensure_eq_p!(self.w.cw20(&self.asset, self.old.as_str()), back(&self.left) + self.extra, P, "{what}: tokens of the old contract");
                for x in &self.users {
                    ensure_eq_p!(self.w.cw20(&self.asset, x), self.wallet.get(x).copied().unwrap_or(0), P, "{what}: tokens of {x}");
                }
            }
            Kind::Nft => {
                let owner = |t: &str| self.w.nft_owner(&self.asset, t);
                for t in self.new.nfts.keys().chain(self.new.claims.keys().map(|k| &k.1)) {
                    ensure_eq_p!(owner(t), Some(self.member.to_string()), P, "{what}: owner of {t}");
                }
                for t in self.left.nfts.keys().chain(self.left.claims.keys().map(|k| &k.1)) {
                    ensure_eq_p!(owner(t), Some(self.old.to_string()), P, "{what}: owner of {t}");
                }
                for (t, o) in &self.wallet_nft {
                    ensure_eq_p!(owner(t), Some(o.clone()), P, "{what}: owner of {t}");
                }
            }
            Kind::Multisig => {
                ensure_eq_p!(self.w.cw20(&self.asset, self.old.as_str()), self.extra, P, "{what}: tokens of the old contract");
            }
        }
        // the old contract keeps answering for the time before the migration
        for x in &self.users {
            let v: Value = self.w.query(&self.old, &json!({"user_weight": {"user": x}})).map_err(fail)?;
            ensure_eq_p!(v["weight"], json!(self.legacy.get(x).copied().unwrap_or(0).to_string()), P, "{what}: old contract's weight of {x}");
        }
        for (at, t) in &self.totals {
            let v: Value = self.w.query(&self.old, &json!({"total_weight": {"expiration": at}})).map_err(fail)?;
            ensure_eq_p!(v["total_weight"], json!(t.to_string()), P, "{what}: old contract's total weight at {at}");
        }
        let (_, unmoved) = self.pending(what)?;
        if self.items_left() > 0 {
            ensure_p!(unmoved, P, "{what}: nothing reported unmoved with {} items left", self.items_left());
        }
        Ok(())
    }
}

fn lclaim() -> BoxedStrategy<LClaim> {
    (prop_oneof![3 => 0u32..8, 1 => 1u32..2_000_000], -400i16..1200, prop_oneof![3 => Just(false), 1 => Just(true)]).prop_map(|(size, at, height)| LClaim { size, at, height }).boxed()
}
fn limit() -> BoxedStrategy<Option<u32>> {
    prop_oneof![3 => (1u32..5).prop_map(Some), 2 => (0u32..12).prop_map(Some), 1 => Just(None), 1 => (10u32..300).prop_map(Some), 1 => Just(Some(u32::MAX))].boxed()
}
pub struct C26;
impl Check for C26 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            6 => (limit(), 0u8..5).prop_map(|(limit, by)| Op::Step { limit, by }),
            2 => (any::<u8>(), 1u32..1_000_000).prop_map(|(user, amount)| Op::Stake { user, amount }),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(user, part)| Op::Unstake { user, part }),
            2 => any::<u8>().prop_map(|user| Op::Claim { user }),
            2 => (0u16..500, 0u8..200).prop_map(|(secs, blocks)| Op::Wait { secs, blocks }),
            1 => Just(Op::Recode)
        ];
        let kind = prop_oneof![5 => Just(Kind::Token), 5 => Just(Kind::Nft), 1 => Just(Kind::Multisig)];
        let stage = prop_oneof![7 => Just(Stage::InProgress), 2 => Just(Stage::Completed), 1 => Just(Stage::NotStarted), 1 => Just(Stage::Absent)];
        let amount = prop_oneof![1 => Just(0u32), 8 => 1u32..50, 3 => 1u32..u32::MAX];
        let small = (
            prop::collection::vec((0u16..9, amount.clone()), 0..12),
            prop::collection::vec((0u16..9, prop::collection::vec(lclaim(), 0..4)), 0..7),
        );
        let big = (
            prop::collection::vec((0u16..160, amount), 15..150),
            prop::collection::vec((0u16..160, prop::collection::vec(lclaim(), 1..3)), 0..40),
        );
        (
            kind,
            stage,
            prop_oneof![12 => small.boxed(), 1 => big.boxed()],
            0u32..1000,
            limit(),
            prop::collection::vec((0u16..5000, 0u32..1000), 0..4),
            prop::collection::vec(op, 1..16),
        )
            .prop_map(|(kind, stage, (stakes, claims), extra, init_limit, history, ops)| Case { kind, stage, stakes, claims, extra, init_limit, history, ops })
            .boxed()
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let mut s = S::build(c).map_err(|e| dv(P, format!("cannot be set up: {e}")))?;
        s.check("start")?;
        let population = s.items_left();
        for (k, op) in c.ops.iter().enumerate() {
            let what = format!("op {k} {op:?}");
            s.op(op, &what, cov)?;
            s.check(&what)?;
        }
        // finish the migration
        if !matches!(c.stage, Stage::Absent | Stage::NotStarted) {
            for k in 0..40 {
                let what = format!("finishing step {k}");
                let (i, un) = s.pending(&what)?;
                if !i && !un {
                    break;
                }
                s.step(None, k, &what, cov)?;
            }
            s.check("end")?;
            ensure_eq_p!(s.items_left(), 0, P, "end: items left");
            let (i, un) = s.pending("end")?;
            ensure_p!(!i && !un, P, "end: migration still reported unfinished");
            s.step(Some(5), 1, "after the end", cov)?;
            cov.hit(match c.kind { Kind::Token => "finished-token", Kind::Nft => "finished-nft", Kind::Multisig => "finished-multisig" });
        } else {
            ensure_eq_p!(s.items_left(), population, P, "end: items moved without a migration");
        }
        cov.nontrivial = cov.has("partial") && population >= 3;
        if population > 60 {
            cov.hit("large");
        }
        Ok(())
    }
    fn cases(&self) -> (u64, u64) {
        (8_000, 100_000)
    }
    fn rule(&self) -> &'static str {
        "at least three legacy stakes and claims existed and some step moved a part of them, leaving others for later steps"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "legacy state is written in the storage layout the treasury reads; token DAOs hold only token claims and NFT DAOs only NFT claims",
            "the old contract holds at least the assets its stakes and claims stand for",
        ]
    }
}
