//! E13: paginated listings. C25.
//! Every listing of the system over generated populations: walked with several page sizes, from
//! arbitrary existing and missing starting points, with filters, against the population itself.
use crate::dao::*;
use crate::e2_member::Kind;
use crate::fw::*;
use crate::world::*;
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::Addr;
use enterprise_versioning_api::api::{AddVersionMsg, Version};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

const P: &[PropId] = &["C25"];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum MKind {
    Denom,
    Token,
    Nft,
    Multisig,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    /// (user, weight) staked or set; then some users leave
    Members { kind: MKind, set: Vec<(u16, u32)>, leave: Vec<u16> },
    /// (user, token); then some tokens are unstaked
    Nfts { staked: Vec<(u8, u16)>, out: Vec<u16> },
    /// fate per poll (0 open, 1 passed, 2 rejected) and votes (poll, voter, outcome)
    Polls { fates: Vec<u8>, votes: Vec<(u8, u16, u8)> },
    /// (council, fate) per proposal; voters of the proposal to list
    Proposals { list: Vec<(bool, u8)>, voters: Vec<u8>, members: u8 },
    Daos { n: u8, codes: u8 },
    Versions(Vec<(u8, u8, u8)>),
    Whitelist { natives: Vec<u16>, cw20s: Vec<u16>, nfts: Vec<u16>, gone: Vec<u16> },
    Treasuries(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    what: What,
    sizes: Vec<Option<u16>>,
    probes: Vec<u16>,
    miss: Vec<u16>,
}

type Item = (Value, Value);
struct Listing<'a> {
    name: String,
    fetch: Box<dyn Fn(Option<&Value>, Option<u32>) -> Result<Vec<Item>, String> + 'a>,
    /// a missing starting point means "after where it would be"
    missing: Option<Box<dyn Fn(u16) -> Value + 'a>>,
    num: bool,
}

/// numbers are compared as such, also in decimal notation where the listing's keys are numbers
fn cmp(num: bool, a: &Value, b: &Value) -> Ordering {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_u64().cmp(&y.as_u64()),
        (Value::String(x), Value::String(y)) => match (x.parse::<u64>(), y.parse::<u64>()) {
            (Ok(p), Ok(q)) if num => p.cmp(&q),
            _ => x.as_bytes().cmp(y.as_bytes()),
        },
        (Value::Object(x), Value::Object(y)) => {
            let f = |o: &serde_json::Map<String, Value>| ["major", "minor", "patch"].map(|k| o.get(k).and_then(|v| v.as_u64()).unwrap_or(0));
            f(x).cmp(&f(y))
        }
        _ => a.to_string().cmp(&b.to_string()),
    }
}

impl Listing<'_> {
    fn walk(&self, from: Option<&Value>, size: Option<u32>, most: usize) -> Res<Vec<Vec<Item>>> {
        let mut after = from.cloned();
        let mut pages = vec![];
        let mut n = 0;
        loop {
            let p = (self.fetch)(after.as_ref(), size).map_err(|e| dv(P, format!("{}, page size {size:?} after {after:?}: {e}", self.name)))?;
            let Some(l) = p.last() else { return Ok(pages) };
            after = Some(l.0.clone());
            n += p.len();
            pages.push(p);
            ensure_p!(n <= most + 2, P, "{}, page size {size:?}: more than {most} items listed, last {after:?}", self.name);
        }
    }
    fn check(&self, c: &Case, want: &[Item], exact: bool, cov: &mut Cov) -> Res {
        let n = &self.name;
        let most = if exact { want.len() } else { 10_000 };
        let full: Vec<Item> = self.walk(None, Some(50), most)?.concat();
        if exact {
            let sort = |l: &[Item]| {
                let mut v: Vec<(String, String)> = l.iter().map(|(k, i)| (k.to_string(), i.to_string())).collect();
                v.sort();
                v
            };
            ensure_eq_p!(sort(&full), sort(want), P, "{n}: all pages of 50 together");
        }
        let keys: BTreeSet<String> = full.iter().map(|x| x.0.to_string()).collect();
        ensure_eq_p!(keys.len(), full.len(), P, "{n}: distinct items listed");
        for s in &c.sizes {
            let s = s.map(|s| s.max(1) as u32);
            let pages = self.walk(None, s, full.len())?;
            if let Some(s) = s {
                for (i, p) in pages.iter().enumerate() {
                    ensure_p!(p.len() <= s as usize, P, "{n}, page size {s}: a page of {}", p.len());
                    if s <= 10 && i + 1 < pages.len() {
                        ensure_eq_p!(p.len(), s as usize, P, "{n}, page size {s}: page {i}, although more follow");
                    }
                }
            }
            if pages.len() > 1 {
                cov.hit("several-pages");
                cov.hit(format!("paged {}", n.split(':').next().unwrap()));
            }
            ensure_eq_p!(pages.concat(), full, P, "{n}: listed with page size {s:?}");
        }
        for (k, p) in c.probes.iter().enumerate() {
            if full.is_empty() {
                break;
            }
            let i = *p as usize % full.len();
            let s = c.sizes[k % c.sizes.len()].map(|s| s.max(1) as u32);
            let got = self.walk(Some(&full[i].0), s, full.len())?.concat();
            ensure_eq_p!(got, full[i + 1..], P, "{n}: listed after {} with page size {s:?}", full[i].0);
        }
        if let Some(m) = &self.missing {
            ensure_p!(full.windows(2).all(|w| cmp(self.num, &w[0].0, &w[1].0) == Ordering::Less), P, "{n}: not in ascending order: {:?}", full.iter().map(|x| &x.0).collect::<Vec<_>>());
            for x in &c.miss {
                let k = m(*x);
                let got = self.walk(Some(&k), Some(7), full.len())?.concat();
                let rest: Vec<Item> = full.iter().filter(|x| cmp(self.num, &x.0, &k) == Ordering::Greater).cloned().collect();
                ensure_eq_p!(got, rest, P, "{n}: listed after {k}");
                if !keys.contains(&k.to_string()) {
                    cov.hit("missing-start");
                }
            }
        }
        if full.len() > 50 {
            cov.hit("beyond-default-page");
        }
        Ok(())
    }
}
fn rows(v: &Value, list: &str, key: impl Fn(&Value) -> Value) -> Result<Vec<Item>, String> {
    Ok(v[list].as_array().ok_or(format!("no {list} in {v}"))?.iter().map(|x| (key(x), x.clone())).collect())
}

fn usr(i: u16) -> String {
    format!("user{i}")
}
fn members(c: &Case, kind: MKind, set: &[(u16, u32)], leave: &[u16], cov: &mut Cov) -> Res {
    let bad = |e: String| dv(P, format!("population: {e}"));
    let mut w = World::new();
    let (e, _) = standalone_enterprise(&mut w, "controller");
    let mut want: BTreeMap<String, u128> = BTreeMap::new();
    let (m, token);
    let common = json!({"enterprise_contract": e, "unlocking_period": {"time": 100}, "weight_change_hooks": null});
    let with = |k: &str, v: Value| {
        let mut x = common.clone();
        x[k] = v;
        x
    };
    match kind {
        MKind::Denom => {
            token = e.clone();
            m = w.inst(w.codes.denom, ECO_ADMIN, &with("denom", json!("uluna")), None).map_err(bad)?;
        }
        MKind::Token => {
            token = w.new_cw20("STK", &[]);
            m = w.inst(w.codes.token, ECO_ADMIN, &with("token_contract", json!(token)), None).map_err(bad)?;
        }
        MKind::Nft => {
            token = w.new_cw721("minter");
            m = w.inst(w.codes.nft, ECO_ADMIN, &with("nft_contract", json!({"cw721": {"contract": token}})), None).map_err(bad)?;
        }
        MKind::Multisig => {
            token = e.clone();
            m = w.inst(w.codes.multisig, ECO_ADMIN, &json!({"enterprise_contract": e, "initial_weights": null, "weight_change_hooks": null}), None).map_err(bad)?;
        }
    }
    let mut nfts: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (i, (x, a)) in set.iter().enumerate() {
        let (x, a) = (usr(*x), *a as u128 + 1);
        match kind {
            MKind::Denom => {
                w.mint(&x, a, "uluna");
                w.exec(&x, &m, &json!({"stake": {"user": null}}), &[cosmwasm_std::coin(a, "uluna")]).map_err(bad)?;
                *want.entry(x).or_default() += a;
            }
            MKind::Token => {
                w.exec(ECO_ADMIN, &token, &json!({"mint": {"recipient": x, "amount": a.to_string()}}), &[]).map_err(bad)?;
                w.cw20_send(&token, &x, &m, a, &json!({"stake": {"user": x}})).map_err(bad)?;
                *want.entry(x).or_default() += a;
            }
            MKind::Nft => {
                let t = format!("t{i}");
                w.mint_nft(&token, "minter", &t, &x);
                w.send_nft(&token, &x, &m, &t, &json!({"stake": {"user": x}})).map_err(bad)?;
                nfts.entry(x.clone()).or_default().push(t);
                *want.entry(x).or_default() += 1;
            }
            MKind::Multisig => {
                want.insert(x, a);
            }
        }
    }
    let gone: BTreeSet<String> = leave.iter().map(|x| usr(*x)).filter(|x| want.contains_key(x)).collect();
    if kind == MKind::Multisig {
        let l: Vec<Value> = want.iter().map(|(u, a)| json!({"user": u, "weight": a.to_string()})).collect();
        w.exec("controller", &m, &json!({"update_members": {"update_members": l}}), &[]).map_err(bad)?;
        let l: Vec<Value> = gone.iter().map(|u| json!({"user": u, "weight": "0"})).collect();
        w.exec("controller", &m, &json!({"update_members": {"update_members": l}}), &[]).map_err(bad)?;
    } else {
        for x in &gone {
            let msg = if kind == MKind::Nft { json!({"unstake": {"nft_ids": nfts[x]}}) } else { json!({"unstake": {"amount": want[x].to_string()}}) };
            w.exec(x, &m, &msg, &[]).map_err(bad)?;
        }
    }
    want.retain(|k, _| !gone.contains(k));
    if !gone.is_empty() {
        cov.hit("members-left");
    }
    // members without weight may or may not be listed, but only those who were members
    let l = Listing {
        name: format!("members of {kind:?}"),
        fetch: Box::new(|a, s| w.query::<Value, _>(&m, &json!({"members": {"start_after": a, "limit": s}})).and_then(|v| rows(&v, "members", |x| x["user"].clone()))),
        missing: Some(Box::new(|x| json!(usr(x)))),
        num: false,
    };
    let all: Vec<Item> = l.walk(None, Some(9), want.len() + gone.len())?.concat();
    let got: BTreeMap<String, u128> =
        all.iter().map(|x| (x.0.as_str().unwrap_or("?").to_string(), x.1["weight"].as_str().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX))).filter(|x| x.1 > 0).collect();
    ensure_eq_p!(got, want, P, "{}: pages of 9", l.name);
    for (k, _) in &all {
        let k = k.as_str().unwrap_or("?");
        ensure_p!(want.contains_key(k) || gone.contains(k), P, "{}: {k} listed", l.name);
    }
    l.check(c, &all, true, cov)
}

fn nft_id(x: u16) -> String {
    match x % 4 {
        0 => format!("{}", x / 4),
        1 => format!("t{}", x / 4),
        2 => format!("t{:03}", x / 4),
        _ => format!("T-{}", x / 4),
    }
}
fn nfts(c: &Case, staked: &[(u8, u16)], out: &[u16], cov: &mut Cov) -> Res {
    let bad = |e: String| dv(P, format!("population: {e}"));
    let mut w = World::new();
    let (e, _) = standalone_enterprise(&mut w, "controller");
    let coll = w.new_cw721("minter");
    let m = w
        .inst(w.codes.nft, ECO_ADMIN, &json!({"enterprise_contract": e, "nft_contract": {"cw721": {"contract": coll}}, "unlocking_period": {"time": 100}, "weight_change_hooks": null}), None)
        .map_err(bad)?;
    let mut own: BTreeMap<String, String> = BTreeMap::new();
    for (x, t) in staked {
        let (x, t) = (usr([1u16, 10, 2][*x as usize % 3]), nft_id(*t));
        if own.contains_key(&t) {
            continue;
        }
        w.mint_nft(&coll, "minter", &t, &x);
        w.send_nft(&coll, &x, &m, &t, &json!({"stake": {"user": x}})).map_err(bad)?;
        own.insert(t, x);
    }
    for t in out {
        if let Some(x) = own.remove(&nft_id(*t)) {
            w.exec(&x, &m, &json!({"unstake": {"nft_ids": [nft_id(*t)]}}), &[]).map_err(bad)?;
        }
    }
    let same = |v: &Value, l: &str| rows(v, l, |x| x.clone());
    let l = Listing {
        name: "staked NFTs".into(),
        fetch: Box::new(|a, s| w.query::<Value, _>(&m, &json!({"staked_nfts": {"start_after": a, "limit": s}})).and_then(|v| same(&v, "nfts"))),
        missing: Some(Box::new(|x| json!(nft_id(x * 3)))),
        num: false,
    };
    let want: Vec<Item> = own.keys().map(|t| (json!(t), json!(t))).collect();
    l.check(c, &want, true, cov)?;
    for x in ["user1", "user10", "user2"] {
        let l = Listing {
            name: format!("NFTs staked by: {x}"),
            fetch: Box::new(|a, s| w.query::<Value, _>(&m, &json!({"user_stake": {"user": x, "start_after": a, "limit": s}})).and_then(|v| same(&v, "tokens"))),
            missing: Some(Box::new(|x| json!(nft_id(x * 3)))),
        num: false,
        };
        let want: Vec<Item> = own.iter().filter(|o| o.1 == x).map(|(t, _)| (json!(t), json!(t))).collect();
        l.check(c, &want, true, cov)?;
    }
    Ok(())
}

const FILTERS: [&str; 3] = ["in_progress", "passed", "rejected"];
fn polls(c: &Case, fates: &[u8], votes: &[(u8, u16, u8)], cov: &mut Cov) -> Res {
    let bad = |e: String| dv(P, format!("population: {e}"));
    let mut w = World::new();
    let g = w.inst(w.codes.governance, ECO_ADMIN, &json!({"admin": "boss"}), None).map_err(bad)?;
    let end = w.now().plus_seconds(1000);
    for (i, _) in fates.iter().enumerate() {
        w.exec(
            "boss",
            &g,
            &json!({"create_poll": {"proposer": usr(i as u16 % 5), "deposit_amount": "0", "label": format!("l{i}"), "description": "d", "scheme": "coin_voting", "ends_at": end.plus_seconds(i as u64 % 3).nanos().to_string(),
                "quorum": "0.1", "threshold": "0.5", "veto_threshold": null}}),
            &[],
        )
        .map_err(bad)?;
    }
    let n = fates.len() as u64;
    let mut cast: BTreeMap<(u64, String), u8> = BTreeMap::new();
    let mut vote = |w: &mut World, id: u64, v: String, o: u8| {
        let name = ["yes", "no", "abstain", "veto"][o as usize % 4];
        w.exec("boss", &g, &json!({"cast_vote": {"poll_id": id.to_string(), "outcome": name, "voter": v, "amount": "5"}}), &[]).map_err(|e| dv(P, format!("population: {e}")))?;
        cast.insert((id, v), o % 4);
        Ok::<_, Divergence>(())
    };
    if n > 0 {
        for (p, v, o) in votes {
            vote(&mut w, *p as u64 % n + 1, usr(*v), *o)?;
        }
    }
    for (i, f) in fates.iter().enumerate() {
        let id = i as u64 + 1;
        if *f % 3 == 1 {
            for x in 0..3 {
                vote(&mut w, id, format!("whale{x}"), 0)?;
            }
            for (p, v, _) in votes {
                if *p as u64 % n + 1 == id {
                    vote(&mut w, id, usr(*v), 0)?;
                }
            }
        }
        if *f % 3 == 2 {
            for (p, v, _) in votes {
                if *p as u64 % n + 1 == id {
                    vote(&mut w, id, usr(*v), 1)?;
                }
            }
        }
    }
    w.advance(2_000_000_000_000, 10);
    for (i, f) in fates.iter().enumerate() {
        if *f % 3 > 0 {
            let k = cast.keys().filter(|x| x.0 == i as u64 + 1).count() * 5;
            w.exec("boss", &g, &json!({"end_poll": {"poll_id": (i + 1).to_string(), "maximum_available_votes": (k.max(10)).to_string(), "error_if_already_ended": true, "allow_early_ending": false}}), &[]).map_err(bad)?;
        }
    }
    let page = |a: Option<&Value>, s: Option<u32>| json!({"start_after": a, "end_at": null, "limit": s, "order_by": null});
    let one = |id: u64| -> Res<Item> {
        let v: Value = w.query(&g, &json!({"poll": {"poll_id": id}})).map_err(|e| dv(P, e))?;
        Ok((json!(id.to_string()), v["poll"].clone()))
    };
    for f in [None, Some(0), Some(1), Some(2)] {
        let l = Listing {
            name: format!("polls: {f:?}"),
            fetch: Box::new(|a, s| {
                w.query::<Value, _>(&g, &json!({"polls": {"filter": f.map(|f: usize| FILTERS[f]), "pagination": page(a, s)}}))
                    .and_then(|v| rows(&v, "polls", |x| json!(x["id"].as_u64().unwrap_or(0).to_string())))
            }),
            missing: Some(Box::new(|x| json!((x as u64).to_string()))),
            num: true,
        };
        let want = (1..=n).filter(|i| f.map(|f| fates[*i as usize - 1] as usize % 3 == f).unwrap_or(true)).map(one).collect::<Res<Vec<_>>>()?;
        l.check(c, &want, true, cov)?;
        if f.is_some() && !want.is_empty() && want.len() < n as usize {
            cov.hit("filtered");
        }
        // between two bounds, either way round
        for (k, p) in c.probes.iter().enumerate() {
            let (lo, hi) = (*p as u64 % (n + 2), c.miss.get(k).copied().unwrap_or(3) as u64 % (n + 2));
            for desc in [false, true] {
                let v: Value = w
                    .query(&g, &json!({"polls": {"filter": f.map(|f| FILTERS[f]), "pagination": {"start_after": lo.to_string(), "end_at": hi.to_string(), "limit": null, "order_by": if desc { "descending" } else { "ascending" }}}}))
                    .map_err(|e| dv(P, format!("polls between {lo} and {hi}: {e}")))?;
                let mut ids: Vec<u64> = v["polls"].as_array().into_iter().flatten().map(|x| x["id"].as_u64().unwrap_or(0)).collect();
                if desc {
                    ids.reverse();
                }
                let w: Vec<u64> = want.iter().map(|x| x.0.as_str().unwrap().parse().unwrap()).filter(|i| *i > lo && *i <= hi).collect();
                ensure_eq_p!(ids, w, P, "polls after {lo} up to {hi}, filter {f:?}, descending {desc}");
            }
        }
    }
    let names = ["yes", "no", "abstain", "veto"];
    let item = |k: &(u64, String), o: &u8| json!({"poll_id": k.0, "voter": k.1, "outcome": *o, "amount": 5});
    let norm = |x: &Value| {
        let o = x["outcome"].as_u64().or_else(|| x["outcome"].as_str().and_then(|s| names.iter().position(|n| *n == s).map(|p| p as u64)));
        let a = x["amount"].as_u64().or_else(|| x["amount"].as_str().and_then(|s| s.parse().ok()));
        json!({"poll_id": x["poll_id"], "voter": x["voter"], "outcome": o, "amount": a})
    };
    let ids: BTreeSet<u64> = cast.keys().map(|k| k.0).collect();
    for id in ids.iter().take(3) {
        let l = Listing {
            name: format!("voters of poll: {id}"),
            fetch: Box::new(|a, s| {
                w.query::<Value, _>(&g, &json!({"poll_voters": {"poll_id": *id, "pagination": page(a, s)}}))
                    .and_then(|v| rows(&v, "votes", |x| x["voter"].clone()))
                    .map(|l| l.into_iter().map(|(k, x)| (k, norm(&x))).collect())
            }),
            missing: None,
        num: false,
        };
        let want: Vec<Item> = cast.iter().filter(|(k, _)| k.0 == *id).map(|(k, o)| (json!(k.1), item(k, o))).collect();
        l.check(c, &want, true, cov)?;
        let full: Vec<String> = l.walk(None, None, want.len())?.concat().iter().map(|x| x.0.as_str().unwrap_or("?").to_string()).collect();
        for (k, p) in c.probes.iter().enumerate() {
            let (lo, hi) = (*p as usize % full.len(), c.miss.get(k).copied().unwrap_or(1) as usize % full.len());
            for desc in [false, true] {
                let v: Value = w
                    .query(&g, &json!({"poll_voters": {"poll_id": *id, "pagination": {"start_after": full[lo], "end_at": full[hi], "limit": null, "order_by": if desc { "descending" } else { "ascending" }}}}))
                    .map_err(|e| dv(P, format!("voters between {} and {}: {e}", full[lo], full[hi])))?;
                let mut got: Vec<String> = v["votes"].as_array().into_iter().flatten().map(|x| x["voter"].as_str().unwrap_or("?").to_string()).collect();
                if desc {
                    got.reverse();
                }
                let w = if lo < hi { full[lo + 1..=hi].to_vec() } else { vec![] };
                ensure_eq_p!(got, w, P, "voters of {id} after {} up to {}, descending {desc}", full[lo], full[hi]);
            }
        }
    }
    let voters: BTreeSet<&String> = cast.keys().map(|k| &k.1).collect();
    for x in voters.iter().take(6) {
        let l = Listing {
            name: format!("votes of: {x}"),
            fetch: Box::new(|a, s| {
                w.query::<Value, _>(&g, &json!({"voter": {"voter_addr": x, "start_after": a, "limit": s}}))
                    .and_then(|v| rows(&v, "votes", |x| x["poll_id"].clone()))
                    .map(|l| l.into_iter().map(|(k, x)| (k, norm(&x))).collect())
            }),
            missing: Some(Box::new(|x| json!(x))),
        num: false,
        };
        let want: Vec<Item> = cast.iter().filter(|(k, _)| k.1 == **x).map(|(k, o)| (json!(k.0), item(k, o))).collect();
        l.check(c, &want, true, cov)?;
    }
    Ok(())
}

fn proposals(c: &Case, list: &[(bool, u8)], voters: &[u8], n: u8, cov: &mut Cov) -> Res {
    let bad = |e: String| dv(P, format!("population: {e}"));
    let mut w = World::new();
    let n = n.max(3);
    let stakes: Vec<u32> = (0..n).map(|i| if i == 0 { 100_000 } else { 1 }).collect();
    let (mut m, _) = simple_dao(&mut w, Kind::Multisig, true, &stakes);
    m["dao_council"] = CouncilSpec { members: vec![0, 2], q: 300, t: 500, allowed: Some(vec![3]) }.json(5);
    create_dao(&mut w, &m, None).map_err(bad)?;
    let d = last_dao(&w).map_err(bad)?;
    let g = d.c.enterprise_governance_controller_contract.clone();
    let mut votes: BTreeMap<String, Value> = BTreeMap::new();
    for (i, (council, _)) in list.iter().enumerate() {
        let a = json!([{"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"native": format!("u{i}")}], "remove": []}}]);
        let m = json!({"title": format!("p{i}"), "description": null, "proposal_actions": a, "deposit_owner": null});
        let m = if *council { json!({ "create_council_proposal": m }) } else { json!({ "create_proposal": m }) };
        w.exec("user0", &g, &m, &[]).map_err(bad)?;
    }
    // votes of the first general proposal
    let first = list.iter().position(|x| !x.0).map(|i| i as u64 + 1);
    if let Some(id) = first {
        for v in voters {
            let x = usr(*v as u16 % n as u16);
            let o = ["yes", "no", "abstain", "veto"][*v as usize % 4];
            w.exec(&x, &g, &json!({"cast_vote": {"proposal_id": id, "outcome": o}}), &[]).map_err(bad)?;
            votes.insert(x, json!(o));
        }
    }
    let mut done = vec![];
    for (i, (council, f)) in list.iter().enumerate() {
        let id = i as u64 + 1;
        if *f % 3 == 1 {
            let m = json!({"proposal_id": id, "outcome": "yes"});
            if *council {
                for x in ["user0", "user2"] {
                    w.exec(x, &g, &json!({ "cast_council_vote": m }), &[]).map_err(bad)?;
                }
            } else {
                w.exec("user0", &g, &json!({ "cast_vote": m }), &[]).map_err(bad)?;
                if Some(id) == first {
                    votes.insert("user0".into(), json!("yes"));
                }
            }
            w.exec("user1", &g, &json!({"execute_proposal": {"proposal_id": id}}), &[]).map_err(bad)?;
        }
        if *f % 3 == 2 {
            let m = json!({"proposal_id": id, "outcome": "no"});
            w.exec("user0", &g, &if *council { json!({ "cast_council_vote": m }) } else { json!({ "cast_vote": m }) }, &[]).map_err(bad)?;
            if !*council && Some(id) == first {
                votes.insert("user0".into(), json!("no"));
            }
            done.push(id);
        }
    }
    w.advance(1_001_000_000_000, 10);
    for id in done {
        w.exec("user1", &g, &json!({"execute_proposal": {"proposal_id": id}}), &[]).map_err(bad)?;
    }
    let one = |id: u64| -> Res<Item> { Ok((json!(id), w.query::<Value, _>(&g, &json!({"proposal": {"proposal_id": id}})).map_err(|e| dv(P, e))?)) };
    for f in [None, Some(0), Some(1), Some(2)] {
        let l = Listing {
            name: format!("proposals: {f:?}"),
            fetch: Box::new(|a, s| {
                w.query::<Value, _>(&g, &json!({"proposals": {"filter": f.map(|f: usize| FILTERS[f]), "start_after": a, "limit": s}})).and_then(|v| rows(&v, "proposals", |x| x["proposal"]["id"].clone()))
            }),
            missing: Some(Box::new(|x| json!(x))),
        num: false,
        };
        let want = (0..list.len()).filter(|i| f.map(|f| list[*i].1 as usize % 3 == f).unwrap_or(true)).map(|i| one(i as u64 + 1)).collect::<Res<Vec<_>>>()?;
        l.check(c, &want, true, cov)?;
    }
    if let Some(id) = first {
        let names = ["yes", "no", "abstain", "veto"];
        let l = Listing {
            name: "votes of a proposal".into(),
            fetch: Box::new(|a, s| {
                w.query::<Value, _>(&g, &json!({"proposal_votes": {"proposal_id": id, "start_after": a, "limit": s}}))
                    .and_then(|v| rows(&v, "votes", |x| x["voter"].clone()))
                    .map(|l| l.into_iter().map(|(k, x)| (k, x["outcome"].as_u64().and_then(|o| names.get(o as usize)).map(|o| json!(o)).unwrap_or_else(|| x["outcome"].clone()))).collect())
            }),
            missing: None,
        num: false,
        };
        let want: Vec<Item> = votes.iter().map(|(k, v)| (json!(k), v.clone())).collect();
        l.check(c, &want, true, cov)?;
    }
    Ok(())
}

fn daos(c: &Case, n: u8, codes: u8, cov: &mut Cov) -> Res {
    let bad = |e: String| dv(P, format!("population: {e}"));
    let mut w = World::new();
    let reg = w.versioning.clone();
    for k in 0..codes {
        let mut cs = w.codes.clone();
        cs.enterprise = w.app.store_code(enterprise_code());
        let v = version_info(Version::new(2, k as u64, 0), &cs);
        w.exec(ECO_ADMIN, &reg, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: v }), &[]).map_err(bad)?;
    }
    let mut made: Vec<Addr> = vec![];
    for k in 0..n {
        let (m, _) = simple_dao(&mut w, Kind::Multisig, false, &[1]);
        let v = if codes > 0 && k % 2 == 0 { Some(Version::new(2, (k % codes) as u64, 0)) } else { None };
        create_dao(&mut w, &m, v).map_err(bad)?;
        made.push(last_dao(&w).map_err(|e| dv(P, e))?.treasury);
    }
    let f = w.factory.clone();
    let l = Listing {
        name: "DAOs".into(),
        fetch: Box::new(|a, s| w.query::<Value, _>(&f, &json!({"all_daos": {"start_after": a, "limit": s}})).and_then(|v| rows(&v, "daos", |x| x["dao_id"].clone()))),
        missing: Some(Box::new(|x| json!((x as u64).to_string()))),
        num: true,
    };
    let want: Vec<Item> = l.walk(None, Some(3), n as usize)?.concat();
    let mut a: Vec<String> = want.iter().map(|x| x.1["dao_address"].as_str().unwrap_or("?").to_string()).collect();
    let mut b: Vec<String> = made.iter().map(|x| x.to_string()).collect();
    a.sort();
    b.sort();
    ensure_eq_p!(a, b, P, "DAOs listed in pages of 3");
    l.check(c, &want, true, cov)?;
    let l = Listing {
        name: "code ids".into(),
        fetch: Box::new(|a, s| w.query::<Value, _>(&f, &json!({"enterprise_code_ids": {"start_after": a, "limit": s}})).and_then(|v| rows(&v, "code_ids", |x| x.clone()))),
        missing: Some(Box::new(|x| json!((x as u64).to_string()))),
        num: true,
    };
    l.check(c, &[], false, cov)?;
    let listed: BTreeSet<u64> = l.walk(None, Some(2), 1000)?.concat().iter().filter_map(|x| x.0.as_str().and_then(|s| s.parse().ok())).collect();
    for id in 1..40u64 {
        if id == w.codes.treasury {
            continue;
        }
        let v: Value = w.query(&f, &json!({"is_enterprise_code_id": {"code_id": id.to_string()}})).map_err(|e| dv(P, e))?;
        ensure_eq_p!(v["is_enterprise_code_id"].as_bool(), Some(listed.contains(&id)), P, "code id {id} recognised, listed {listed:?}");
    }
    Ok(())
}

fn versions(c: &Case, vs: &[(u8, u8, u8)], cov: &mut Cov) -> Res {
    let bad = |e: String| dv(P, format!("population: {e}"));
    let mut w = World::new();
    let reg = w.inst(w.codes.versioning, ECO_ADMIN, &json!({"admin": ECO_ADMIN}), None).map_err(bad)?;
    let mut sorted: Vec<(u8, u8, u8)> = vs.to_vec();
    sorted.sort();
    sorted.dedup();
    for (i, v) in sorted.iter().enumerate() {
        let mut x = version_info(Version::new(v.0 as u64, v.1 as u64, v.2 as u64), &w.codes);
        x.changelog = vec![format!("change {i}")];
        w.exec(ECO_ADMIN, &reg, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: x }), &[]).map_err(bad)?;
    }
    let key = |v: &(u8, u8, u8)| json!({"major": v.0, "minor": v.1, "patch": v.2});
    let one = |v: &(u8, u8, u8)| -> Res<Item> { Ok((key(v), w.query::<Value, _>(&reg, &json!({"version": {"version": key(v)}})).map_err(|e| dv(P, e))?["version"].clone())) };
    let want = sorted.iter().map(one).collect::<Res<Vec<_>>>()?;
    let l = Listing {
        name: "versions".into(),
        fetch: Box::new(|a, s| w.query::<Value, _>(&reg, &json!({"versions": {"start_after": a, "limit": s}})).and_then(|v| rows(&v, "versions", |x| x["version"].clone()))),
        missing: Some(Box::new(|x| key(&((x / 9) as u8, (x % 9) as u8, (x % 5) as u8)))),
        num: false,
    };
    l.check(c, &want, true, cov)
}

fn whitelist(c: &Case, natives: &[u16], cw20s: &[u16], nfts: &[u16], gone: &[u16], cov: &mut Cov) -> Res {
    let bad = |e: String| dv(P, format!("population: {e}"));
    let mut w = World::new();
    let t = w.inst(w.codes.treasury, ECO_ADMIN, &json!({"admin": "boss", "asset_whitelist": null, "nft_whitelist": null}), None).map_err(bad)?;
    let nat = |x: &u16| json!({"native": format!("u{x}")});
    let cw = |x: &u16| json!({"cw20": format!("token{x}")});
    let set = |l: &[u16]| l.iter().copied().collect::<BTreeSet<u16>>();
    let (sn, sc, sf) = (set(natives), set(cw20s), set(nfts));
    let add: Vec<Value> = sn.iter().map(nat).chain(sc.iter().map(cw)).collect();
    w.exec("boss", &t, &json!({"update_asset_whitelist": {"add": add, "remove": []}}), &[]).map_err(bad)?;
    w.exec("boss", &t, &json!({"update_nft_whitelist": {"add": sf.iter().map(|x| format!("nft{x}")).collect::<Vec<_>>(), "remove": []}}), &[]).map_err(bad)?;
    let g = set(gone);
    let rem: Vec<Value> = g.iter().flat_map(|x| [nat(x), cw(x)]).collect();
    w.exec("boss", &t, &json!({"update_asset_whitelist": {"add": [], "remove": rem}}), &[]).map_err(bad)?;
    w.exec("boss", &t, &json!({"update_nft_whitelist": {"add": [], "remove": g.iter().map(|x| format!("nft{x}")).collect::<Vec<_>>()}}), &[]).map_err(bad)?;
    let l = Listing {
        name: "whitelisted assets".into(),
        fetch: Box::new(|a, s| w.query::<Value, _>(&t, &json!({"asset_whitelist": {"start_after": a, "limit": s}})).and_then(|v| rows(&v, "assets", |x| x.clone()))),
        missing: None,
        num: false,
    };
    let want: Vec<Item> = sn.difference(&g).map(nat).chain(sc.difference(&g).map(cw)).map(|x| (x.clone(), x)).collect();
    l.check(c, &want, true, cov)?;
    let l = Listing {
        name: "whitelisted NFTs".into(),
        fetch: Box::new(|a, s| w.query::<Value, _>(&t, &json!({"nft_whitelist": {"start_after": a, "limit": s}})).and_then(|v| rows(&v, "nfts", |x| x.clone()))),
        missing: Some(Box::new(|x| json!(format!("nft{x}")))),
        num: false,
    };
    let want: Vec<Item> = sf.difference(&g).map(|x| json!(format!("nft{x}"))).map(|x| (x.clone(), x)).collect();
    l.check(c, &want, true, cov)
}

fn treasuries(c: &Case, n: u8, cov: &mut Cov) -> Res {
    let (w, o, m) = crate::e9_outposts::population(n).map_err(|mut d| {
        d.props.push("C25");
        d
    })?;
    let l = Listing {
        name: "cross-chain treasuries".into(),
        fetch: Box::new(|a, s| w.query::<Value, _>(&o, &json!({"cross_chain_treasuries": {"start_after": a, "limit": s}})).and_then(|v| rows(&v, "treasuries", |x| x["chain_id"].clone()))),
        missing: Some(Box::new(|x| json!(format!("chain-{x}")))),
        num: false,
    };
    let want: Vec<Item> = m.iter().map(|(k, t)| (json!(k), json!({"chain_id": k, "treasury_addr": t}))).collect();
    l.check(c, &want, true, cov)
}

fn size() -> BoxedStrategy<Option<u16>> {
    prop_oneof![2 => Just(None), 5 => (1u16..12).prop_map(Some), 2 => (1u16..140).prop_map(Some), 1 => any::<u16>().prop_map(Some)].boxed()
}
/// mostly small populations, sometimes beyond every page limit
fn many<T: std::fmt::Debug + Clone + 'static>(s: impl Strategy<Value = T> + Clone + 'static, big: usize) -> BoxedStrategy<Vec<T>> {
    prop_oneof![6 => prop::collection::vec(s.clone(), 0..14), 3 => prop::collection::vec(s.clone(), 8..40), 1 => prop::collection::vec(s, 40..big)].boxed()
}
pub struct C25;
impl Check for C25 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        let kind = prop_oneof![Just(MKind::Denom), Just(MKind::Token), Just(MKind::Nft), Just(MKind::Multisig)];
        let what = prop_oneof![
            30 => (kind, many((0u16..160, 0u32..1000), 150), prop::collection::vec(0u16..40, 0..5)).prop_map(|(kind, set, leave)| What::Members { kind, set, leave }),
            14 => (many((0u8..3, 0u16..400), 150), prop::collection::vec(0u16..400, 0..8)).prop_map(|(staked, out)| What::Nfts { staked, out }),
            14 => (many(0u8..3, 130), many((any::<u8>(), 0u16..150, 0u8..4), 200)).prop_map(|(fates, votes)| What::Polls { fates, votes }),
            8 => (prop_oneof![7 => prop::collection::vec((any::<bool>(), 0u8..3), 1..12), 1 => prop::collection::vec((any::<bool>(), 0u8..3), 12..70)], many(any::<u8>(), 120), prop_oneof![3 => 3u8..12, 1 => 50u8..130])
                .prop_map(|(list, voters, members)| What::Proposals { list, voters, members }),
            3 => (prop_oneof![30 => 0u8..9, 1 => 50u8..60], 0u8..5).prop_map(|(n, codes)| What::Daos { n, codes }),
            10 => many((0u8..12, 0u8..12, 0u8..12), 130).prop_map(What::Versions),
            16 => (many(0u16..200, 130), many(0u16..200, 130), many(0u16..200, 130), prop::collection::vec(0u16..200, 0..9))
                .prop_map(|(natives, cw20s, nfts, gone)| What::Whitelist { natives, cw20s, nfts, gone }),
            3 => prop_oneof![8 => 0u8..14, 1 => 50u8..110].prop_map(What::Treasuries)
        ];
        (what, prop::collection::vec(size(), 2..4), prop::collection::vec(any::<u16>(), 1..4), prop::collection::vec(0u16..170, 0..4))
            .prop_map(|(what, sizes, probes, miss)| Case { what, sizes, probes, miss })
            .boxed()
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        match &c.what {
            What::Members { kind, set, leave } => members(c, *kind, set, leave, cov)?,
            What::Nfts { staked, out } => nfts(c, staked, out, cov)?,
            What::Polls { fates, votes } => polls(c, fates, votes, cov)?,
            What::Proposals { list, voters, members } => proposals(c, list, voters, *members, cov)?,
            What::Daos { n, codes } => daos(c, *n, *codes, cov)?,
            What::Versions(v) => versions(c, v, cov)?,
            What::Whitelist { natives, cw20s, nfts, gone } => whitelist(c, natives, cw20s, nfts, gone, cov)?,
            What::Treasuries(n) => treasuries(c, *n, cov)?,
        }
        cov.nontrivial = cov.has("several-pages");
        Ok(())
    }
    fn cases(&self) -> (u64, u64) {
        (14_000, 200_000)
    }
    fn rule(&self) -> &'static str {
        "some listing of the case needed more than one page"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["nothing changes between two pages; page sizes are at least one; a vote counts as in progress for the status filter until it is finalised"]
    }
}
