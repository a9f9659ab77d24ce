//! E6: treasury whitelists as sets. C16.
use crate::fw::*;
use crate::world::*;
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::Addr;
use enterprise_treasury_api::api::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum A {
    Native(u8),
    Cw20(u8),
    Cw1155(u8, u8),
}
impl A {
    fn info(&self) -> Value {
        match self {
            A::Native(i) => json!({"native": format!("u{i}")}),
            A::Cw20(i) => json!({"cw20": format!("token{i}")}),
            A::Cw1155(i, j) => json!({"cw1155": [format!("multi{i}"), j.to_string()]}),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Assets { add: Vec<A>, remove: Vec<A> },
    /// a run of consecutive entries
    AddRange { cw20: bool, from: u8, n: u8, remove: bool },
    Nfts { add: Vec<u8>, remove: Vec<u8> },
    NftRange { from: u8, n: u8, remove: bool },
    Page { size: Option<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    init: Vec<A>,
    init_nft: Vec<u8>,
    ops: Vec<Op>,
}
fn nft(i: u8) -> String {
    format!("coll{i}")
}

fn key(v: &Value) -> String {
    v.to_string()
}

fn page_assets(w: &World, t: &Addr, size: Option<u32>) -> Res<Vec<Value>> {
    let mut out: Vec<Value> = vec![];
    let mut start: Option<Value> = None;
    for _ in 0..2000 {
        let r: Result<Value, String> = w.query(t, &json!({"asset_whitelist": {"start_after": start, "limit": size}}));
        let r = match r {
            Ok(r) => r,
            Err(e) => return div(&["C16", "C25"], format!("asset whitelist query fails: {e}")),
        };
        let page = r["assets"].as_array().cloned().unwrap_or_default();
        if page.is_empty() {
            return Ok(out);
        }
        if let Some(s) = size {
            ensure_p!(page.len() <= s as usize, &["C16", "C25"], "asset page of {} for a limit of {s}", page.len());
        }
        start = page.last().cloned();
        out.extend(page);
    }
    div(&["C16", "C25"], "paging the asset whitelist does not end")
}
fn page_nfts(w: &World, t: &Addr, size: Option<u32>) -> Res<Vec<String>> {
    let mut out: Vec<String> = vec![];
    let mut start: Option<String> = None;
    for _ in 0..2000 {
        let r: Result<NftWhitelistResponse, String> = w.query(t, &json!({"nft_whitelist": {"start_after": start, "limit": size}}));
        let r = match r {
            Ok(r) => r,
            Err(e) => return div(&["C16", "C25"], format!("NFT whitelist query fails: {e}")),
        };
        if r.nfts.is_empty() {
            return Ok(out);
        }
        start = r.nfts.last().map(|a| a.to_string());
        out.extend(r.nfts.into_iter().map(|a| a.to_string()));
    }
    div(&["C16", "C25"], "paging the NFT whitelist does not end")
}

fn check(w: &World, t: &Addr, assets: &BTreeSet<A>, nfts: &BTreeSet<u8>, size: Option<u32>, what: &str, cov: &mut Cov) -> Res {
    let mut want: Vec<String> = assets.iter().map(|a| key(&a.info())).collect();
    want.sort();
    let mut got: Vec<String> = page_assets(w, t, size)?.iter().map(key).collect();
    got.sort();
    ensure_eq_p!(got, want, &["C16"], "after {what}: asset whitelist paged by {size:?}");
    let mut want: Vec<String> = nfts.iter().map(|a| nft(*a)).collect();
    want.sort();
    let mut got = page_nfts(w, t, size)?;
    got.sort();
    ensure_eq_p!(got, want, &["C16"], "after {what}: NFT whitelist paged by {size:?}");
    if assets.len() > 30 && nfts.len() > 1 {
        cov.hit("more-than-default-page");
    }
    let nat = assets.iter().any(|a| matches!(a, A::Native(_)));
    let cw = assets.iter().any(|a| matches!(a, A::Cw20(_)));
    if nat && cw {
        cov.hit("both-asset-kinds");
    }
    if let Some(s) = size {
        if (s as usize) < assets.len() && nat && cw {
            cov.hit("paged-across-kinds");
        }
    }
    Ok(())
}

const ADMIN: &str = "the_admin";

fn run_case(c: &Case, cov: &mut Cov) -> Res {
    let mut w = World::new();
    let bad = c.init.iter().any(|a| matches!(a, A::Cw1155(..)));
    let r = w.inst(
        w.codes.treasury,
        ECO_ADMIN,
        &json!({"admin": ADMIN, "asset_whitelist": c.init.iter().map(|a| a.info()).collect::<Vec<_>>(), "nft_whitelist": c.init_nft.iter().map(|i| nft(*i)).collect::<Vec<_>>()}),
        None,
    );
    if bad {
        ensure_p!(r.is_err(), &["C16"], "treasury created with a multi-token asset whitelisted");
        return Ok(());
    }
    let t = match r {
        Ok(t) => t,
        Err(e) => return div(&["C16"], format!("treasury cannot be created: {e}")),
    };
    let mut assets: BTreeSet<A> = c.init.iter().cloned().collect();
    let mut nfts: BTreeSet<u8> = c.init_nft.iter().cloned().collect();
    check(&w, &t, &assets, &nfts, Some(100), "creation", cov)?;
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("step {i} {op:?}");
        match op {
            Op::Assets { .. } | Op::AddRange { .. } => {
                let (add, remove): (Vec<A>, Vec<A>) = match op {
                    Op::Assets { add, remove } => (add.clone(), remove.clone()),
                    Op::AddRange { cw20, from, n, remove } => {
                        let l = (0..*n).map(|k| if *cw20 { A::Cw20(from.wrapping_add(k)) } else { A::Native(from.wrapping_add(k)) }).collect();
                        if *remove { (vec![], l) } else { (l, vec![]) }
                    }
                    _ => unreachable!(),
                };
                let bad = add.iter().any(|a| matches!(a, A::Cw1155(..)));
                let r = w.exec(
                    ADMIN,
                    &t,
                    &json!({"update_asset_whitelist": {"add": add.iter().map(|a| a.info()).collect::<Vec<_>>(), "remove": remove.iter().map(|a| a.info()).collect::<Vec<_>>()}}),
                    &[],
                );
                match (r, bad) {
                    (Ok(_), true) => return div(&["C16"], format!("{what}: multi-token asset whitelisted")),
                    (Err(_), true) => cov.hit("multi-token-refused"),
                    (Err(e), false) => return div(&["C16"], format!("{what} fails: {e}")),
                    (Ok(_), false) => {
                        if add.iter().any(|a| assets.contains(a)) {
                            cov.hit("re-added");
                        }
                        assets.extend(add);
                        for r in remove {
                            if assets.remove(&r) {
                                cov.hit("removed");
                            }
                        }
                    }
                }
            }
            Op::Nfts { .. } | Op::NftRange { .. } => {
                let (add, remove): (Vec<u8>, Vec<u8>) = match op {
                    Op::Nfts { add, remove } => (add.clone(), remove.clone()),
                    Op::NftRange { from, n, remove } => {
                        let l = (0..*n).map(|k| from.wrapping_add(k)).collect();
                        if *remove { (vec![], l) } else { (l, vec![]) }
                    }
                    _ => unreachable!(),
                };
                if let Err(e) = w.exec(
                    ADMIN,
                    &t,
                    &json!({"update_nft_whitelist": {"add": add.iter().map(|a| nft(*a)).collect::<Vec<_>>(), "remove": remove.iter().map(|a| nft(*a)).collect::<Vec<_>>()}}),
                    &[],
                ) {
                    return div(&["C16"], format!("{what} fails: {e}"));
                }
                nfts.extend(add);
                for r in remove {
                    nfts.remove(&r);
                }
            }
            Op::Page { size } => {
                check(&w, &t, &assets, &nfts, size.map(|s| (s as u32).max(1)), &what, cov)?;
                cov.hit(if size.is_some() { "paged" } else { "paged-default" });
            }
        }
        check(&w, &t, &assets, &nfts, Some(100), &what, cov)?;
    }
    Ok(())
}

fn asset() -> BoxedStrategy<A> {
    prop_oneof![10 => (0u8..20).prop_map(A::Native), 10 => (0u8..20).prop_map(A::Cw20), 1 => (0u8..3, 0u8..3).prop_map(|(a, b)| A::Cw1155(a, b))].boxed()
}
fn good() -> BoxedStrategy<A> {
    prop_oneof![(0u8..20).prop_map(A::Native), (0u8..20).prop_map(A::Cw20)].boxed()
}
pub struct C16;
impl Check for C16 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        let init = prop_oneof![9 => prop::collection::vec(good(), 0..8), 1 => prop::collection::vec(asset(), 0..8)];
        let op = prop_oneof![
            6 => (prop::collection::vec(asset(), 0..6), prop::collection::vec(asset(), 0..5)).prop_map(|(add, remove)| Op::Assets { add, remove }),
            4 => (any::<bool>(), 0u8..200, 1u8..50, prop::bool::weighted(0.3)).prop_map(|(cw20, from, n, remove)| Op::AddRange { cw20, from: if remove { from % 20 } else { from }, n, remove }),
            3 => (prop::collection::vec(0u8..30, 0..6), prop::collection::vec(0u8..30, 0..5)).prop_map(|(add, remove)| Op::Nfts { add, remove }),
            2 => (0u8..200, 1u8..50, prop::bool::weighted(0.4)).prop_map(|(from, n, remove)| Op::NftRange { from: if remove { from % 20 } else { from }, n, remove }),
            4 => prop_oneof![1 => Just(None), 4 => (1u8..40).prop_map(Some), 1 => any::<u8>().prop_map(Some)].prop_map(|size| Op::Page { size }),
        ];
        (init, prop::collection::vec(0u8..30, 0..6), prop::collection::vec(op, 1..14)).prop_map(|(init, init_nft, ops)| Case { init, init_nft, ops }).boxed()
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let r = run_case(c, cov);
        cov.nontrivial = cov.has("paged-across-kinds");
        r
    }
    fn cases(&self) -> (u64, u64) {
        (16_000, 200_000)
    }
    fn rule(&self) -> &'static str {
        "a listing with native and CW20 entries was paged with a page smaller than the listing"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["treasury driven by its administrator directly in the first engine, by proposals of a DAO in the second"]
    }
}
