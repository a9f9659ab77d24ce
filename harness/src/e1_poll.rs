//! E1: the governance (poll) contract. C01 outcome arithmetic, C02 tally integrity.
use crate::direct::Direct;
use crate::fw::*;
use crate::{ensure_eq_p, ensure_p};
use common::cw::Pagination;
use cosmwasm_std::testing::MockQuerier;
use cosmwasm_std::{Addr, Decimal, Timestamp, Uint128, Uint256, Uint64};
use enterprise_governance::contract as gov;
use enterprise_governance_api::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use poll_engine_api::api::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

const ADMIN: &str = "the_admin";

pub const E18: u128 = 1_000_000_000_000_000_000;

pub fn ratio_ge(num: u128, den: u128, bound_atomics: u128) -> bool {
    if den == 0 {
        return bound_atomics == 0;
    }
    Uint256::from(num) * Uint256::from(E18) >= Uint256::from(bound_atomics) * Uint256::from(den)
}

/// Exact oracle for the final status of a poll.
pub fn oracle_status(res: &[u128; 4], max: u128, quorum: u128, threshold: u128, veto: Option<u128>) -> PollStatus {
    let total: u128 = res.iter().sum();
    if !ratio_ge(total, max, quorum) {
        return PollStatus::Rejected { reason: PollRejectionReason::QuorumNotReached };
    }
    match oracle_decided(res, threshold, veto) {
        Decided::None => PollStatus::Rejected { reason: PollRejectionReason::ThresholdNotReached },
        Decided::Veto => PollStatus::Rejected { reason: PollRejectionReason::IsVetoOutcome },
        Decided::No => PollStatus::Rejected { reason: PollRejectionReason::IsRejectingOutcome },
        Decided::Draw => PollStatus::Rejected {
            reason: PollRejectionReason::OutcomeDraw(0, 1, Uint128::new(res[1])),
        },
        Decided::Yes => PollStatus::Passed { outcome: 0, count: Uint128::new(res[0]) },
    }
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Decided {
    None,
    Veto,
    No,
    Draw,
    Yes,
}

pub fn oracle_decided(res: &[u128; 4], threshold: u128, veto: Option<u128>) -> Decided {
    let voting = res[0] + res[1] + res[3];
    if ratio_ge(res[3], voting, veto.unwrap_or(threshold)) {
        return Decided::Veto;
    }
    let y = ratio_ge(res[0], voting, threshold);
    let n = ratio_ge(res[1], voting, threshold);
    match (y, n) {
        (false, false) => Decided::None,
        (true, false) => Decided::Yes,
        (false, true) => Decided::No,
        (true, true) if res[0] > res[1] => Decided::Yes,
        (true, true) if res[0] < res[1] => Decided::No,
        _ => Decided::Draw,
    }
}

pub fn outcome(o: u8) -> VoteOutcome {
    VoteOutcome::from(o % 4)
}

fn dec(a: u128) -> Decimal {
    Decimal::raw(a)
}

/// How a ratio parameter is chosen: free, or placed on/next to an exact boundary of the votes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bnd {
    Free(u128),
    /// (which outcome share, -1/0/+1 atomics)
    At(u8, i8),
}

fn bnd(max: u128) -> impl Strategy<Value = Bnd> {
    prop_oneof![
        2 => (0..=100u128).prop_map(move |p| Bnd::Free((p * (E18 / 100)).min(max))),
        1 => (0..=max).prop_map(Bnd::Free),
        5 => (0..4u8, -1..=1i8).prop_map(|(o, d)| Bnd::At(o, d)),
    ]
}

pub fn amount() -> impl Strategy<Value = u128> {
    prop_oneof![
        4 => 0..12u128,
        3 => 0..1_000_000u128,
        2 => 0..1_000_000_000_000_000_000_000_000u128,
        1 => (0..100u32).prop_map(|s| 1u128 << s),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OutcomeCase {
    pub votes: Vec<(u8, u8, u128)>,
    /// votes available: cast total plus this
    pub uncast: u128,
    pub max_zero: bool,
    pub quorum: Bnd,
    pub threshold: Bnd,
    pub veto: Option<Bnd>,
    pub early: bool,
    pub at_end_offset: i8,
}

pub struct C01;
impl Check for C01 {
    type Case = OutcomeCase;
    fn cases(&self) -> (u64, u64) {
        (160_000, 4_000_000)
    }
    fn rule(&self) -> &'static str {
        "case = vote list, votes available, quorum/threshold/veto (free or placed at -1/0/+1 atomic unit of an exact vote share); non-trivial = at least two outcomes have votes and a parameter sits on a constructed boundary"
    }
    fn strategy(&self) -> BoxedStrategy<OutcomeCase> {
        (
            proptest::collection::vec((0..6u8, 0..4u8, amount()), 0..8),
            prop_oneof![2 => Just(0u128), 3 => 0..20u128, 2 => amount()],
            proptest::bool::weighted(0.03),
            bnd(E18 + E18 / 10),
            bnd(E18),
            proptest::option::of(bnd(E18)),
            any::<bool>(),
            -1..=1i8,
        )
            .prop_map(|(votes, uncast, max_zero, quorum, threshold, veto, early, at_end_offset)| OutcomeCase {
                votes,
                uncast,
                max_zero,
                quorum,
                threshold,
                veto,
                early,
                at_end_offset,
            })
            .boxed()
    }
    fn run(&self, c: &OutcomeCase, cov: &mut Cov) -> Res {
        const P: &[PropId] = &["C01"];
        let mut latest: BTreeMap<u8, (u8, u128)> = BTreeMap::new();
        for (v, o, a) in &c.votes {
            latest.insert(*v, (*o, *a));
        }
        let mut res = [0u128; 4];
        for (o, a) in latest.values() {
            res[*o as usize] += a;
        }
        let total: u128 = res.iter().sum();
        let max = if c.max_zero { 0 } else { total + c.uncast };
        let voting = total - res[2];
        let mut boundary = false;
        let mut share = |b: &Bnd, quorum: bool, cap: u128| -> u128 {
            match b {
                Bnd::Free(a) => *a,
                Bnd::At(o, d) => {
                    let o = if *o == 2 { 0 } else { *o };
                    let (n, den) = if quorum { (total, max) } else { (res[o as usize], voting) };
                    boundary = true;
                    if den == 0 {
                        return if *d > 0 { 1 } else { 0 };
                    }
                    // ceil so that an inexact ratio sits between the two neighbours
                    let q: Uint128 = ((Uint256::from(n) * Uint256::from(E18)) / Uint256::from(den)).try_into().unwrap();
                    let v = if *d < 0 { q.u128().saturating_sub(1) } else { q.u128() + *d as u128 };
                    v.min(cap)
                }
            }
        };
        let quorum = share(&c.quorum, true, u128::MAX);
        let threshold = share(&c.threshold, false, E18);
        let veto = c.veto.as_ref().map(|b| share(b, false, E18));
        cov.nontrivial = boundary && res.iter().filter(|x| **x > 0).count() >= 2;

        let mut d = Direct::new(MockQuerier::default());
        d.tx(ADMIN, &[], |a, b, i| gov::instantiate(a, b, i, InstantiateMsg { admin: ADMIN.into() })).unwrap();
        let start = d.env.block.time;
        let ends = start.plus_seconds(100);
        let r = d.tx(ADMIN, &[], |a, b, i| {
            gov::execute(a, b, i, ExecuteMsg::CreatePoll(CreatePollParams {
                proposer: "prop0".into(),
                deposit_amount: Uint128::zero(),
                label: "l".into(),
                description: "d".into(),
                scheme: VotingScheme::CoinVoting,
                ends_at: ends,
                quorum: dec(quorum),
                threshold: dec(threshold),
                veto_threshold: veto.map(dec),
            }))
        });
        ensure_p!(r.is_ok(), P, "valid poll refused: {r:?}");
        for (v, o, a) in &c.votes {
            let r = d.tx(ADMIN, &[], |dd, b, i| {
                gov::execute(dd, b, i, ExecuteMsg::CastVote(CastVoteParams {
                    poll_id: Uint64::new(1),
                    outcome: outcome(*o),
                    voter: format!("voter{v}"),
                    amount: Uint128::new(*a),
                }))
            });
            ensure_p!(r.is_ok(), P, "valid vote refused: {r:?}");
        }
        let want = oracle_status(&res, max, quorum, threshold, veto);
        cov.hit(format!("status:{}", match &want {
            PollStatus::Rejected { reason } => format!("{reason:?}").chars().take(18).collect(),
            s => s.to_string(),
        }));
        // moment of the decision: before, exactly at, or after the end
        let early_time = c.early;
        if !early_time {
            d.env.block.time = match c.at_end_offset {
                0 => ends,
                1 => ends.plus_nanos(1),
                _ => ends.minus_nanos(1),
            };
        } else {
            d.env.block.time = start.plus_seconds(50);
        }
        let before_end = d.env.block.time < ends;
        let sim: PollStatusResponse = match d.q(|x, e| {
            gov::query(x, e, QueryMsg::SimulateEndPollStatus { poll_id: 1, maximum_available_votes: Uint128::new(max) })
        }) {
            Ok(s) => s,
            Err(e) => return div(P, format!("preview failed: {e}")),
        };
        ensure_eq_p!(sim.status, want, P, "preview of outcome (votes {res:?} of {max}, q {quorum} t {threshold} v {veto:?})");
        let allow_early = before_end || c.early;
        let may_end = !before_end
            || (allow_early && ratio_ge(total, max, quorum) && oracle_decided(&res, threshold, veto) != Decided::None);
        let r = d.tx(ADMIN, &[], |dd, b, i| {
            gov::execute(dd, b, i, ExecuteMsg::EndPoll(EndPollParams {
                poll_id: Uint64::new(1),
                maximum_available_votes: Uint128::new(max),
                error_if_already_ended: true,
                allow_early_ending: allow_early,
            }))
        });
        ensure_eq_p!(r.is_ok(), may_end, P, "ending accepted (votes {res:?} of {max}, q {quorum} t {threshold} v {veto:?}, before_end {before_end}, {r:?})");
        let st: PollStatusResponse = match d.q(|x, e| gov::query(x, e, QueryMsg::PollStatus { poll_id: 1 })) {
            Ok(s) => s,
            Err(e) => return div(P, format!("status query failed: {e}")),
        };
        if may_end {
            cov.hit(if before_end { "ended early" } else { "ended" });
            ensure_eq_p!(st.status, want, P, "status after ending");
            // preview of an ended poll still agrees
            let sim: PollStatusResponse = match d.q(|x, e| {
                gov::query(x, e, QueryMsg::SimulateEndPollStatus { poll_id: 1, maximum_available_votes: Uint128::new(max) })
            }) {
                Ok(s) => s,
                Err(e) => return div(P, format!("preview failed: {e}")),
            };
            ensure_eq_p!(sim.status, want, P, "preview after ending");
        } else {
            cov.hit("ending refused");
            ensure_eq_p!(st.status, PollStatus::InProgress { ends_at: ends }, P, "status after refused ending");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create { dur: u64, quorum: u8, threshold: u8, veto: Option<u8> },
    Vote { poll: u8, voter: u8, outcome: u8, amount: u128 },
    Update { voter: u8, amount: u128 },
    End { poll: u8, early: bool, max_extra: u128 },
    Advance(u64),
    /// jump to poll end plus (-1, 0, +1) ns if that is in the future
    ToEnd { poll: u8, off: i8 },
    Page { poll: u8, limit: u8, filter: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
    ops: Vec<Op>,
    /// many polls, or many voters
    wide: bool,
}

pub struct C02;

fn pidx() -> impl Strategy<Value = u8> {
    prop_oneof![8 => 1..4u8, 1 => 0..6u8]
}

#[derive(Clone, Debug)]
struct MPoll {
    started: Timestamp,
    ends: Timestamp,
    quorum: u128,
    threshold: u128,
    veto: Option<u128>,
    votes: BTreeMap<String, (u8, u128)>,
    status: PollStatus,
    proposer: String,
}
impl MPoll {
    fn res(&self) -> [u128; 4] {
        let mut r = [0; 4];
        for (o, a) in self.votes.values() {
            r[*o as usize] += a;
        }
        r
    }
    fn open(&self) -> bool {
        matches!(self.status, PollStatus::InProgress { .. })
    }
}

impl Check for C02 {
    type Case = HistCase;
    fn cases(&self) -> (u64, u64) {
        (16_000, 200_000)
    }
    fn rule(&self) -> &'static str {
        "case = history of 1..40 operations (create, vote, re-weight, end, clock) over up to 5 polls and 5 voters (now and then 120 of either), all query results compared with a map model after every step; non-trivial = contains an accepted re-vote or re-weight that changed a tally and at least one refused vote or ending"
    }
    fn strategy(&self) -> BoxedStrategy<HistCase> {
        let op = prop_oneof![
            1 => (1..200u64, 0..=100u8, 0..=100u8, proptest::option::of(0..=100u8))
                .prop_map(|(dur, quorum, threshold, veto)| Op::Create { dur, quorum, threshold, veto }),
            9 => (pidx(), 0..4u8, 0..4u8, amount()).prop_map(|(poll, voter, outcome, amount)| Op::Vote { poll, voter, outcome, amount }),
            4 => (0..4u8, prop_oneof![1 => Just(0u128), 3 => amount()]).prop_map(|(voter, amount)| Op::Update { voter, amount }),
            3 => (pidx(), any::<bool>(), prop_oneof![0..6u128, 0..40u128, amount()]).prop_map(|(poll, early, max_extra)| Op::End { poll, early, max_extra }),
            2 => prop_oneof![Just(0u64), Just(1), 0..5_000_000_000u64, 0..60_000_000_000u64].prop_map(Op::Advance),
            2 => (pidx(), -1..=1i8).prop_map(|(poll, off)| Op::ToEnd { poll, off }),
            1 => (0..6u8, 1..4u8, 0..4u8).prop_map(|(poll, limit, filter)| Op::Page { poll, limit, filter }),
        ];
        let create = || (1..200u64, 0..=100u8, 0..=100u8, proptest::option::of(0..=100u8))
                .prop_map(|(dur, quorum, threshold, veto)| Op::Create { dur, quorum, threshold, veto });
        let usual = (proptest::collection::vec(create(), 1..4), proptest::collection::vec(op.clone(), 1..45)).prop_map(|(mut first, ops)| {
            first.extend(ops);
            HistCase { ops: first, wide: false }
        });
        // some voters in every one of many polls, or many voters in a few polls; then anything
        let wide = (6..120u8, any::<bool>(), proptest::collection::vec((0..4u8, 0..4u8, 1..50u128), 1..4), proptest::collection::vec(op, 3..16)).prop_map(|(n, polls, vs, ops)| {
            let mut all = vec![];
            for i in 0..if polls { n } else { 3 } {
                all.push(Op::Create { dur: 20 + i as u64 * 37 % 150, quorum: i % 3 * 20, threshold: 30 + i % 4 * 20, veto: None });
            }
            for i in 0..n {
                if polls {
                    for (v, o, a) in &vs {
                        all.push(Op::Vote { poll: i + 1, voter: *v, outcome: (*o + i) % 4, amount: *a + i as u128 });
                    }
                } else {
                    for (k, (v, o, a)) in vs.iter().enumerate() {
                        all.push(Op::Vote { poll: k as u8 + 1, voter: i.wrapping_add(*v), outcome: (*o + i) % 4, amount: *a + i as u128 });
                    }
                }
            }
            let far = |x: &mut u8| if *x % 2 == 0 && polls { *x = n.saturating_sub(*x) };
            for mut op in ops {
                match &mut op {
                    Op::Vote { poll, .. } | Op::End { poll, .. } | Op::ToEnd { poll, .. } => far(poll),
                    _ => {}
                }
                all.push(op);
            }
            HistCase { ops: all, wide: true }
        });
        prop_oneof![60 => usual, 1 => wide].boxed()
    }
    fn run(&self, c: &HistCase, cov: &mut Cov) -> Res {
        const P: &[PropId] = &["C02"];
        let mut d = Direct::new(MockQuerier::default());
        d.tx(ADMIN, &[], |a, b, i| gov::instantiate(a, b, i, InstantiateMsg { admin: ADMIN.into() })).unwrap();
        let mut polls: Vec<MPoll> = vec![];
        let mut changed = false;
        let mut refused = false;
        for (n, op) in c.ops.iter().enumerate() {
            let now = d.env.block.time;
            match op {
                Op::Create { dur, quorum, threshold, veto } => {
                    if polls.len() >= 5 && !c.wide {
                        continue;
                    }
                    let proposer = format!("prop{}", polls.len());
                    let p = |x: u8| x as u128 * (E18 / 100);
                    let ends = now.plus_seconds(*dur);
                    let r = d.tx(ADMIN, &[], |a, b, i| {
                        gov::execute(a, b, i, ExecuteMsg::CreatePoll(CreatePollParams {
                            proposer: proposer.clone(),
                            deposit_amount: Uint128::new(n as u128),
                            label: format!("l{n}"),
                            description: "d".into(),
                            scheme: VotingScheme::CoinVoting,
                            ends_at: ends,
                            quorum: dec(p(*quorum)),
                            threshold: dec(p(*threshold)),
                            veto_threshold: veto.map(|v| dec(p(v))),
                        }))
                    });
                    ensure_p!(r.is_ok(), P, "create refused {r:?}");
                    polls.push(MPoll {
                        started: now,
                        ends,
                        quorum: p(*quorum),
                        threshold: p(*threshold),
                        veto: veto.map(p),
                        votes: BTreeMap::new(),
                        status: PollStatus::InProgress { ends_at: ends },
                        proposer,
                    });
                }
                Op::Vote { poll, voter, outcome: o, amount } => {
                    let voter = format!("voter{voter}");
                    let want = *poll >= 1 && (*poll as usize) <= polls.len() && {
                        let p = &polls[*poll as usize - 1];
                        p.open() && p.started <= now && now < p.ends
                    };
                    let r = d.tx(ADMIN, &[], |a, b, i| {
                        gov::execute(a, b, i, ExecuteMsg::CastVote(CastVoteParams {
                            poll_id: Uint64::new(*poll as u64),
                            outcome: outcome(*o),
                            voter: voter.clone(),
                            amount: Uint128::new(*amount),
                        }))
                    });
                    ensure_eq_p!(r.is_ok(), want, P, "step {n}: vote accepted {r:?}");
                    if want {
                        if let Some(old) = polls[*poll as usize - 1].votes.insert(voter, (*o, *amount)) {
                            if old != (*o, *amount) {
                                changed = true;
                                cov.hit("revote");
                            }
                        }
                    } else {
                        refused = true;
                        cov.hit("vote refused");
                    }
                }
                Op::Update { voter, amount } => {
                    let voter = format!("voter{voter}");
                    let r = d.tx(ADMIN, &[], |a, b, i| {
                        gov::execute(a, b, i, cosmwasm_std::from_json::<ExecuteMsg>(
                            serde_json::to_vec(&serde_json::json!({"update_votes": {"voter": voter, "new_amount": amount.to_string()}})).unwrap(),
                        ).unwrap())
                    });
                    ensure_p!(r.is_ok(), P, "step {n}: re-weighting refused {r:?}");
                    let mut touched = 0;
                    for p in polls.iter_mut() {
                        if p.open() && now < p.ends {
                            if let Some(v) = p.votes.get_mut(&voter) {
                                if v.1 != *amount {
                                    changed = true;
                                    cov.hit("reweighted");
                                    touched += 1;
                                }
                                v.1 = *amount;
                            }
                        }
                    }
                    if touched > 1 {
                        cov.hit("reweighted several polls");
                    }
                }
                Op::End { poll, early, max_extra } => {
                    let (want, max, st) = match polls.get((*poll as usize).wrapping_sub(1)) {
                        None => (false, 10, None),
                        Some(p) => {
                            let res = p.res();
                            let total: u128 = res.iter().sum();
                            let max = total + max_extra;
                            let ok = p.open()
                                && (now >= p.ends
                                    || (*early
                                        && ratio_ge(total, max, p.quorum)
                                        && oracle_decided(&res, p.threshold, p.veto) != Decided::None));
                            (ok, max, Some(oracle_status(&res, max, p.quorum, p.threshold, p.veto)))
                        }
                    };
                    let r = d.tx(ADMIN, &[], |a, b, i| {
                        gov::execute(a, b, i, ExecuteMsg::EndPoll(EndPollParams {
                            poll_id: Uint64::new(*poll as u64),
                            maximum_available_votes: Uint128::new(max),
                            error_if_already_ended: true,
                            allow_early_ending: *early,
                        }))
                    });
                    ensure_eq_p!(r.is_ok(), want, P, "step {n}: ending accepted {r:?}");
                    if want {
                        polls[*poll as usize - 1].status = st.unwrap();
                        cov.hit("ended");
                    } else {
                        refused = true;
                        cov.hit("end refused");
                    }
                }
                Op::Advance(ns) => d.env.block.time = now.plus_nanos(*ns),
                Op::ToEnd { poll, off } => {
                    if let Some(p) = polls.get((*poll as usize).wrapping_sub(1)) {
                        let t = match off {
                            0 => p.ends,
                            1 => p.ends.plus_nanos(1),
                            _ => p.ends.minus_nanos(1),
                        };
                        if t > now {
                            d.env.block.time = t;
                        }
                    }
                }
                Op::Page { .. } if c.wide => {}
                Op::Page { poll, limit, filter } => page_check(&d, &polls, *poll, *limit, *filter)?,
            }
            if c.wide {
                if matches!(op, Op::Update { .. } | Op::End { .. }) || n + 1 == c.ops.len() {
                    observe_wide(&d, &polls, n)?;
                    cov.hit("many polls or voters");
                }
            } else if !matches!(op, Op::Advance(_) | Op::ToEnd { .. } | Op::Page { .. }) || n + 1 == c.ops.len() {
                observe(&d, &polls, n)?;
            }
        }
        cov.nontrivial = changed && refused;
        Ok(())
    }
}

fn get<T: serde::de::DeserializeOwned>(d: &Direct<MockQuerier>, m: QueryMsg) -> Res<T> {
    let s = format!("{m:?}");
    d.q(|x, e| gov::query(x, e, m)).map_err(|e| Divergence { props: vec!["C01", "C02", "C25"], msg: format!("query {s} failed: {e}") })
}

fn pag<T>(start_after: Option<T>, limit: Option<u64>) -> Pagination<T> {
    Pagination { start_after, end_at: None, limit, order_by: None }
}

fn observe(d: &Direct<MockQuerier>, polls: &[MPoll], n: usize) -> Res {
    const P: &[PropId] = &["C02"];
    for (k, p) in polls.iter().enumerate() {
        let id = k as u64 + 1;
        let q: PollResponse = get(d, QueryMsg::Poll(PollParams { poll_id: id }))?;
        let res = p.res();
        for o in 0..4u8 {
            ensure_eq_p!(q.poll.results.get(&o).copied().unwrap_or(0), res[o as usize], P, "step {n}: tally of poll {id} outcome {o}");
        }
        ensure_eq_p!(q.poll.status, p.status, P, "step {n}: status of poll {id}");
        ensure_eq_p!(
            (q.poll.started_at, q.poll.ends_at, q.poll.quorum, q.poll.threshold, q.poll.veto_threshold, q.poll.proposer.to_string()),
            (p.started, p.ends, dec(p.quorum), dec(p.threshold), p.veto.map(dec), p.proposer.clone()),
            P, "step {n}: settings of poll {id}"
        );
        let st: PollStatusResponse = get(d, QueryMsg::PollStatus { poll_id: id })?;
        ensure_eq_p!(st.status, p.status, P, "step {n}: status query of poll {id}");
        let vs: PollVotersResponse = get(d, QueryMsg::PollVoters(PollVotersParams { poll_id: id, pagination: pag(None, None) }))?;
        let got: Vec<Vote> = vs.votes;
        let want: Vec<Vote> = p
            .votes
            .iter()
            .map(|(v, (o, a))| Vote { poll_id: id, voter: Addr::unchecked(v), outcome: *o, amount: *a })
            .collect();
        ensure_eq_p!(got, want, P, "step {n}: votes of poll {id}");
    }
    for v in 0..5 {
        let voter = format!("voter{v}");
        let vs: VoterResponse = get(d, QueryMsg::Voter(VoterParams { voter_addr: voter.clone(), start_after: None, limit: None }))?;
        let want: Vec<Vote> = polls
            .iter()
            .enumerate()
            .filter_map(|(k, p)| {
                p.votes.get(&voter).map(|(o, a)| Vote {
                    poll_id: k as u64 + 1,
                    voter: Addr::unchecked(&voter),
                    outcome: *o,
                    amount: *a,
                })
            })
            .collect();
        ensure_eq_p!(vs.votes, want, P, "step {n}: votes of {voter}");
        if let Some(k) = polls.len().checked_sub(1) {
            let id = (n % (k + 1)) as u64 + 1;
            let pv: PollVoterResponse = get(d, QueryMsg::PollVoter(PollVoterParams { poll_id: Uint64::new(id), voter_addr: voter.clone() }))?;
            ensure_eq_p!(pv.vote, want.iter().find(|w| w.poll_id == id).cloned(), P, "step {n}: vote of {voter} on {id}");
        }
    }
    Ok(())
}

/// tallies, statuses and every single vote, leaving listings to their own checks
fn observe_wide(d: &Direct<MockQuerier>, polls: &[MPoll], n: usize) -> Res {
    const P: &[PropId] = &["C02"];
    for (k, p) in polls.iter().enumerate() {
        let id = k as u64 + 1;
        let q: PollResponse = get(d, QueryMsg::Poll(PollParams { poll_id: id }))?;
        let res = p.res();
        for o in 0..4u8 {
            ensure_eq_p!(q.poll.results.get(&o).copied().unwrap_or(0), res[o as usize], P, "step {n}: tally of poll {id} outcome {o}");
        }
        ensure_eq_p!(q.poll.status, p.status, P, "step {n}: status of poll {id}");
        for (v, (o, a)) in &p.votes {
            let pv: PollVoterResponse = get(d, QueryMsg::PollVoter(PollVoterParams { poll_id: Uint64::new(id), voter_addr: v.clone() }))?;
            ensure_eq_p!(pv.vote.map(|x| (x.outcome, x.amount)), Some((*o, *a)), P, "step {n}: vote of {v} on {id}");
        }
    }
    Ok(())
}

fn page_check(d: &Direct<MockQuerier>, polls: &[MPoll], poll: u8, limit: u8, filter: u8) -> Res {
    const P: &[PropId] = &["C02"];
    if let Some(p) = polls.get((poll as usize).wrapping_sub(1)) {
        let mut got = vec![];
        let mut after: Option<String> = None;
        for _ in 0..50 {
            let vs: PollVotersResponse =
                get(d, QueryMsg::PollVoters(PollVotersParams { poll_id: poll as u64, pagination: pag(after.clone(), Some(limit as u64)) }))?;
            if vs.votes.is_empty() {
                break;
            }
            after = vs.votes.last().map(|v| v.voter.to_string());
            got.extend(vs.votes.into_iter().map(|v| v.voter.to_string()));
        }
        let want: Vec<String> = p.votes.keys().cloned().collect();
        ensure_eq_p!(got, want, P, "paged voters of poll {poll} by {limit}");
    }
    let f = match filter {
        0 => Some(PollStatusFilter::InProgress),
        1 => Some(PollStatusFilter::Passed),
        2 => Some(PollStatusFilter::Rejected),
        _ => None,
    };
    let mut got = vec![];
    let mut after: Option<Uint64> = None;
    for _ in 0..50 {
        let ps: PollsResponse = get(d, QueryMsg::Polls(PollsParams { filter: f.clone(), pagination: pag(after, Some(limit as u64)) }))?;
        if ps.polls.is_empty() {
            break;
        }
        after = ps.polls.last().map(|v| Uint64::new(v.id));
        got.extend(ps.polls.into_iter().map(|v| v.id));
    }
    let want: Vec<u64> = polls
        .iter()
        .enumerate()
        .filter(|(_, p)| f.as_ref().map(|f| p.status.to_filter() == *f).unwrap_or(true))
        .map(|(k, _)| k as u64 + 1)
        .collect();
    ensure_eq_p!(got, want, P, "paged polls by {limit} filter {f:?}");
    Ok(())
}
