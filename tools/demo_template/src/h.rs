//! small helpers for DAO scenarios
use crate::dao::*;
use crate::world::*;
use cosmwasm_std::{coin, coins, Addr, Coin};
use serde_json::{json, Value};
/// a DAO created from `msg`
pub fn mk(w: &mut World, msg: &Value) -> Dao {
    create_dao(w, msg, None).expect("create DAO");
    last_dao(w).expect("DAO")
}
pub fn prop_msg(actions: Value) -> Value {
    json!({"title": "t", "description": "d", "proposal_actions": actions, "deposit_owner": null})
}
pub fn propose(w: &mut World, d: &Dao, by: &str, actions: Value, funds: &[Coin]) -> Result<(), String> {
    w.exec(by, &d.c.enterprise_governance_controller_contract, &json!({"create_proposal": prop_msg(actions)}), funds).map(|_| ())
}
pub fn propose_council(w: &mut World, d: &Dao, by: &str, actions: Value) -> Result<(), String> {
    w.exec(by, &d.c.enterprise_governance_controller_contract, &json!({"create_council_proposal": prop_msg(actions)}), &[]).map(|_| ())
}
pub fn vote(w: &mut World, d: &Dao, by: &str, id: u64, outcome: &str) -> Result<(), String> {
    w.exec(by, &d.c.enterprise_governance_controller_contract, &json!({"cast_vote": {"proposal_id": id, "outcome": outcome}}), &[]).map(|_| ())
}
pub fn vote_council(w: &mut World, d: &Dao, by: &str, id: u64, outcome: &str) -> Result<(), String> {
    w.exec(by, &d.c.enterprise_governance_controller_contract, &json!({"cast_council_vote": {"proposal_id": id, "outcome": outcome}}), &[]).map(|_| ())
}
pub fn finalise(w: &mut World, d: &Dao, by: &str, id: u64) -> Result<(), String> {
    w.exec(by, &d.c.enterprise_governance_controller_contract, &json!({"execute_proposal": {"proposal_id": id}}), &[]).map(|_| ())
}
pub fn proposal(w: &World, d: &Dao, id: u64) -> Value {
    w.query(&d.c.enterprise_governance_controller_contract, &json!({"proposal": {"proposal_id": id}})).expect("proposal query")
}
pub fn secs(w: &mut World, s: u64) {
    w.advance(s * 1_000_000_000, 1 + s / 5);
}
/// vote yes by all and finalise after the period
pub fn pass(w: &mut World, d: &Dao, voters: &[&str], actions: Value) {
    propose(w, d, voters[0], actions, &[]).expect("propose");
    let r: Value = w.query(&d.c.enterprise_governance_controller_contract, &json!({"proposals": {"filter": null, "start_after": null, "limit": 100}})).unwrap();
    let id = r["proposals"].as_array().unwrap().len() as u64;
    for v in voters {
        vote(w, d, v, id, "yes").expect("vote");
    }
    let e: Value = w.query(&d.c.enterprise_governance_controller_contract, &json!({"gov_config": {}})).unwrap();
    let dur = e["gov_config"]["vote_duration"].as_u64().unwrap();
    secs(w, dur);
    finalise(w, d, voters[0], id).expect("finalise");
}
