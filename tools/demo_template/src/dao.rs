//! A DAO created through the real factory, its component addresses, and JSON builders.
use crate::{Dur, Kind, E18};
use crate::world::*;
use cosmwasm_std::{to_json_binary, Addr, Binary, Decimal, Deps, DepsMut, Empty, Env, MessageInfo, Response, StdError, StdResult};
use cw_multi_test::{Contract, ContractWrapper};
use cw_storage_plus::Item;
use enterprise_protocol::api::ComponentContractsResponse;
use enterprise_versioning_api::api::Version;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

// ------------------------------------------------------------ probe: records (sender, tag)
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum ProbeMsg {
    Tag { tag: u32 },
    Fail {},
}
const PROBE: Item<Vec<(String, u32)>> = Item::new("probe");
fn p_inst(deps: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    PROBE.save(deps.storage, &vec![])?;
    Ok(Response::new())
}
fn p_exec(deps: DepsMut, _: Env, i: MessageInfo, m: ProbeMsg) -> StdResult<Response> {
    match m {
        ProbeMsg::Tag { tag } => {
            let mut v = PROBE.load(deps.storage)?;
            v.push((i.sender.to_string(), tag));
            PROBE.save(deps.storage, &v)?;
            Ok(Response::new())
        }
        ProbeMsg::Fail {} => Err(StdError::generic_err("probe failure")),
    }
}
fn p_query(deps: Deps, _: Env, _: Empty) -> StdResult<Binary> {
    to_json_binary(&PROBE.load(deps.storage)?)
}
pub fn probe() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(p_exec, p_inst, p_query))
}

// ------------------------------------------------------------ specs
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GovSpec {
    /// permille
    pub q: u16,
    pub t: u16,
    pub v: Option<u16>,
    pub dur: u32,
    pub dep: Option<u32>,
    pub early: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CouncilSpec {
    pub members: Vec<u8>,
    pub q: u16,
    pub t: u16,
    pub allowed: Option<Vec<u8>>,
}

pub const TYPES: [&str; 14] = [
    "update_metadata",
    "update_gov_config",
    "update_council",
    "update_asset_whitelist",
    "update_nft_whitelist",
    "request_funding_from_dao",
    "upgrade_dao",
    "execute_msgs",
    "execute_treasury_msgs",
    "execute_enterprise_msgs",
    "modify_multisig_membership",
    "distribute_funds",
    "update_minimum_weight_for_rewards",
    "deploy_cross_chain_treasury",
];
pub const FORBIDDEN: [u8; 9] = [1, 2, 5, 7, 8, 9, 10, 11, 12];

pub fn pm(x: u16) -> u128 {
    x as u128 * (E18 / 1000)
}
pub fn dec_s(atomics: u128) -> String {
    Decimal::raw(atomics).to_string()
}
pub fn dur_json(d: &Dur) -> Value {
    match d {
        Dur::Secs(s) => json!({ "time": s }),
        Dur::Blocks(b) => json!({ "height": b }),
    }
}
impl GovSpec {
    pub fn json(&self) -> Value {
        json!({
            "quorum": dec_s(pm(self.q)), "threshold": dec_s(pm(self.t)), "veto_threshold": self.v.map(|v| dec_s(pm(v))),
            "vote_duration": self.dur, "minimum_deposit": self.dep.map(|d| d.to_string()),
            "allow_early_proposal_execution": self.early,
        })
    }
    pub fn valid(&self, kind: Kind) -> bool {
        let r = |x: u16| x > 0 && x <= 1000;
        r(self.q) && r(self.t) && self.v.map(r).unwrap_or(true) && self.dur > 0 && !(kind == Kind::Multisig && self.dep.is_some())
    }
}
pub fn user(i: u8, n: u8) -> String {
    format!("user{}", i % n)
}
impl CouncilSpec {
    pub fn json(&self, n: u8) -> Value {
        json!({
            "members": self.members.iter().map(|m| user(*m, n)).collect::<Vec<_>>(),
            "quorum": dec_s(pm(self.q)), "threshold": dec_s(pm(self.t)),
            "allowed_proposal_action_types": self.allowed.as_ref().map(|a| a.iter().map(|t| TYPES[*t as usize % 14]).collect::<Vec<_>>()),
        })
    }
    pub fn valid(&self, n: u8) -> bool {
        let r = |x: u16| x > 0 && x <= 1000;
        let set: std::collections::BTreeSet<u8> = self.members.iter().map(|m| m % n).collect();
        r(self.q)
            && r(self.t)
            && set.len() == self.members.len()
            && self.allowed.as_ref().map(|a| a.iter().all(|t| !FORBIDDEN.contains(&(t % 14)))).unwrap_or(true)
    }
}

// ------------------------------------------------------------ creation
pub fn create_dao(w: &mut World, msg: &Value, version: Option<Version>) -> Result<(), String> {
    let f = w.factory.clone();
    let m = match version {
        Some(v) => json!({"create_dao_with_version": {"version": v, "create_dao_msg": msg}}),
        None => json!({ "create_dao": msg }),
    };
    w.exec("dao_creator", &f, &m, &[]).map(|_| ())
}

#[derive(Clone, Debug)]
pub struct Dao {
    pub treasury: Addr,
    pub enterprise: Addr,
    pub c: ComponentContractsResponse,
}

pub fn all_daos(w: &World) -> Result<Vec<(u64, Addr)>, String> {
    let mut out: Vec<(u64, Addr)> = vec![];
    loop {
        let r: enterprise_factory_api::api::AllDaosResponse =
            w.query(&w.factory, &json!({"all_daos": {"start_after": out.last().map(|x| x.0.to_string()), "limit": 50}}))?;
        if r.daos.is_empty() {
            return Ok(out);
        }
        out.extend(r.daos.into_iter().map(|d| (d.dao_id.u64(), d.dao_address)));
    }
}

/// the DAO whose registered (treasury) address is given
pub fn dao_at(w: &World, treasury: &Addr) -> Result<Dao, String> {
    let t: enterprise_treasury_api::api::ConfigResponse = w.query(treasury, &json!({"config": {}}))?;
    let g: enterprise_governance_controller_api::api::ConfigResponse = w.query(&t.admin, &json!({"config": {}}))?;
    let c: ComponentContractsResponse = w.query(&g.enterprise_contract, &json!({"component_contracts": {}}))?;
    Ok(Dao { treasury: treasury.clone(), enterprise: g.enterprise_contract, c })
}
pub fn last_dao(w: &World) -> Result<Dao, String> {
    let t = all_daos(w)?.pop().ok_or("no DAO registered")?.1;
    dao_at(w, &t)
}

// ------------------------------------------------------------ simple DAOs for other engines
pub fn meta(name: &str) -> enterprise_protocol::api::DaoMetadata {
    enterprise_protocol::api::DaoMetadata {
        name: name.into(),
        description: None,
        logo: enterprise_protocol::api::Logo::None,
        socials: enterprise_protocol::api::DaoSocialData { github_username: None, discord_username: None, twitter_username: None, telegram_username: None },
    }
}
/// the membership asset: denom, token or NFT collection address
#[derive(Clone, Debug)]
pub enum Asset {
    Denom(String),
    Token(Addr),
    Nft(Addr),
    None,
}
pub fn simple_gov() -> GovSpec {
    GovSpec { q: 100, t: 500, v: None, dur: 1000, dep: None, early: true }
}
/// a valid creation request; users get what they need to stake `stakes[i]`
pub fn simple_dao(w: &mut World, kind: Kind, council: bool, stakes: &[u32]) -> (Value, Asset) {
    let ul = json!({"time": 1000});
    let (membership, asset) = match kind {
        Kind::Denom => {
            for (i, s) in stakes.iter().enumerate() {
                if *s > 0 {
                    w.mint(&format!("user{i}"), *s as u128, "udao");
                }
            }
            (json!({"new_denom": {"denom": "udao", "unlocking_period": ul}}), Asset::Denom("udao".into()))
        }
        Kind::Token => {
            let b: Vec<(String, u128)> = stakes.iter().enumerate().map(|(i, s)| (format!("user{i}"), *s as u128 + 1)).collect();
            let b: Vec<(&str, u128)> = b.iter().map(|(a, x)| (a.as_str(), *x)).collect();
            let t = w.new_cw20("DAO", &b);
            (json!({"import_cw20": {"cw20_contract": t, "unlocking_period": ul}}), Asset::Token(t))
        }
        Kind::Nft => {
            let t = w.new_cw721(ECO_ADMIN);
            for (i, s) in stakes.iter().enumerate() {
                for k in 0..(*s % 4) {
                    w.mint_nft(&t, ECO_ADMIN, &format!("u{i}n{k}"), &format!("user{i}"));
                }
            }
            (json!({"import_cw721": {"cw721_contract": t, "unlocking_period": ul}}), Asset::Nft(t))
        }
        Kind::Multisig => {
            let ms: Vec<Value> = stakes.iter().enumerate().map(|(i, s)| json!({"user": format!("user{i}"), "weight": (*s as u128 + 1).to_string()})).collect();
            (json!({"new_multisig": {"multisig_members": ms}}), Asset::None)
        }
    };
    let council = council.then(|| CouncilSpec { members: vec![0, 2], q: 300, t: 500, allowed: None }.json(5));
    (
        json!({
            "dao_metadata": meta("simple"), "gov_config": simple_gov().json(), "dao_council": council, "dao_membership": membership,
            "asset_whitelist": null, "nft_whitelist": null, "minimum_weight_for_rewards": null, "cross_chain_treasuries": null, "attestation_text": null,
        }),
        asset,
    )
}
pub fn simple_stakes(w: &mut World, kind: Kind, d: &Dao, asset: &Asset, stakes: &[u32]) -> Result<(), String> {
    let m = d.c.membership_contract.clone();
    for (i, s) in stakes.iter().enumerate() {
        let u = format!("user{i}");
        match (kind, asset) {
            (Kind::Denom, Asset::Denom(x)) if *s > 0 => {
                w.exec(&u, &m, &json!({"stake": {"user": null}}), &[cosmwasm_std::coin(*s as u128, x)])?;
            }
            (Kind::Token, Asset::Token(t)) if *s > 0 => {
                w.cw20_send(t, &u, &m, *s as u128, &json!({"stake": {"user": u}}))?;
            }
            (Kind::Nft, Asset::Nft(t)) => {
                for k in 0..(*s % 4) {
                    w.send_nft(t, &u, &m, &format!("u{i}n{k}"), &json!({"stake": {"user": u}}))?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}
