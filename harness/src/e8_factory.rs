//! E8: DAO creation. C21.
use crate::dao::*;
use crate::e2_member::{Dur, Kind};
use crate::fw::*;
use crate::world::*;
use crate::wrap::{sent, Wrapped};
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::{to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Response, StdResult};
use cw_multi_test::{Contract, ContractWrapper, Executor};
use cw_storage_plus::{Item, Map};
use enterprise_versioning_api::api::{AddVersionMsg, Version};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const P: &[PropId] = &["C21"];
const N: u8 = 6;

// ------------------------------------------------------------ a multisig to import: paged voter list
const VOTERS: Item<Vec<(String, u64)>> = Item::new("voters");
fn v_inst(d: DepsMut, _: Env, _: MessageInfo, m: Vec<(String, u64)>) -> StdResult<Response> {
    VOTERS.save(d.storage, &m)?;
    Ok(Response::new())
}
fn v_exec(_: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    Ok(Response::new())
}
fn v_query(d: Deps, _: Env, m: cw3::Cw3QueryMsg) -> StdResult<Binary> {
    match m {
        cw3::Cw3QueryMsg::ListVoters { start_after, limit } => {
            let l = limit.unwrap_or(10).min(30) as usize;
            let voters = VOTERS
                .load(d.storage)?
                .into_iter()
                .filter(|(a, _)| start_after.as_ref().map(|s| a > s).unwrap_or(true))
                .take(l)
                .map(|(addr, weight)| cw3::VoterDetail { addr, weight })
                .collect();
            to_json_binary(&cw3::VoterListResponse { voters })
        }
        _ => Err(cosmwasm_std::StdError::generic_err("unsupported")),
    }
}
fn cw3_mock() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(v_exec, v_inst, v_query))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mem {
    NewDenom,
    /// 0: held token, 1: no supply but a minter, 2: no supply and no minter, 3: not a token, 4: no contract
    ImportCw20(u8),
    NewCw20 { bal: Vec<(u8, u32)>, dao: Option<u32>, mint: Option<(u8, Option<u64>)>, marketing: Option<bool>, dec: u8 },
    /// 0: collection, 1: not a collection, 2: no contract
    ImportCw721(u8),
    NewCw721 { minter: Option<u8> },
    NewIcs721 { class: u8 },
    ImportCw3 { members: Vec<u8>, wrong: bool },
    NewMultisig(Vec<(u8, u32)>),
}
impl Mem {
    fn kind(&self) -> Kind {
        match self {
            Mem::NewDenom => Kind::Denom,
            Mem::ImportCw20(_) | Mem::NewCw20 { .. } => Kind::Token,
            Mem::ImportCw721(_) | Mem::NewCw721 { .. } | Mem::NewIcs721 { .. } => Kind::Nft,
            Mem::ImportCw3 { .. } | Mem::NewMultisig(_) => Kind::Multisig,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    mem: Mem,
    gov: GovSpec,
    unlock: Dur,
    council: Option<CouncilSpec>,
    /// indices of requested assets (below 8 native, otherwise cw20) and NFT collections
    wl: Option<Vec<u8>>,
    nft: Option<Vec<u8>>,
    min_w: Option<u32>,
    att: Option<u8>,
    meta: [Option<u8>; 6],
    name: u8,
    /// 0,1,2: a published version, 3: unpublished, None: the latest
    version: Option<u8>,
    /// chains of initial cross-chain treasuries
    chains: Option<Vec<u8>>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create(Req),
    /// by: 0 the administrator; new codes / administrator / registry
    Config { by: u8, cw20: Option<bool>, cw721: Option<bool>, admin: Option<u8>, registry: bool },
    Later(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    uluna: u8,
    recorded: Vec<u8>,
    ops: Vec<Op>,
}

fn asset_json(i: u8) -> Value {
    if i < 8 { json!({"native": format!("u{i}")}) } else { json!({"cw20": format!("token{i}")}) }
}
fn meta_of(r: &Req) -> Value {
    let s = |i: usize, p: &str| r.meta[i].map(|x| format!("{p}{x}"));
    json!({
        "name": format!("dao {}", r.name), "description": s(0, "desc"),
        "logo": match r.meta[1] { Some(x) => json!({"url": format!("http://{x}")}), None => json!("none") },
        "socials": {"github_username": s(2, "gh"), "discord_username": s(3, "dc"), "twitter_username": s(4, "tw"), "telegram_username": s(5, "tg")},
    })
}
fn spec(chain: u8) -> Value {
    json!({"chain_id": format!("chain-{chain}"), "chain_bech32_prefix": "juno", "src_ibc_port": "transfer", "src_ibc_channel": format!("channel-{chain}"),
        "dest_ibc_port": "transfer", "dest_ibc_channel": format!("channel-9{chain}"), "uluna_denom": "ibc/ABC", "timeout_nanos": null})
}
fn u(i: u8) -> String {
    format!("user{}", i % N)
}
fn cw3_member(i: usize) -> String {
    format!("voter{i:03}")
}

struct Assets {
    token: Addr,
    token_minted: Addr,
    token_dead: Addr,
    nft: Addr,
    cw3_code: u64,
    probe: Addr,
}
struct S {
    w: World,
    a: Assets,
    versions: Vec<(Version, Codes)>,
    other_registry: (Addr, Codes),
    registry_other: bool,
    admin: String,
    cw20_code: u64,
    cw721_code: u64,
    alt: (u64, u64),
    daos: Vec<Addr>,
    recorded: BTreeSet<u64>,
}

fn q<T: serde::de::DeserializeOwned>(w: &World, c: &Addr, m: Value, what: &str) -> Res<T> {
    match w.query(c, &m) {
        Ok(v) => Ok(v),
        Err(e) => div(P, format!("{what}: query {m} fails: {e}")),
    }
}

impl S {
    fn build(c: &Case) -> Res<S> {
        let mut w = World::new();
        let mut sets = vec![w.codes.clone(), store_codes(&mut w.app), store_codes(&mut w.app), store_codes(&mut w.app)];
        for s in sets.iter_mut() {
            s.outposts = w.app.store_code(Wrapped::strip(outposts_code()));
        }
        // own registry: versions with different codes; order by text, by minor part and by release disagree
        let admin = Addr::unchecked(ECO_ADMIN);
        let reg = w.inst(w.codes.versioning, ECO_ADMIN, &json!({"admin": ECO_ADMIN}), None).or_else(|e| div(P, e))?;
        let reg2 = w.inst(w.codes.versioning, ECO_ADMIN, &json!({"admin": ECO_ADMIN}), None).or_else(|e| div(P, e))?;
        let vs = [Version::new(1, 0, 0), Version::new(2, 11, 0), Version::new(10, 0, 3)];
        let mut versions = vec![];
        for (v, s) in vs.iter().zip(&sets) {
            w.exec(ECO_ADMIN, &reg, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: version_info(v.clone(), s) }), &[])
                .or_else(|e| div(P, e))?;
            versions.push((v.clone(), s.clone()));
        }
        for v in [&vs[0], &vs[1]] {
            w.exec(ECO_ADMIN, &reg2, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: version_info(v.clone(), &sets[3]) }), &[])
                .or_else(|e| div(P, e))?;
        }
        w.versioning = reg.clone();
        let recorded: BTreeSet<u64> = c.recorded.iter().map(|x| *x as u64 + 1).collect();
        let r2 = recorded.clone();
        let fcode = w.app.store_code(Wrapped::with_state(factory_code(), move |s| {
            for x in &r2 {
                Map::<u64, ()>::new("enterprise_code_ids").save(s, *x, &()).unwrap();
            }
        }));
        w.factory = w
            .app
            .instantiate_contract(
                fcode,
                admin.clone(),
                &json!({"config": {"admin": ECO_ADMIN, "enterprise_versioning": reg, "cw20_code_id": w.codes.cw20, "cw721_code_id": w.codes.cw721},
                    "global_asset_whitelist": [{"native": "uglobal"}], "global_nft_whitelist": ["global_nft"]}),
                &[],
                "factory",
                None,
            )
            .map_err(|e| dv(P, format!("factory cannot be created: {e}")))?;
        let f = w.factory.to_string();
        w.mint(&f, c.uluna as u128, "uluna");
        let token = w.new_cw20("TOK", &[("user0", 5)]);
        let token_minted = w.new_cw20("NONE", &[]);
        let token_dead = w
            .inst(w.codes.cw20, ECO_ADMIN, &json!({"name": "dead", "symbol": "DEAD", "decimals": 6, "initial_balances": [], "mint": null, "marketing": null}), None)
            .or_else(|e| div(P, e))?;
        let nft = w.new_cw721(ECO_ADMIN);
        let cw3_code = w.app.store_code(cw3_mock());
        let pc = w.app.store_code(probe());
        let probe = w.inst(pc, ECO_ADMIN, &json!({}), None).or_else(|e| div(P, e))?;
        let alt = (w.app.store_code(cw20_contract()), w.app.store_code(cw721_contract()));
        let (cw20_code, cw721_code) = (w.codes.cw20, w.codes.cw721);
        Ok(S {
            w,
            a: Assets { token, token_minted, token_dead, nft, cw3_code, probe },
            versions,
            other_registry: (reg2, sets[3].clone()),
            registry_other: false,
            admin: ECO_ADMIN.into(),
            cw20_code,
            cw721_code,
            alt,
            daos: vec![],
            recorded,
        })
    }

    fn create(&mut self, r: &Req, cov: &mut Cov) -> Res {
        let kind = r.mem.kind();
        let ul = dur_json(&r.unlock);
        let mut bad: Vec<&str> = vec![];
        let mut either = false;
        // what the membership should be
        let mut weights: BTreeMap<String, u128> = BTreeMap::new();
        let mut import: Option<Addr> = None;
        let mem = match &r.mem {
            Mem::NewDenom => json!({"new_denom": {"denom": "udao", "unlocking_period": ul}}),
            Mem::ImportCw20(k) => {
                let a = match k {
                    0 => self.a.token.clone(),
                    1 => self.a.token_minted.clone(),
                    2 => self.a.token_dead.clone(),
                    3 => self.a.nft.clone(),
                    _ => Addr::unchecked("nowhere"),
                };
                if *k >= 2 {
                    bad.push("token");
                }
                import = Some(a.clone());
                json!({"import_cw20": {"cw20_contract": a, "unlocking_period": ul}})
            }
            Mem::NewCw20 { bal, dao, mint, marketing, dec } => {
                if bal.iter().any(|b| b.1 == 0) || *dao == Some(0) {
                    bad.push("zero balance");
                }
                if bal.iter().map(|b| b.0 % N).collect::<BTreeSet<_>>().len() != bal.len() {
                    bad.push("duplicate holder");
                }
                if bal.is_empty() && mint.is_none() {
                    bad.push("no holder or minter");
                }
                let total: u64 = bal.iter().map(|b| b.1 as u64).sum::<u64>() + dao.unwrap_or(0) as u64;
                if let Some((_, Some(cap))) = mint {
                    if *cap < total {
                        bad.push("cap");
                    }
                }
                json!({"new_cw20": {
                    "token_name": format!("Token {}", r.name), "token_symbol": "NEWTOK", "token_decimals": dec,
                    "initial_token_balances": bal.iter().map(|b| json!({"address": u(b.0), "amount": b.1.to_string()})).collect::<Vec<_>>(),
                    "initial_dao_balance": dao.map(|d| d.to_string()),
                    "token_mint": mint.as_ref().map(|(m, cap)| json!({"minter": u(*m), "cap": cap.map(|c| c.to_string())})),
                    "token_marketing": marketing.map(|own| json!({"project": "proj", "description": "about", "marketing_owner": own.then(|| "user1"), "logo_url": "http://logo"})),
                    "unlocking_period": ul,
                }})
            }
            Mem::ImportCw721(k) => {
                let a = match k {
                    0 => self.a.nft.clone(),
                    1 => self.a.token.clone(),
                    _ => Addr::unchecked("nowhere"),
                };
                if *k >= 1 {
                    bad.push("collection");
                }
                import = Some(a.clone());
                json!({"import_cw721": {"cw721_contract": a, "unlocking_period": ul}})
            }
            Mem::NewCw721 { minter } => json!({"new_cw721": {"nft_name": format!("Nft {}", r.name), "nft_symbol": "NEWNFT", "minter": minter.map(u), "unlocking_period": ul}}),
            Mem::NewIcs721 { class } => json!({"new_ics721": {"ics721_proxy": self.a.probe, "class_id": format!("class/{class}"), "unlocking_period": ul}}),
            Mem::ImportCw3 { members, wrong } => {
                let list: Vec<(String, u64)> = members.iter().enumerate().map(|(i, w)| (cw3_member(i), *w as u64)).collect();
                let a = if *wrong { self.a.token.clone() } else { self.w.inst(self.a.cw3_code, ECO_ADMIN, &list, None).or_else(|e| div(P, e))? };
                if *wrong {
                    bad.push("not a multisig");
                }
                if members.iter().all(|w| *w == 0) {
                    bad.push("no weight");
                }
                weights = list.iter().filter(|x| x.1 > 0).map(|(a, w)| (a.clone(), *w as u128)).collect();
                if members.len() > 30 {
                    cov.hit("import-several-pages");
                }
                either |= members.contains(&0);
                json!({"import_cw3": {"cw3_contract": a}})
            }
            Mem::NewMultisig(ms) => {
                if ms.iter().map(|b| b.0 % N).collect::<BTreeSet<_>>().len() != ms.len() {
                    bad.push("duplicate member");
                }
                if ms.iter().all(|m| m.1 == 0) {
                    bad.push("no weight");
                }
                either |= ms.iter().any(|m| m.1 == 0);
                weights = ms.iter().filter(|x| x.1 > 0).map(|(a, w)| (u(*a), *w as u128)).collect();
                json!({"new_multisig": {"multisig_members": ms.iter().map(|m| json!({"user": u(m.0), "weight": m.1.to_string()})).collect::<Vec<_>>()}})
            }
        };
        if !r.gov.valid(kind) {
            bad.push("governance settings");
        }
        if let Some(c) = &r.council {
            if !c.valid(N) {
                bad.push("council");
            }
        }
        if kind != Kind::Multisig {
            if let Dur::Secs(s) = r.unlock {
                if s < r.gov.dur as u64 {
                    bad.push("unlocking period");
                }
            }
        }
        // repeated whitelist entries: either way
        let dup = |v: &Option<Vec<u8>>| v.as_ref().map(|v| v.iter().collect::<BTreeSet<_>>().len() != v.len()).unwrap_or(false);
        either |= dup(&r.wl) || dup(&r.nft);
        let (version, codes) = match (r.version, self.registry_other) {
            (Some(3), _) | (Some(2), true) => {
                bad.push("version");
                (Some(if r.version == Some(3) { Version::new(2, 11, 1) } else { Version::new(10, 0, 3) }), self.versions[0].1.clone())
            }
            (Some(k), true) => (Some(self.versions[k as usize % 2].0.clone()), self.other_registry.1.clone()),
            (Some(k), false) => (Some(self.versions[k as usize % 3].0.clone()), self.versions[k as usize % 3].1.clone()),
            (None, true) => (None, self.other_registry.1.clone()),
            (None, false) => (None, self.versions[2].1.clone()),
        };
        let want_version = version.clone().unwrap_or(if self.registry_other { Version::new(2, 11, 0) } else { Version::new(10, 0, 3) });
        let n_chains = r.chains.as_ref().map(|c| c.len()).unwrap_or(0);
        let uluna = self.w.bank(self.w.factory.as_str(), "uluna");
        if n_chains as u128 > uluna {
            bad.push("outposts funding");
        }
        let req = json!({
            "dao_metadata": meta_of(r), "gov_config": r.gov.json(), "dao_council": r.council.as_ref().map(|c| c.json(N)), "dao_membership": mem,
            "asset_whitelist": r.wl.as_ref().map(|v| v.iter().map(|i| asset_json(*i)).collect::<Vec<_>>()),
            "nft_whitelist": r.nft.as_ref().map(|v| v.iter().map(|i| format!("coll{i}")).collect::<Vec<_>>()),
            "minimum_weight_for_rewards": r.min_w.map(|m| m.to_string()),
            "cross_chain_treasuries": r.chains.as_ref().map(|v| v.iter().map(|c| json!({"cross_chain_msg_spec": spec(*c), "asset_whitelist": [{"native": "uremote"}], "nft_whitelist": null,
                "ics_proxy_code_id": 7, "enterprise_treasury_code_id": 8, "chain_global_proxy": format!("juno1global{c}")})).collect::<Vec<_>>()),
            "attestation_text": r.att.map(|a| format!("text {a}")),
        });
        let t0 = self.w.now();
        let res = create_dao(&mut self.w, &req, version);
        let after = match all_daos(&self.w) {
            Ok(l) => l,
            Err(e) => return div(P, format!("DAO listing fails: {e}")),
        };
        let prefix: Vec<(u64, Addr)> = self.daos.iter().enumerate().map(|(i, a)| (i as u64 + 1, a.clone())).collect();
        ensure_p!(after.len() >= prefix.len() && after[..prefix.len()] == prefix[..], P, "registered DAOs {after:?} no longer start with {prefix:?}");
        let what = format!("creating a DAO from {req}");
        match res {
            Err(e) => {
                ensure_p!(!bad.is_empty() || either, P, "{what} refused: {e}");
                ensure_eq_p!(after.len(), prefix.len(), P, "{what} refused but registered");
                ensure_eq_p!(self.w.bank(self.w.factory.as_str(), "uluna"), uluna, P, "{what} refused but paid");
                for b in bad {
                    cov.hit(&format!("refused-{b}"));
                }
                return Ok(());
            }
            Ok(_) => ensure_p!(bad.is_empty(), P, "{what} accepted in spite of {bad:?}"),
        }
        ensure_eq_p!(after.len(), prefix.len() + 1, P, "{what}: registered DAOs");
        ensure_eq_p!(after.last().unwrap().0, prefix.len() as u64 + 1, P, "{what}: id of the new DAO");
        let treasury = after.last().unwrap().1.clone();
        ensure_p!(!self.daos.contains(&treasury), P, "{what}: registered under an existing address");
        self.daos.push(treasury.clone());
        cov.hit("created");
        cov.hit(match &r.mem {
            Mem::NewDenom => "new-denom",
            Mem::ImportCw20(_) => "import-cw20",
            Mem::NewCw20 { .. } => "new-cw20",
            Mem::ImportCw721(_) => "import-cw721",
            Mem::NewCw721 { .. } => "new-cw721",
            Mem::NewIcs721 { .. } => "new-ics721",
            Mem::ImportCw3 { .. } => "import-cw3",
            Mem::NewMultisig(_) => "new-multisig",
        });

        // ---------------------------------------------------------------- wiring
        let w = &self.w;
        let d = dao_at(w, &treasury).or_else(|e| div(P, format!("{what}: component lookup fails: {e}")))?;
        let c = &d.c;
        ensure_eq_p!(c.enterprise_treasury_contract, treasury, P, "{what}: the registered address is the DAO's treasury");
        ensure_eq_p!(c.enterprise_factory_contract, w.factory, P, "{what}: factory");
        ensure_eq_p!(c.attestation_contract.is_some(), r.att.is_some(), P, "{what}: attestation presence");
        let member_code = match kind {
            Kind::Denom => codes.denom,
            Kind::Token => codes.token,
            Kind::Nft => codes.nft,
            Kind::Multisig => codes.multisig,
        };
        let mut all = vec![
            ("main", d.enterprise.clone(), codes.enterprise),
            ("governance", c.enterprise_governance_contract.clone(), codes.governance),
            ("controller", c.enterprise_governance_controller_contract.clone(), codes.controller),
            ("outposts", c.enterprise_outposts_contract.clone(), codes.outposts),
            ("treasury", c.enterprise_treasury_contract.clone(), codes.treasury),
            ("distributor", c.funds_distributor_contract.clone(), codes.distributor),
            ("membership", c.membership_contract.clone(), member_code),
            ("council", c.council_membership_contract.clone(), codes.multisig),
        ];
        if let Some(a) = &c.attestation_contract {
            all.push(("attestation", a.clone(), codes.attestation));
        }
        ensure_eq_p!(all.iter().map(|x| x.1.to_string()).collect::<BTreeSet<_>>().len(), all.len(), P, "{what}: distinct components");
        for (n, a, code) in &all {
            let i = match w.app.wrap().query_wasm_contract_info(a.to_string()) {
                Ok(i) => i,
                Err(e) => return div(P, format!("{what}: {n} contract {a} does not exist: {e}")),
            };
            ensure_eq_p!(i.code_id, *code, P, "{what}: code of the {n} contract");
            if *n == "attestation" {
                ensure_p!(i.admin.is_none() || i.admin == Some(d.enterprise.to_string()), P, "{what}: attestation administered by {:?}", i.admin);
            } else {
                ensure_eq_p!(i.admin, Some(d.enterprise.to_string()), P, "{what}: administrator of the {n} contract");
            }
        }
        let ctl = c.enterprise_governance_controller_contract.clone();
        let x: Value = q(w, &ctl, json!({"config": {}}), &what)?;
        ensure_eq_p!(x["enterprise_contract"], json!(d.enterprise), P, "{what}: controller's DAO");
        let x: Value = q(w, &treasury, json!({"config": {}}), &what)?;
        ensure_eq_p!(x["admin"], json!(ctl), P, "{what}: treasury's administrator");
        // ---------------------------------------------------------------- settings
        let x: Value = q(w, &ctl, json!({"gov_config": {}}), &what)?;
        ensure_eq_p!(x["gov_config"], r.gov.json(), P, "{what}: governance settings");
        ensure_eq_p!(x["dao_membership_contract"], json!(c.membership_contract), P, "{what}: membership contract known to governance");
        ensure_eq_p!(x["dao_council_membership_contract"], json!(c.council_membership_contract), P, "{what}: council contract known to governance");
        match &r.council {
            None => ensure_eq_p!(x["council_gov_config"], Value::Null, P, "{what}: council settings"),
            Some(s) => {
                let sj = s.json(N);
                for f in ["quorum", "threshold"] {
                    ensure_eq_p!(x["council_gov_config"][f], sj[f], P, "{what}: council {f}");
                }
                let want = if s.allowed.is_some() { sj["allowed_proposal_action_types"].clone() } else { json!(["upgrade_dao"]) };
                ensure_eq_p!(x["council_gov_config"]["allowed_proposal_action_types"], want, P, "{what}: council's allowed actions");
            }
        }
        let x: Value = q(w, &d.enterprise, json!({"dao_info": {}}), &what)?;
        ensure_eq_p!(x["metadata"], meta_of(r), P, "{what}: metadata");
        ensure_eq_p!(x["dao_version"], serde_json::to_value(&want_version).unwrap(), P, "{what}: version");
        ensure_eq_p!(x["creation_date"], json!(t0.nanos().to_string()), P, "{what}: creation date");
        let ty = match kind {
            Kind::Denom => "denom",
            Kind::Token => "token",
            Kind::Nft => "nft",
            Kind::Multisig => "multisig",
        };
        ensure_eq_p!(x["dao_type"], json!(ty), P, "{what}: type");
        if let (Some(t), Some(a)) = (r.att, &c.attestation_contract) {
            let x: Value = q(w, a, json!({"attestation_text": {}}), &what)?;
            ensure_eq_p!(x["text"], json!(format!("text {t}")), P, "{what}: attestation text");
        }
        let x: Value = q(w, &c.funds_distributor_contract, json!({"minimum_eligible_weight": {}}), &what)?;
        ensure_eq_p!(x["minimum_eligible_weight"], json!(r.min_w.unwrap_or(0).to_string()), P, "{what}: minimum weight for rewards");
        // council members
        let x: Value = q(w, &c.council_membership_contract, json!({"members": {"start_after": null, "limit": 100}}), &what)?;
        let mut got: Vec<(String, String)> = x["members"].as_array().unwrap().iter().map(|m| (m["user"].as_str().unwrap().into(), m["weight"].as_str().unwrap().into())).collect();
        got.sort();
        let mut want: Vec<(String, String)> = r.council.as_ref().map(|s| s.members.iter().map(|m| (user(*m, N), "1".to_string())).collect()).unwrap_or_default();
        want.sort();
        ensure_eq_p!(got, want, P, "{what}: council members");
        // ---------------------------------------------------------------- membership
        let m = c.membership_contract.clone();
        let mut dao_token: Option<Addr> = None;
        match kind {
            Kind::Denom => {
                let x: Value = q(w, &m, json!({"denom_config": {}}), &what)?;
                ensure_eq_p!(x, json!({"enterprise_contract": d.enterprise, "denom": "udao", "unlocking_period": ul}), P, "{what}: membership settings");
            }
            Kind::Token => {
                let x: Value = q(w, &m, json!({"token_config": {}}), &what)?;
                let t = Addr::unchecked(x["token_contract"].as_str().unwrap());
                ensure_eq_p!(x["enterprise_contract"], json!(d.enterprise), P, "{what}: membership's DAO");
                ensure_eq_p!(x["unlocking_period"], ul, P, "{what}: unlocking period");
                dao_token = Some(t.clone());
                if let Mem::NewCw20 { bal, dao, mint, marketing, dec } = &r.mem {
                    let i = w.app.wrap().query_wasm_contract_info(t.to_string()).map_err(|e| dv(P, e.to_string()))?;
                    ensure_eq_p!(i.code_id, self.cw20_code, P, "{what}: code of the new token");
                    ensure_eq_p!(i.admin, Some(d.enterprise.to_string()), P, "{what}: administrator of the new token");
                    let x: Value = q(w, &t, json!({"token_info": {}}), &what)?;
                    let total: u128 = bal.iter().map(|b| b.1 as u128).sum::<u128>() + dao.unwrap_or(0) as u128;
                    ensure_eq_p!(x, json!({"name": format!("Token {}", r.name), "symbol": "NEWTOK", "decimals": dec, "total_supply": total.to_string()}), P, "{what}: token info");
                    for (a, b) in bal {
                        ensure_eq_p!(w.cw20(&t, &u(*a)), *b as u128, P, "{what}: initial balance of {}", u(*a));
                    }
                    ensure_eq_p!(w.cw20(&t, treasury.as_str()), dao.unwrap_or(0) as u128, P, "{what}: initial token balance of the DAO");
                    let x: Value = q(w, &t, json!({"minter": {}}), &what)?;
                    let want = match mint {
                        Some((a, cap)) => json!({"minter": u(*a), "cap": cap.map(|c| c.to_string())}),
                        None => json!({"minter": d.enterprise, "cap": null}),
                    };
                    ensure_eq_p!(x, want, P, "{what}: minter");
                    let x: Value = q(w, &t, json!({"marketing_info": {}}), &what)?;
                    let want = match marketing {
                        Some(own) => json!({"project": "proj", "description": "about", "logo": {"url": "http://logo"}, "marketing": if *own { "user1".to_string() } else { d.enterprise.to_string() }}),
                        None => json!({"project": null, "description": null, "logo": null, "marketing": d.enterprise}),
                    };
                    ensure_eq_p!(x, want, P, "{what}: marketing");
                } else {
                    ensure_eq_p!(Some(&t), import.as_ref(), P, "{what}: imported token");
                }
            }
            Kind::Nft => {
                let x: Value = q(w, &m, json!({"nft_contract_config": {}}), &what)?;
                ensure_eq_p!(x["enterprise_contract"], json!(d.enterprise), P, "{what}: membership's DAO");
                ensure_eq_p!(x["unlocking_period"], ul, P, "{what}: unlocking period");
                match &r.mem {
                    Mem::ImportCw721(_) => ensure_eq_p!(x["nft_contract"], json!({"cw721": {"contract": self.a.nft}}), P, "{what}: imported collection"),
                    Mem::NewIcs721 { class } => {
                        ensure_eq_p!(x["nft_contract"], json!({"ics721": {"contract": self.a.probe, "class_id": format!("class/{class}")}}), P, "{what}: cross-chain collection")
                    }
                    _ => {
                        let t = Addr::unchecked(x["nft_contract"]["cw721"]["contract"].as_str().unwrap_or(""));
                        let i = w.app.wrap().query_wasm_contract_info(t.to_string()).map_err(|e| dv(P, e.to_string()))?;
                        ensure_eq_p!(i.code_id, self.cw721_code, P, "{what}: code of the new collection");
                        ensure_eq_p!(i.admin, Some(d.enterprise.to_string()), P, "{what}: administrator of the new collection");
                        let y: Value = q(w, &t, json!({"contract_info": {}}), &what)?;
                        ensure_eq_p!(y, json!({"name": format!("Nft {}", r.name), "symbol": "NEWNFT"}), P, "{what}: collection info");
                        let y: Value = q(w, &t, json!({"minter": {}}), &what)?;
                        let Mem::NewCw721 { minter } = &r.mem else { unreachable!() };
                        ensure_eq_p!(y["minter"], minter.map(|x| json!(u(x))).unwrap_or(json!(d.enterprise)), P, "{what}: collection's minter");
                    }
                }
            }
            Kind::Multisig => {
                let x: Value = q(w, &m, json!({"config": {}}), &what)?;
                ensure_eq_p!(x["enterprise_contract"], json!(d.enterprise), P, "{what}: membership's DAO");
            }
        }
        // members and weights
        let mut got: BTreeMap<String, u128> = BTreeMap::new();
        let mut start: Option<String> = None;
        loop {
            let x: Value = q(w, &m, json!({"members": {"start_after": start, "limit": 40}}), &what)?;
            let page = x["members"].as_array().cloned().unwrap_or_default();
            if page.is_empty() {
                break;
            }
            for p in &page {
                got.insert(p["user"].as_str().unwrap().into(), p["weight"].as_str().unwrap().parse().unwrap());
            }
            start = page.last().map(|p| p["user"].as_str().unwrap().to_string());
        }
        got.retain(|_, v| *v > 0);
        ensure_eq_p!(got, weights, P, "{what}: initial members");
        let x: Value = q(w, &m, json!({"total_weight": {"expiration": {"never": {}}}}), &what)?;
        ensure_eq_p!(x["total_weight"], json!(weights.values().sum::<u128>().to_string()), P, "{what}: total weight");
        // ---------------------------------------------------------------- whitelists
        let mut got: BTreeSet<String> = BTreeSet::new();
        let mut start = Value::Null;
        loop {
            let x: Value = q(w, &treasury, json!({"asset_whitelist": {"start_after": start, "limit": 100}}), &what)?;
            let page = x["assets"].as_array().cloned().unwrap_or_default();
            if page.is_empty() {
                break;
            }
            got.extend(page.iter().map(|p| p.to_string()));
            start = page.last().unwrap().clone();
        }
        let want: BTreeSet<String> = r.wl.iter().flatten().map(|i| asset_json(*i).to_string()).collect();
        let own: BTreeSet<String> = dao_token.iter().map(|t| json!({ "cw20": t }).to_string()).chain([json!({"native": "udao"}).to_string()]).collect();
        ensure_p!(want.is_subset(&got), P, "{what}: asset whitelist {got:?} lacks requested entries");
        ensure_p!(got.difference(&want).all(|x| own.contains(x)), P, "{what}: asset whitelist {got:?} has entries not requested");
        let x: Value = q(w, &treasury, json!({"nft_whitelist": {"start_after": null, "limit": 100}}), &what)?;
        let got: BTreeSet<String> = x["nfts"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let want: BTreeSet<String> = r.nft.iter().flatten().map(|i| format!("coll{i}")).collect();
        ensure_p!(want.is_subset(&got), P, "{what}: NFT whitelist {got:?} lacks requested entries");
        ensure_p!(kind == Kind::Nft || got == want, P, "{what}: NFT whitelist {got:?} has entries not requested");
        // ---------------------------------------------------------------- initial cross-chain treasuries
        let s = sent(w, &c.enterprise_outposts_contract);
        ensure_eq_p!(s.len(), n_chains, &["C21", "C22"], "{what}: cross-chain deployments sent");
        if n_chains > 0 {
            for (k, ch) in r.chains.as_ref().unwrap().iter().enumerate() {
                let t = String::from_utf8_lossy(&s[k].1).to_string();
                ensure_p!(t.contains(&format!("juno1global{ch}")) && t.contains(&format!("channel-{ch}")), &["C21", "C22"], "{what}: deployment {k} does not go to chain {ch}");
            }
            cov.hit("initial-treasuries");
        }
        ensure_eq_p!(w.bank(c.enterprise_outposts_contract.as_str(), "uluna"), n_chains as u128, P, "{what}: funding of the outposts contract");
        ensure_eq_p!(w.bank(w.factory.as_str(), "uluna"), uluna - n_chains as u128, P, "{what}: factory's own funds");
        // ---------------------------------------------------------------- a first distribution reaches initial members
        if kind == Kind::Multisig && r.wl.iter().flatten().any(|i| *i == 0) {
            let min = r.min_w.unwrap_or(0) as u128;
            let elig: u128 = weights.values().filter(|v| **v >= min).sum();
            self.w.mint("giver", 1_000_000, "u0");
            let fd = d.c.funds_distributor_contract.clone();
            let res = self.w.exec("giver", &fd, &json!({"distribute_native": {}}), &cosmwasm_std::coins(1_000_000, "u0"));
            ensure_eq_p!(res.is_ok(), elig > 0, &["C14", "C21"], "{what}: first distribution: {res:?}");
            if elig > 0 {
                for (who, wt) in &weights {
                    let x: Value = q(&self.w, &fd, json!({"user_rewards": {"user": who, "native_denoms": ["u0"], "cw20_assets": []}}), &what)?;
                    let g: u128 = x["native_rewards"][0]["amount"].as_str().unwrap_or("0").parse().unwrap();
                    let exact = if *wt >= min { 1_000_000 * wt / elig } else { 0 };
                    ensure_p!(g <= exact && g + 1 >= exact, &["C14", "C21"], "{what}: first rewards of {who}: {g} instead of {exact}");
                }
                cov.hit("first-distribution");
            } else {
                let _ = self.w.exec_msg("giver", cosmwasm_std::BankMsg::Send { to_address: "sink".into(), amount: cosmwasm_std::coins(1_000_000, "u0") }.into());
            }
        }
        Ok(())
    }

    fn code_ids(&mut self) -> Res {
        let w = &self.w;
        let reg_treasury = if self.registry_other { self.other_registry.1.treasury } else { self.versions[0].1.treasury };
        for id in (0..=12u64).chain([reg_treasury, self.versions[1].1.treasury, self.versions[0].1.enterprise, self.other_registry.1.treasury, 90, 257]) {
            let x: Value = q(w, &w.factory, json!({"is_enterprise_code_id": {"code_id": id.to_string()}}), "code ids")?;
            ensure_eq_p!(x["is_enterprise_code_id"], json!(self.recorded.contains(&id) || id == reg_treasury), P, "code id {id} recognised (recorded {:?}, 1.0.0 treasury {reg_treasury})", self.recorded);
        }
        let x: Value = q(w, &w.factory, json!({"enterprise_code_ids": {"start_after": null, "limit": 100}}), "code ids")?;
        let got: Vec<u64> = x["code_ids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect();
        let want: Vec<u64> = self.recorded.iter().cloned().collect();
        ensure_eq_p!(got, want, P, "recorded code ids");
        Ok(())
    }
    fn config(&self) -> Res {
        let w = &self.w;
        let x: Value = q(w, &w.factory, json!({"config": {}}), "factory configuration")?;
        let reg = if self.registry_other { &self.other_registry.0 } else { &w.versioning };
        ensure_eq_p!(x["config"], json!({"admin": self.admin, "enterprise_versioning": reg, "cw20_code_id": self.cw20_code, "cw721_code_id": self.cw721_code}), P, "factory configuration");
        let x: Value = q(w, &w.factory, json!({"global_asset_whitelist": {}}), "global whitelist")?;
        ensure_eq_p!(x, json!({"assets": [{"native": "uglobal"}]}), P, "global asset whitelist");
        let x: Value = q(w, &w.factory, json!({"global_nft_whitelist": {}}), "global whitelist")?;
        ensure_eq_p!(x, json!({"nfts": ["global_nft"]}), P, "global NFT whitelist");
        Ok(())
    }
}

fn run_case(c: &Case, cov: &mut Cov) -> Res {
    let mut s = S::build(c)?;
    s.config()?;
    s.code_ids()?;
    for op in &c.ops {
        match op {
            Op::Later(x) => s.w.advance(*x as u64 * 1_000_000_000, 1),
            Op::Create(r) => s.create(r, cov)?,
            Op::Config { by, cw20, cw721, admin, registry } => {
                let sender = match by {
                    0 => s.admin.clone(),
                    1 => ECO_ADMIN.to_string(),
                    _ => "user0".to_string(),
                };
                let f = s.w.factory.clone();
                let n20 = cw20.map(|x| if x { s.alt.0 } else { s.w.codes.cw20 });
                let n721 = cw721.map(|x| if x { s.alt.1 } else { s.w.codes.cw721 });
                let nadm = admin.map(|a| format!("eco_admin{a}"));
                let nreg = registry.then(|| if s.registry_other { s.w.versioning.clone() } else { s.other_registry.0.clone() });
                let r = s.w.exec(&sender, &f, &json!({"update_config": {"new_admin": nadm, "new_enterprise_versioning": nreg, "new_cw20_code_id": n20, "new_cw721_code_id": n721}}), &[]);
                let ok = sender == s.admin;
                ensure_eq_p!(r.is_ok(), ok, &["C15", "C21"], "factory configuration change by {sender} (administrator {})", s.admin);
                if ok {
                    s.cw20_code = n20.unwrap_or(s.cw20_code);
                    s.cw721_code = n721.unwrap_or(s.cw721_code);
                    s.admin = nadm.unwrap_or(s.admin);
                    if *registry {
                        s.registry_other = !s.registry_other;
                    }
                    cov.hit("config-changed");
                } else {
                    cov.hit("config-refused");
                }
                s.code_ids()?;
            }
        }
        s.config()?;
    }
    // the finalisation step is not for anyone else
    let f = s.w.factory.clone();
    ensure_p!(s.w.exec("user0", &f, &json!({"finalize_dao_creation": {}}), &[]).is_err(), &["C15", "C21"], "finalisation of a DAO by an outsider works");
    Ok(())
}

fn gov() -> BoxedStrategy<GovSpec> {
    let pm = || prop_oneof![12 => 1u16..=1000, 1 => Just(0u16), 1 => 1001u16..1200, 2 => Just(1000u16)];
    (pm(), pm(), prop::option::of(pm()), prop_oneof![20 => 1u32..5000, 1 => Just(0u32)], prop::option::weighted(0.3, 0u32..50), any::<bool>())
        .prop_map(|(q, t, v, dur, dep, early)| GovSpec { q, t, v, dur, dep, early })
        .boxed()
}
fn good_gov() -> BoxedStrategy<GovSpec> {
    (1u16..=1000, 1u16..=1000, prop::option::of(1u16..=1000), 1u32..5000, any::<bool>()).prop_map(|(q, t, v, dur, early)| GovSpec { q, t, v, dur, dep: None, early }).boxed()
}
fn mem() -> BoxedStrategy<Mem> {
    let amt = || prop_oneof![12 => 1u32..1_000_000, 1 => Just(0u32)];
    let distinct = |max: usize| prop::sample::subsequence((0..N).collect::<Vec<u8>>(), 0..=max);
    let holders = (distinct(6), prop::collection::vec(amt(), 6), prop::bool::weighted(0.06)).prop_map(|(m, a, dup)| {
        let mut v: Vec<(u8, u32)> = m.into_iter().zip(a).collect();
        if dup && !v.is_empty() {
            v.push((v[0].0, 7));
        }
        v
    });
    prop_oneof![
        2 => Just(Mem::NewDenom),
        3 => prop_oneof![4 => 0u8..2, 1 => 2u8..5].prop_map(Mem::ImportCw20),
        5 => (holders.clone(), prop::option::weighted(0.5, amt()), prop::option::weighted(0.5, (0..N, prop::option::of(prop_oneof![3 => 8_000_000u64..9_000_000, 1 => 0u64..2_000_000]))), prop::option::of(any::<bool>()), 0u8..=18)
            .prop_map(|(bal, dao, mint, marketing, dec)| Mem::NewCw20 { bal, dao, mint, marketing, dec }),
        2 => prop_oneof![5 => Just(0u8), 1 => 1u8..3].prop_map(Mem::ImportCw721),
        3 => prop::option::of(0..N).prop_map(|minter| Mem::NewCw721 { minter }),
        2 => any::<u8>().prop_map(|class| Mem::NewIcs721 { class }),
        4 => (prop_oneof![3 => prop::collection::vec(prop_oneof![9 => 1u8..=255, 1 => Just(0u8)], 0..12), 2 => prop::collection::vec(1u8..=255, 25..75), 1 => prop::collection::vec(Just(0u8), 0..3)], prop::bool::weighted(0.08))
            .prop_map(|(members, wrong)| Mem::ImportCw3 { members, wrong }),
        4 => prop_oneof![12 => holders, 1 => prop::collection::vec((0..N, Just(0u32)), 0..3)].prop_map(Mem::NewMultisig),
    ]
    .boxed()
}
fn req() -> BoxedStrategy<Req> {
    let council = (prop::sample::subsequence((0..N).collect::<Vec<u8>>(), 0..=5), 1u16..=1000, 1u16..=1000, prop::option::of(prop::sample::subsequence(vec![0u8, 3, 4, 6, 13], 0..=5)), 0u8..40, 0u8..14).prop_map(
        |(mut members, mut q, mut t, mut allowed, twist, ty)| {
            match twist {
                0 => q = 0,
                1 => t = 1001,
                2 => {
                    if let Some(m) = members.first().cloned() {
                        members.push(m)
                    }
                }
                3 | 4 => allowed = Some(vec![ty]),
                _ => {}
            }
            CouncilSpec { members, q, t, allowed }
        },
    );
    (
        (mem(), prop_oneof![5 => good_gov(), 2 => gov()], prop_oneof![8 => (5000u64..20_000).prop_map(Dur::Secs), 1 => (0u64..5000).prop_map(Dur::Secs), 3 => (0u64..100).prop_map(Dur::Blocks)], any::<bool>()),
        (
            prop::option::weighted(0.4, council),
            prop::option::weighted(0.7, prop::collection::vec(prop_oneof![1 => Just(0u8), 3 => 0u8..16], 0..6)),
            prop::option::weighted(0.5, prop::collection::vec(0u8..10, 0..4)),
            prop::option::weighted(0.4, prop_oneof![3 => 0u32..100, 1 => 0u32..1_000_000]),
            prop::option::weighted(0.3, any::<u8>()),
        ),
        (prop::array::uniform6(prop::option::of(any::<u8>())), any::<u8>(), prop::option::weighted(0.6, prop_oneof![10 => 0u8..3, 1 => Just(3u8)]), prop::option::weighted(0.3, prop::collection::vec(0u8..4, 0..4))),
    )
        .prop_map(|((mem, mut gov, mut unlock, exact), (council, wl, nft, min_w, att), (meta, name, version, chains))| {
            if mem.kind() == Kind::Multisig && gov.dep.is_some() && gov.q % 4 != 0 {
                gov.dep = None;
            }
            if exact {
                // around the voting period
                if let Dur::Secs(s) = unlock {
                    unlock = Dur::Secs((gov.dur as u64 + s % 3).saturating_sub((s % 5 == 0) as u64));
                }
            }
            Req { mem, gov, unlock, council, wl, nft, min_w, att, meta, name, version, chains }
        })
        .boxed()
}
pub struct C21;
impl Check for C21 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            12 => req().prop_map(Op::Create),
            2 => (prop_oneof![5 => Just(0u8), 1 => 1u8..3], prop::option::of(any::<bool>()), prop::option::of(any::<bool>()), prop::option::weighted(0.3, 0u8..3), prop::bool::weighted(0.3))
                .prop_map(|(by, cw20, cw721, admin, registry)| Op::Config { by, cw20, cw721, admin, registry }),
            1 => any::<u16>().prop_map(Op::Later),
        ];
        (0u8..12, prop::collection::vec(prop_oneof![4 => 0u8..12, 1 => any::<u8>()], 0..4), prop::collection::vec(op, 1..7)).prop_map(|(uluna, recorded, ops)| Case { uluna, recorded, ops }).boxed()
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let r = run_case(c, cov);
        cov.nontrivial = cov.count("created") >= 1 && c.ops.len() >= 2;
        r
    }
    fn cases(&self) -> (u64, u64) {
        (8_000, 120_000)
    }
    fn rule(&self) -> &'static str {
        "at least one DAO was created (and read back completely) in a history of at least two operations"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "cross-chain transfers are recorded instead of delivered",
            "a zero-weight entry among members with weight, and a repeated whitelist entry, may be accepted or refused",
            "the imported multisig pages its voters by at most 30",
        ]
    }
}
