//! Multi-contract world on cw-multi-test: all real contracts, cw20/cw721, a recording listener.
use crate::direct::FastApi;
use crate::fw::guarded;
use cosmwasm_std::{
    to_json_binary, Addr, Binary, BlockInfo, Coin, CosmosMsg, Deps, DepsMut, Empty, Env,
    MessageInfo, Response, StdResult, Timestamp, Uint128,
};
use cw20::Cw20Coin;
use cw_multi_test::{AppResponse, BankSudo, Contract, ContractWrapper, Executor, SudoMsg};
use cw_storage_plus::Item;
use enterprise_versioning_api::api::{AddVersionMsg, Version, VersionInfo};
use membership_common_api::api::UserWeightChange;
use membership_common_api::msg::WeightChangeHook;
use serde::{de::DeserializeOwned, Serialize};

pub const ECO_ADMIN: &str = "eco_admin";

macro_rules! full {
    ($m:path) => {{
        use $m as c;
        Box::new(
            ContractWrapper::new(c::execute, c::instantiate, c::query)
                .with_reply(c::reply)
                .with_migrate(c::migrate),
        ) as Box<dyn Contract<Empty>>
    }};
}
macro_rules! nomig {
    ($m:path) => {{
        use $m as c;
        Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply)) as Box<dyn Contract<Empty>>
    }};
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Codes {
    pub attestation: u64,
    pub enterprise: u64,
    pub governance: u64,
    pub controller: u64,
    pub outposts: u64,
    pub treasury: u64,
    pub distributor: u64,
    pub token: u64,
    pub denom: u64,
    pub nft: u64,
    pub multisig: u64,
    pub factory: u64,
    pub versioning: u64,
    pub cw20: u64,
    pub cw721: u64,
    pub recorder: u64,
}

// ------------------------------------------------------------ recording listener
const REC: Item<Vec<UserWeightChange>> = Item::new("rec");
fn rec_inst(deps: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    REC.save(deps.storage, &vec![])?;
    Ok(Response::new())
}
fn rec_exec(deps: DepsMut, _: Env, _: MessageInfo, m: WeightChangeHook) -> StdResult<Response> {
    let WeightChangeHook::WeightsChanged(w) = m;
    let mut v = REC.load(deps.storage)?;
    v.extend(w.weight_changes);
    REC.save(deps.storage, &v)?;
    Ok(Response::new())
}
fn rec_query(deps: Deps, _: Env, _: Empty) -> StdResult<Binary> {
    to_json_binary(&REC.load(deps.storage)?)
}
pub fn recorder() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(rec_exec, rec_inst, rec_query))
}

pub fn cw20_contract() -> Box<dyn Contract<Empty>> {
    use cw20_base::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}

pub fn cw721_contract() -> Box<dyn Contract<Empty>> {
    type C = cw721_base::Cw721Contract<'static, Empty, Empty, Empty, Empty>;
    fn i(d: DepsMut, e: Env, i: MessageInfo, m: cw721_base::InstantiateMsg) -> StdResult<Response> {
        C::default().instantiate(d, e, i, m)
    }
    fn x(d: DepsMut, e: Env, i: MessageInfo, m: cw721_base::ExecuteMsg<Empty, Empty>) -> Result<Response, cw721_base::ContractError> {
        C::default().execute(d, e, i, m)
    }
    fn q(d: Deps, e: Env, m: cw721_base::QueryMsg<Empty>) -> StdResult<Binary> {
        C::default().query(d, e, m)
    }
    Box::new(ContractWrapper::new(x, i, q))
}

pub type App = cw_multi_test::App<cw_multi_test::BankKeeper, FastApi>;

pub struct World {
    pub app: App,
    pub codes: Codes,
    pub versioning: Addr,
    pub factory: Addr,
}

pub fn version_info(v: Version, c: &Codes) -> VersionInfo {
    VersionInfo {
        version: v,
        changelog: vec![],
        attestation_code_id: c.attestation,
        enterprise_code_id: c.enterprise,
        enterprise_governance_code_id: c.governance,
        enterprise_governance_controller_code_id: c.controller,
        enterprise_outposts_code_id: c.outposts,
        enterprise_treasury_code_id: c.treasury,
        funds_distributor_code_id: c.distributor,
        token_staking_membership_code_id: c.token,
        denom_staking_membership_code_id: c.denom,
        nft_staking_membership_code_id: c.nft,
        multisig_membership_code_id: c.multisig,
    }
}

pub fn enterprise_code() -> Box<dyn Contract<Empty>> {
    full!(enterprise::contract)
}

pub fn outposts_code() -> Box<dyn Contract<Empty>> {
    full!(enterprise_outposts::contract)
}
pub fn treasury_code() -> Box<dyn Contract<Empty>> {
    full!(enterprise_treasury::contract)
}
pub fn factory_code() -> Box<dyn Contract<Empty>> {
    full!(enterprise_factory::contract)
}

pub fn store_codes(app: &mut App) -> Codes {
    Codes {
        attestation: app.store_code(full!(attestation::contract)),
        enterprise: app.store_code(full!(enterprise::contract)),
        governance: app.store_code(full!(enterprise_governance::contract)),
        controller: app.store_code(full!(enterprise_governance_controller::contract)),
        outposts: app.store_code(full!(enterprise_outposts::contract)),
        treasury: app.store_code(full!(enterprise_treasury::contract)),
        distributor: app.store_code(full!(funds_distributor::contract)),
        token: app.store_code(full!(token_staking_membership::contract)),
        denom: app.store_code(full!(denom_staking_membership::contract)),
        nft: app.store_code(full!(nft_staking_membership::contract)),
        multisig: app.store_code(full!(multisig_membership::contract)),
        factory: app.store_code(full!(enterprise_factory::contract)),
        versioning: app.store_code(full!(enterprise_versioning::contract)),
        cw20: app.store_code(cw20_contract()),
        cw721: app.store_code(cw721_contract()),
        recorder: app.store_code(recorder()),
    }
}

pub fn current_version() -> Version {
    Version::new(1, 2, 1)
}

impl World {
    /// App + codes + version registry (1.0.0 and 1.2.1, both with the current code) + factory.
    pub fn new() -> World {
        World::with_global_whitelist(vec![])
    }
    pub fn with_global_whitelist(assets: Vec<cw_asset::AssetInfoUnchecked>) -> World {
        let mut app: App = cw_multi_test::AppBuilder::new().with_api(FastApi).build(|_, _, _| {});
        app.set_block(BlockInfo {
            height: 1000,
            time: Timestamp::from_nanos(1_700_000_000_000_000_000),
            chain_id: "test-1".into(),
        });
        let codes = store_codes(&mut app);
        let versioning = app
            .instantiate_contract(
                codes.versioning,
                Addr::unchecked(ECO_ADMIN),
                &enterprise_versioning_api::msg::InstantiateMsg { admin: ECO_ADMIN.into() },
                &[],
                "versioning",
                Some(ECO_ADMIN.into()),
            )
            .unwrap();
        let mut w = World { app, codes, versioning, factory: Addr::unchecked("none") };
        let mut old = version_info(Version::new(1, 0, 0), &w.codes);
        // the 1.0.0 treasury code is looked up by the factory for code-id recognition
        old.changelog = vec!["first".into()];
        for v in [old, version_info(current_version(), &w.codes)] {
            w.exec(ECO_ADMIN, &w.versioning.clone(), &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: v }), &[])
                .unwrap();
        }
        w.factory = w
            .app
            .instantiate_contract(
                w.codes.factory,
                Addr::unchecked(ECO_ADMIN),
                &enterprise_factory_api::msg::InstantiateMsg {
                    config: enterprise_factory_api::api::Config {
                        admin: Addr::unchecked(ECO_ADMIN),
                        enterprise_versioning: w.versioning.clone(),
                        cw20_code_id: w.codes.cw20,
                        cw721_code_id: w.codes.cw721,
                    },
                    global_asset_whitelist: Some(assets),
                    global_nft_whitelist: None,
                },
                &[],
                "factory",
                Some(ECO_ADMIN.into()),
            )
            .unwrap();
        w
    }

    pub fn inst<M: Serialize>(&mut self, code: u64, sender: &str, msg: &M, admin: Option<&str>) -> Result<Addr, String> {
        let s = Addr::unchecked(sender);
        let admin = admin.map(|a| a.to_string());
        let app = &mut self.app;
        match guarded(|| app.instantiate_contract(code, s, msg, &[], "x", admin)) {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(e)) => Err(format!("{:#}", e.root_cause())),
            Err(p) => Err(format!("abort: {p}")),
        }
    }
    pub fn exec<M: Serialize + std::fmt::Debug>(&mut self, sender: &str, c: &Addr, msg: &M, funds: &[Coin]) -> Result<AppResponse, String> {
        let s = Addr::unchecked(sender);
        let app = &mut self.app;
        match guarded(|| app.execute_contract(s, c.clone(), msg, funds)) {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(e)) => Err(format!("{:#}", e.root_cause())),
            Err(p) => Err(format!("abort: {p}")),
        }
    }
    pub fn exec_msg(&mut self, sender: &str, msg: CosmosMsg) -> Result<AppResponse, String> {
        let s = Addr::unchecked(sender);
        let app = &mut self.app;
        match guarded(|| app.execute(s, msg)) {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(e)) => Err(format!("{:#}", e.root_cause())),
            Err(p) => Err(format!("abort: {p}")),
        }
    }
    pub fn query<T: DeserializeOwned, M: Serialize>(&self, c: &Addr, msg: &M) -> Result<T, String> {
        let app = &self.app;
        match guarded(|| app.wrap().query_wasm_smart::<T>(c.to_string(), msg)) {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(e.to_string()),
            Err(p) => Err(format!("abort: {p}")),
        }
    }
    pub fn mint(&mut self, to: &str, amount: u128, denom: &str) {
        if amount > 0 {
            self.app
                .sudo(SudoMsg::Bank(BankSudo::Mint { to_address: to.into(), amount: vec![Coin::new(amount, denom)] }))
                .unwrap();
        }
    }
    pub fn bank(&self, a: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(a, denom).unwrap().amount.u128()
    }
    pub fn new_cw20(&mut self, sym: &str, balances: &[(&str, u128)]) -> Addr {
        self.inst(
            self.codes.cw20,
            ECO_ADMIN,
            &cw20_base::msg::InstantiateMsg {
                name: format!("Token {sym}"),
                symbol: sym.into(),
                decimals: 6,
                initial_balances: balances.iter().map(|(a, b)| Cw20Coin { address: a.to_string(), amount: Uint128::new(*b) }).collect(),
                mint: Some(cw20::MinterResponse { minter: ECO_ADMIN.into(), cap: None }),
                marketing: None,
            },
            None,
        )
        .unwrap()
    }
    pub fn cw20(&self, token: &Addr, a: &str) -> u128 {
        self.query::<cw20::BalanceResponse, _>(token, &cw20::Cw20QueryMsg::Balance { address: a.into() }).unwrap().balance.u128()
    }
    pub fn cw20_send<M: Serialize>(&mut self, token: &Addr, from: &str, to: &Addr, amount: u128, msg: &M) -> Result<AppResponse, String> {
        self.exec(
            from,
            token,
            &cw20::Cw20ExecuteMsg::Send { contract: to.to_string(), amount: Uint128::new(amount), msg: to_json_binary(msg).unwrap() },
            &[],
        )
    }
    pub fn new_cw721(&mut self, minter: &str) -> Addr {
        self.inst(
            self.codes.cw721,
            ECO_ADMIN,
            &cw721_base::InstantiateMsg { name: "nft".into(), symbol: "NFT".into(), minter: minter.into() },
            None,
        )
        .unwrap()
    }
    pub fn mint_nft(&mut self, nft: &Addr, minter: &str, id: &str, owner: &str) {
        self.exec(
            minter,
            nft,
            &serde_json::json!({"mint": {"token_id": id, "owner": owner, "extension": {}}}),
            &[],
        )
        .unwrap();
    }
    pub fn send_nft<M: Serialize>(&mut self, nft: &Addr, from: &str, to: &Addr, id: &str, msg: &M) -> Result<AppResponse, String> {
        self.exec(
            from,
            nft,
            &cw721::Cw721ExecuteMsg::SendNft { contract: to.to_string(), token_id: id.into(), msg: to_json_binary(msg).unwrap() },
            &[],
        )
    }
    pub fn nft_owner(&self, nft: &Addr, id: &str) -> Option<String> {
        self.query::<cw721::OwnerOfResponse, _>(nft, &cw721::Cw721QueryMsg::OwnerOf { token_id: id.into(), include_expired: Some(true) })
            .ok()
            .map(|r| r.owner)
    }
    pub fn now(&self) -> Timestamp {
        self.app.block_info().time
    }
    pub fn height(&self) -> u64 {
        self.app.block_info().height
    }
    pub fn advance(&mut self, nanos: u64, blocks: u64) {
        self.app.update_block(|b| {
            b.time = b.time.plus_nanos(nanos);
            b.height += blocks;
        });
    }
    pub fn set_time(&mut self, t: Timestamp) {
        self.app.update_block(|b| {
            if t > b.time {
                b.time = t;
                b.height += 1;
            }
        });
    }
    /// digest of the raw storage of a contract
    pub fn dump(&self, c: &Addr) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.app.dump_wasm_raw(c)
    }
}

/// A real DAO main contract instantiated by the test, whose every component is `ctrl`
/// (except what the caller finalises itself). Returns (enterprise, ctrl).
pub fn standalone_enterprise(w: &mut World, ctrl: &str) -> (Addr, Addr) {
    let e = new_enterprise(w, enterprise_protocol::api::DaoType::Denom);
    let c = Addr::unchecked(ctrl);
    finalize(w, &e, &Components { controller: ctrl.into(), ..Components::all(ctrl) });
    (e, c)
}

#[derive(Clone, Debug)]
pub struct Components {
    pub treasury: String,
    pub governance: String,
    pub controller: String,
    pub outposts: String,
    pub distributor: String,
    pub membership: String,
    pub council: String,
    pub attestation: Option<String>,
}
impl Components {
    pub fn all(a: &str) -> Components {
        let a = a.to_string();
        Components {
            treasury: a.clone(),
            governance: a.clone(),
            controller: a.clone(),
            outposts: a.clone(),
            distributor: a.clone(),
            membership: a.clone(),
            council: a,
            attestation: None,
        }
    }
}

pub fn new_enterprise(w: &mut World, dao_type: enterprise_protocol::api::DaoType) -> Addr {
    w.inst(
        w.codes.enterprise,
        ECO_ADMIN,
        &enterprise_protocol::msg::InstantiateMsg {
            enterprise_factory_contract: w.factory.to_string(),
            enterprise_versioning_contract: w.versioning.to_string(),
            dao_metadata: enterprise_protocol::api::DaoMetadata {
                name: "dao".into(),
                description: None,
                logo: enterprise_protocol::api::Logo::None,
                socials: enterprise_protocol::api::DaoSocialData {
                    github_username: None,
                    discord_username: None,
                    twitter_username: None,
                    telegram_username: None,
                },
            },
            dao_creation_date: None,
            dao_type,
            dao_version: current_version(),
        },
        Some(ECO_ADMIN),
    )
    .unwrap()
}

pub fn finalize(w: &mut World, e: &Addr, c: &Components) {
    w.exec(
        ECO_ADMIN,
        e,
        &enterprise_protocol::msg::ExecuteMsg::FinalizeInstantiation(enterprise_protocol::api::FinalizeInstantiationMsg {
            enterprise_treasury_contract: c.treasury.clone(),
            enterprise_governance_contract: c.governance.clone(),
            enterprise_governance_controller_contract: c.controller.clone(),
            enterprise_outposts_contract: c.outposts.clone(),
            funds_distributor_contract: c.distributor.clone(),
            membership_contract: c.membership.clone(),
            council_membership_contract: c.council.clone(),
            attestation_contract: c.attestation.clone(),
        }),
        &[],
    )
    .unwrap();
}
