//! E11: the facade. C24.
//! Two identically built worlds in lockstep: one is driven by direct calls, the other by sending
//! what the facade's adapters return. Their states have to stay equal, and every facade query has
//! to give what the DAO's own contracts report, however the DAO is addressed.
use crate::dao::*;
use crate::e2_member::{Dur, Kind};
use crate::e9_outposts::{gproxy, hooks_account, reply, Data};
use crate::fw::*;
use crate::world::*;
use crate::wrap::Wrapped;
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::{coin, to_json_binary, Addr, BankMsg, Binary, Coin, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Response, StdResult, Uint128, WasmMsg};
use cw_multi_test::{Contract, ContractWrapper, Executor};
use cw_storage_plus::{Item, Map};
use enterprise_versioning_api::api::{AddVersionMsg, Version};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const P: &[PropId] = &["C24"];
const N: u8 = 5;
const VERSIONS: [(u64, u64, u64); 5] = [(1, 0, 0), (1, 0, 1), (1, 0, 2), (1, 2, 0), (3, 14, 15)];

// ------------------------------------------------------------ a transfer contract knowing one collection
const LOCAL: Item<String> = Item::new("local");
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
enum TQuery {
    NftContract { class_id: String },
}
fn t_inst(d: DepsMut, _: Env, _: MessageInfo, m: String) -> StdResult<Response> {
    LOCAL.save(d.storage, &m)?;
    Ok(Response::new())
}
fn t_exec(_: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    Ok(Response::new())
}
fn t_query(d: Deps, _: Env, m: TQuery) -> StdResult<Binary> {
    let TQuery::NftContract { class_id } = m;
    to_json_binary(&(class_id == "class/a").then(|| LOCAL.load(d.storage)).transpose()?)
}
fn transfer_contract() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(t_exec, t_inst, t_query))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Meta { mask: u8, val: Option<u8> },
    Gov { gov: GovSpec, unlock: Option<Dur> },
    Council(Option<CouncilSpec>),
    Assets { add: Vec<u8>, rem: Vec<u8>, remote: Option<u8> },
    Nfts { add: Vec<u8>, rem: Vec<u8>, remote: Option<u8> },
    Fund { amt: u8, remote: Option<u8> },
    TMsgs { remote: Option<u8> },
    Msgs,
    Members(Vec<(u8, u8)>),
    Deploy(u8),
    MinWeight(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Adv(u32),
    Stake { by: u8, for_: u8, amt: u32, k: u8 },
    Unstake { by: u8, amt: u32, k: u8 },
    Claim { by: u8 },
    /// deposit: None for the plain adapter
    Propose { by: u8, acts: Vec<Act>, dep: Option<u32>, owner: Option<u8> },
    CPropose { by: u8, acts: Vec<Act> },
    Vote { by: u8, p: u8, o: u8, council: bool },
    Exec { by: u8, p: u8 },
    /// propose, everyone votes, go to the end, execute
    Pass { acts: Vec<Act>, council: bool },
    /// remote contracts report
    Remote,
    /// a request that does not fit the DAO's type
    Wrong(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    ics: bool,
    version: u8,
    gov: GovSpec,
    unlock: Dur,
    council: Option<CouncilSpec>,
    big_council: u8,
    attest: bool,
    wl: u8,
    stakes: Vec<u32>,
    ops: Vec<Op>,
    page: Option<u8>,
    fv1: bool,
    /// migration of old stakes: 1 under way, 2 something left to move
    moving: u8,
}

#[derive(Clone, Debug)]
enum M {
    Exec(Addr, Value, Vec<Coin>),
    Bank(Addr, Vec<Coin>),
}
impl M {
    fn cosmos(&self) -> CosmosMsg {
        match self {
            M::Exec(c, m, f) => WasmMsg::Execute { contract_addr: c.to_string(), msg: Binary::from(m.to_string().into_bytes()), funds: f.clone() }.into(),
            M::Bank(c, f) => BankMsg::Send { to_address: c.to_string(), amount: f.clone() }.into(),
        }
    }
}
fn send(w: &mut World, by: &str, ms: &[M]) -> Result<(), String> {
    let app = &mut w.app;
    let l: Vec<CosmosMsg> = ms.iter().map(|m| m.cosmos()).collect();
    match guarded(|| app.execute_multi(Addr::unchecked(by), l)) {
        Ok(Ok(_)) => Ok(()),
        Ok(Err(e)) => Err(format!("{:#}", e.root_cause())),
        Err(p) => Err(format!("abort: {p}")),
    }
}

struct S {
    /// driven directly
    a: World,
    /// driven by what the facade returns
    b: World,
    d: Dao,
    facade: Addr,
    v2: Addr,
    kind: Kind,
    asset: Asset,
    n: u64,
    acts: Vec<Vec<Act>>,
    page: Option<u32>,
    version: Version,
    /// which address the next facade request uses
    flip: bool,
    /// ask in every possible way, or in one way after the other
    full: bool,
    way: std::cell::Cell<usize>,
}

fn usr(i: u8) -> String {
    user(i, N)
}
fn tok(u: u8, k: u8) -> String {
    format!("u{}n{}", u % N, k % 4)
}
fn mspec(x: u8) -> Value {
    json!({"chain_id": format!("chain-{x}"), "chain_bech32_prefix": "juno", "src_ibc_port": "transfer", "src_ibc_channel": format!("channel-{x}"), "dest_ibc_port": "transfer",
        "dest_ibc_channel": format!("channel-1{x}"), "uluna_denom": "ibc/x", "timeout_nanos": null})
}
fn target(r: &Option<u8>) -> Value {
    match r {
        Some(x) => json!({"cross_chain_msg_spec": mspec(x % 3)}),
        None => Value::Null,
    }
}
fn ch<T: Serialize>(x: Option<T>) -> Value {
    match x {
        Some(v) => json!({ "change": v }),
        None => json!("no_change"),
    }
}
fn wl(x: u8) -> Value {
    if x % 2 == 0 {
        json!({"native": format!("uwl{x}")})
    } else {
        json!({"cw20": format!("cw20wl{x}")})
    }
}
fn cross(a: &Act) -> bool {
    match a {
        Act::Assets { remote, .. } | Act::Nfts { remote, .. } | Act::Fund { remote, .. } | Act::TMsgs { remote } => remote.is_some(),
        Act::Deploy(_) => true,
        _ => false,
    }
}
fn action(a: &Act) -> Value {
    match a {
        Act::Meta { mask, val } => {
            let m = |b: u8| ch((mask & (1 << b) != 0).then(|| val.map(|v| format!("v{v}-{b}"))));
            json!({"update_metadata": {"name": ch((mask & 1 != 0).then(|| format!("name{val:?}"))), "description": m(1),
                "logo": ch((mask & 4 != 0).then(|| val.map(|v| json!({"url": format!("u{v}")})).unwrap_or(json!("none")))),
                "github_username": m(3), "discord_username": m(4), "twitter_username": m(5), "telegram_username": m(6)}})
        }
        Act::Gov { gov, unlock } => json!({"update_gov_config": {"quorum": ch(Some(dec_s(pm(gov.q)))), "threshold": ch(Some(dec_s(pm(gov.t)))), "veto_threshold": ch(Some(gov.v.map(|v| dec_s(pm(v))))),
            "voting_duration": ch(Some(gov.dur.to_string())), "unlocking_period": ch(unlock.as_ref().map(dur_json)), "minimum_deposit": ch(Some(gov.dep.map(|x| x.to_string()))),
            "allow_early_proposal_execution": ch(Some(gov.early))}}),
        Act::Council(c) => json!({"update_council": {"dao_council": c.as_ref().map(|c| c.json(N))}}),
        Act::Assets { add, rem, remote } => json!({"update_asset_whitelist": {"remote_treasury_target": target(remote), "add": add.iter().map(|x| wl(*x)).collect::<Vec<_>>(), "remove": rem.iter().map(|x| wl(*x)).collect::<Vec<_>>()}}),
        Act::Nfts { add, rem, remote } => {
            let f = |v: &[u8]| v.iter().map(|x| format!("nftwl{x}")).collect::<Vec<_>>();
            json!({"update_nft_whitelist": {"remote_treasury_target": target(remote), "add": f(add), "remove": f(rem)}})
        }
        Act::Fund { amt, remote } => json!({"request_funding_from_dao": {"remote_treasury_target": target(remote), "recipient": "user1", "assets": [{"info": {"native": "uone"}, "amount": amt.to_string()}]}}),
        Act::TMsgs { remote } => json!({"execute_treasury_msgs": {"action_type": "say \"x\"", "msgs": ["{\"bank\":{\"send\":{\"to_address\":\"user2\",\"amount\":[{\"denom\":\"uone\",\"amount\":\"1\"}]}}}"], "remote_treasury_target": target(remote)}}),
        Act::Msgs => json!({"execute_msgs": {"action_type": "nothing", "msgs": []}}),
        Act::Members(l) => json!({"modify_multisig_membership": {"edit_members": l.iter().map(|(u, w)| json!({"user": usr(*u), "weight": w.to_string()})).collect::<Vec<_>>()}}),
        Act::Deploy(x) => json!({"deploy_cross_chain_treasury": {"enterprise_treasury_code_id": 1, "ics_proxy_code_id": 2, "chain_global_proxy": gproxy(0), "cross_chain_msg_spec": mspec(x % 3), "asset_whitelist": null, "nft_whitelist": null}}),
        Act::MinWeight(x) => json!({"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": x.to_string()}}),
    }
}

fn build(c: &Case) -> Result<(World, Dao, Addr, Addr, Asset), String> {
    let mut w = World::new();
    let oc = w.app.store_code(Wrapped::strip(outposts_code()));
    let mut codes = w.codes.clone();
    codes.outposts = oc;
    if c.moving > 0 {
        let m = c.moving;
        codes.treasury = w.app.store_code(Wrapped::with_state(treasury_code(), move |s| {
            if m & 1 != 0 {
                Item::<String>::new("migration_stage").save(s, &"migration_in_progress".into()).unwrap();
            }
            if m & 2 != 0 {
                Map::<Addr, Uint128>::new("stakes").save(s, Addr::unchecked("olduser"), &Uint128::new(7)).unwrap();
            }
        }));
    }
    let reg = w.versioning.clone();
    for (x, y, z) in VERSIONS {
        let v = Version::new(x, y, z);
        let _ = w.exec(ECO_ADMIN, &reg, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: version_info(v, &codes) }), &[]);
    }
    // code 1.0.0 was registered by the world with plain outposts
    let (x, y, z) = VERSIONS[c.version as usize % VERSIONS.len()];
    let stakes = &c.stakes;
    let (mut msg, mut asset) = simple_dao(&mut w, c.kind, false, stakes);
    if c.kind == Kind::Nft {
        let Asset::Nft(t) = &asset else { unreachable!() };
        let t = t.clone();
        // a few more to stake later
        for i in 0..N {
            for k in 0..4 {
                let _ = w.exec(ECO_ADMIN, &t, &json!({"mint": {"token_id": tok(i, k), "owner": usr(i), "extension": {}}}), &[]);
            }
        }
        if c.ics {
            let tc = w.app.store_code(transfer_contract());
            let p = w.inst(tc, ECO_ADMIN, &t.to_string(), None)?;
            msg["dao_membership"] = json!({"new_ics721": {"ics721_proxy": p, "class_id": "class/a", "unlocking_period": {"time": 1}}});
        }
    }
    for i in 0..N {
        match &asset {
            Asset::Denom(d) => w.mint(&usr(i), 100_000, d),
            Asset::Token(t) => {
                w.exec(ECO_ADMIN, &t.clone(), &json!({"mint": {"recipient": usr(i), "amount": "100000"}}), &[])?;
            }
            _ => {}
        }
        w.mint(&usr(i), 50, "uluna");
    }
    if let Some(m) = msg["dao_membership"].as_object_mut().unwrap().values_mut().next() {
        if m.get("unlocking_period").is_some() {
            m["unlocking_period"] = dur_json(&c.unlock);
        }
    }
    msg["gov_config"] = c.gov.json();
    if let Dur::Secs(s) = c.unlock {
        // voting may not outlast unlocking
        msg["gov_config"]["vote_duration"] = json!((c.gov.dur as u64).min(s));
    }
    if c.kind == Kind::Nft {
        // users have few tokens
        msg["gov_config"]["minimum_deposit"] = json!(c.gov.dep.map(|x| (x % 3).to_string()));
    }
    if c.kind == Kind::Multisig {
        msg["gov_config"]["minimum_deposit"] = Value::Null;
        asset = Asset::None;
    }
    msg["dao_council"] = json!(c.council.as_ref().map(|s| {
        let mut j = s.json(N);
        for i in 0..c.big_council {
            j["members"].as_array_mut().unwrap().push(json!(format!("councillor{i:03}")));
        }
        j
    }));
    msg["asset_whitelist"] = json!((0..c.wl).map(wl).collect::<Vec<_>>());
    msg["nft_whitelist"] = json!((0..c.wl).map(|x| format!("nftwl{x}")).collect::<Vec<_>>());
    if c.attest {
        msg["attestation_text"] = json!("I agree");
    }
    create_dao(&mut w, &msg, Some(Version::new(x, y, z)))?;
    let d = last_dao(&w)?;
    w.mint(d.treasury.as_str(), 1000, "uone");
    if c.attest {
        for i in 0..N - 1 {
            w.exec(&usr(i), &d.c.attestation_contract.clone().ok_or("no attestation contract")?, &json!({"sign_attestation": {}}), &[])?;
        }
    }
    // a cross-chain collection is replaced by the local one with the first stake
    let none = vec![];
    let stakes = if c.kind == Kind::Nft && c.ics && c.wl % 2 == 0 { &none } else { stakes };
    simple_stakes(&mut w, c.kind, &d, &asset, stakes).or_else(|e| if c.attest { Ok(()) } else { Err(e) })?;
    macro_rules! code {
        ($c:ident) => {{
            use $c::contract as k;
            w.app.store_code(Box::new(ContractWrapper::new(k::execute, k::instantiate, k::query)))
        }};
    }
    let (k1, k2, k) = (code!(enterprise_facade_v1), code!(enterprise_facade_v2), {
        use enterprise_facade::contract as k;
        w.app.store_code(Box::new(ContractWrapper::new(k::execute, k::instantiate, k::query).with_migrate(k::migrate)))
    });
    let f1 = w.inst(k1, ECO_ADMIN, &json!({"enterprise_versioning": reg}), None)?;
    let f2 = w.inst(k2, ECO_ADMIN, &json!({}), None)?;
    // set up right from the start, or put right by a migration
    let (i1, i2) = if c.fv1 { (f1.to_string(), f2.to_string()) } else { ("nothing1".to_string(), "nothing2".to_string()) };
    let f = w.inst(k, ECO_ADMIN, &json!({"enterprise_facade_v1": i1, "enterprise_facade_v2": i2}), Some(ECO_ADMIN))?;
    if !c.fv1 {
        for m in [json!({"enterprise_facade_v1": f1, "enterprise_facade_v2": null}), json!({"enterprise_facade_v1": null, "enterprise_facade_v2": f2})] {
            w.app.migrate_contract(Addr::unchecked(ECO_ADMIN), f.clone(), &m, k).map_err(|e| format!("{:#}", e.root_cause()))?;
        }
    }
    Ok((w, d, f, f2, asset))
}

impl S {
    fn new(c: &Case) -> Result<S, String> {
        let (a, d, facade, v2, asset) = build(c)?;
        let (b, d2, ..) = build(c)?;
        assert_eq!(d.enterprise, d2.enterprise);
        let (x, y, z) = VERSIONS[c.version as usize % VERSIONS.len()];
        Ok(S { a, b, d, facade, v2, kind: c.kind, asset, n: 0, acts: vec![], page: c.page.map(|p| p as u32 % 12 + 1), version: Version::new(x, y, z), flip: false, full: false, way: std::cell::Cell::new(c.ops.len()) })
    }
    fn addr(&mut self) -> Addr {
        self.flip = !self.flip;
        if self.flip {
            self.d.treasury.clone()
        } else {
            self.d.enterprise.clone()
        }
    }
    fn ctrl(&self) -> Addr {
        self.d.c.enterprise_governance_controller_contract.clone()
    }
    fn mem(&self) -> Addr {
        self.d.c.membership_contract.clone()
    }
    /// what the facade tells the user to send
    fn adapted(&mut self, name: &str, mut q: Value) -> Result<Vec<M>, String> {
        q["contract"] = json!(self.addr());
        let r: Value = self.b.query(&self.facade, &json!({ name: q }))?;
        let mut out = vec![];
        for m in r["msgs"].as_array().ok_or("no msgs")? {
            let funds = |v: &Value| serde_json::from_value::<Vec<Coin>>(v.clone()).map_err(|e| e.to_string());
            if let Some(e) = m.get("execute") {
                let s = e["msg"].as_str().ok_or("message is not text")?;
                out.push(M::Exec(Addr::unchecked(e["target_contract"].as_str().unwrap_or("")), serde_json::from_str(s).map_err(|x| format!("message {s}: {x}"))?, funds(&e["funds"])?));
            } else {
                let e = &m["bank"];
                out.push(M::Bank(Addr::unchecked(e["receiver"].as_str().unwrap_or("")), funds(&e["funds"])?));
            }
        }
        Ok(out)
    }
    /// the same request made directly and through the facade
    fn go(&mut self, by: &str, direct: &[M], name: &str, q: Value, what: &str, cov: &mut Cov) -> Res<bool> {
        let ra = send(&mut self.a, by, direct);
        let ms = self.adapted(name, q);
        let rb = match &ms {
            Ok(ms) => send(&mut self.b, by, ms),
            Err(e) => Err(format!("facade: {e}")),
        };
        ensure_p!(ra.is_ok() == rb.is_ok(), P, "{what}: directly {ra:?}; as told by the facade {rb:?} ({ms:?})");
        cov.hit(format!("{name}{}", if ra.is_ok() { "" } else { "-refused" }));
        self.same(what)?;
        Ok(ra.is_ok())
    }
    fn contracts(&self) -> Vec<Addr> {
        let c = &self.d.c;
        let mut v = vec![
            c.enterprise_governance_contract.clone(),
            c.enterprise_governance_controller_contract.clone(),
            c.enterprise_outposts_contract.clone(),
            c.enterprise_treasury_contract.clone(),
            c.funds_distributor_contract.clone(),
            c.membership_contract.clone(),
            c.council_membership_contract.clone(),
            self.d.enterprise.clone(),
            self.a.factory.clone(),
        ];
        v.extend(c.attestation_contract.clone());
        if let Asset::Token(t) | Asset::Nft(t) = &self.asset {
            v.push(t.clone());
        }
        v
    }
    fn same(&self, what: &str) -> Res {
        for c in self.contracts() {
            let (x, y) = (self.a.dump(&c), self.b.dump(&c));
            if x != y {
                let diff = x.iter().filter(|e| !y.contains(e)).chain(y.iter().filter(|e| !x.contains(e))).next();
                let t = diff.map(|(k, v)| format!("{} = {}", String::from_utf8_lossy(k), String::from_utf8_lossy(v)));
                return div(P, format!("{what}: the state of {c} differs from the direct call's: {t:?}"));
            }
        }
        for who in (0..N).map(usr).chain(self.contracts().iter().map(|x| x.to_string())) {
            for den in ["udao", "uluna", "uone"] {
                ensure_eq_p!(self.b.bank(&who, den), self.a.bank(&who, den), P, "{what}: {den} of {who}, compared with the direct call");
            }
        }
        Ok(())
    }
    /// some tokens of the user, maybe also one that is not theirs
    fn pick(&self, t: &Addr, u: &str, mask: u8) -> Vec<String> {
        let own: Vec<String> = (0..N).flat_map(|i| (0..4).map(move |k| tok(i, k))).filter(|i| self.a.nft_owner(t, i).as_deref() == Some(u)).collect();
        let mut l: Vec<String> = own.into_iter().enumerate().filter(|(i, _)| mask & (1 << (i % 4)) != 0).map(|x| x.1).collect();
        if mask % 8 == 7 {
            l.push(tok(mask, mask));
        }
        l
    }
    fn prop_id(&self, p: u8) -> u64 {
        if self.n == 0 {
            1
        } else {
            // sometimes one that does not exist
            self.n + 1 - (p as u64 % (self.n + 1)).min(self.n)
        }
    }
    fn cpm(&self, acts: &[Act], owner: &Option<u8>) -> Value {
        json!({"title": format!("title {}", self.n), "description": if acts.len() % 2 == 0 { None } else { Some("some \"text\" \\ é") }, "proposal_actions": acts.iter().map(action).collect::<Vec<_>>(),
            "deposit_owner": owner.map(usr)})
    }
    fn propose(&mut self, by: u8, acts: &[Act], dep: Option<u32>, owner: &Option<u8>, what: &str, cov: &mut Cov) -> Res<bool> {
        let m = self.cpm(acts, owner);
        let ctrl = self.ctrl();
        let by_ = usr(by);
        let ok = match (dep, self.asset.clone()) {
            (Some(x), Asset::Denom(d)) => self.go(
                &by_,
                &[M::Exec(ctrl, json!({ "create_proposal": m }), vec![coin(x as u128, d)])],
                "create_proposal_with_denom_deposit_adapted",
                json!({"params": {"create_proposal_msg": m, "deposit_amount": x.to_string()}}),
                what,
                cov,
            )?,
            (Some(x), Asset::Token(t)) => {
                let hook = to_json_binary(&json!({ "create_proposal": m })).unwrap();
                self.go(
                    &by_,
                    &[M::Exec(t, json!({"send": {"contract": ctrl, "amount": x.to_string(), "msg": hook}}), vec![])],
                    "create_proposal_with_token_deposit_adapted",
                    json!({"params": {"create_proposal_msg": m, "deposit_amount": x.to_string()}}),
                    what,
                    cov,
                )?
            }
            (Some(x), Asset::Nft(t)) => {
                let ids = self.pick(&t, &by_, x as u8);
                let mut l: Vec<M> = ids.iter().map(|i| M::Exec(t.clone(), json!({"approve": {"spender": ctrl, "token_id": i, "expires": null}}), vec![])).collect();
                let n = json!({"create_proposal_msg": m, "deposit_tokens": ids});
                l.push(M::Exec(ctrl, json!({ "create_proposal_with_nft_deposit": n }), vec![]));
                self.go(&by_, &l, "create_proposal_with_nft_deposit_adapted", json!({ "params": n }), what, cov)?
            }
            _ => self.go(&by_, &[M::Exec(ctrl, json!({ "create_proposal": m }), vec![])], "create_proposal_adapted", json!({ "params": m }), what, cov)?,
        };
        if ok {
            self.n += 1;
            self.acts.push(acts.to_vec());
        }
        Ok(ok)
    }
    fn cpropose(&mut self, by: u8, acts: &[Act], what: &str, cov: &mut Cov) -> Res<bool> {
        let m = self.cpm(acts, &None);
        let ctrl = self.ctrl();
        let ok = self.go(&usr(by), &[M::Exec(ctrl, json!({ "create_council_proposal": m }), vec![])], "create_council_proposal_adapted", json!({ "params": m }), what, cov)?;
        if ok {
            self.n += 1;
            self.acts.push(acts.to_vec());
        }
        Ok(ok)
    }
    fn vote(&mut self, by: &str, id: u64, o: u8, council: bool, what: &str, cov: &mut Cov) -> Res<bool> {
        let v = json!({"proposal_id": id, "outcome": (["yes", "no", "abstain", "veto"][o as usize % 4])});
        let (d, f) = if council { ("cast_council_vote", "cast_council_vote_adapted") } else { ("cast_vote", "cast_vote_adapted") };
        let ctrl = self.ctrl();
        self.go(by, &[M::Exec(ctrl, json!({ d: v }), vec![])], f, json!({ "params": v }), what, cov)
    }
    fn exec(&mut self, by: u8, id: u64, what: &str, cov: &mut Cov) -> Res<bool> {
        let n = self.acts.get(id.wrapping_sub(1) as usize).map(|l| l.iter().filter(|a| cross(a)).count()).unwrap_or(0);
        let mut l = vec![];
        if n > 0 {
            l.push(M::Bank(self.d.c.enterprise_outposts_contract.clone(), vec![coin(n as u128, "uluna")]));
            cov.hit("cross-chain-execution");
        }
        l.push(M::Exec(self.ctrl(), json!({"execute_proposal": {"proposal_id": id}}), vec![]));
        let by = usr(by);
        self.go(&by, &l, "execute_proposal_adapted", json!({"params": {"proposal_id": id}}), what, cov)
    }
    fn step(&mut self, op: &Op, what: &str, cov: &mut Cov) -> Res {
        match op {
            Op::Adv(x) => {
                for w in [&mut self.a, &mut self.b] {
                    w.advance(*x as u64 * 1_000_000_000, 1 + *x as u64 / 10);
                }
            }
            Op::Stake { by, for_, amt, k } => {
                let (u, f, m) = (usr(*by), usr(*for_), self.mem());
                match self.asset.clone() {
                    Asset::Denom(d) => {
                        self.go(&u, &[M::Exec(m, json!({"stake": {"user": f}}), vec![coin(*amt as u128, d)])], "stake_adapted", json!({"params": {"denom": {"user": f, "amount": amt.to_string()}}}), what, cov)?;
                    }
                    Asset::Token(t) => {
                        let h = to_json_binary(&json!({"stake": {"user": f}})).unwrap();
                        self.go(&u, &[M::Exec(t, json!({"send": {"contract": m, "amount": amt.to_string(), "msg": h}}), vec![])], "stake_adapted", json!({"params": {"cw20": {"user": f, "amount": amt.to_string()}}}), what, cov)?;
                    }
                    Asset::Nft(t) => {
                        let h = to_json_binary(&json!({"stake": {"user": f}})).unwrap();
                        let ids = self.pick(&t, &u, *k);
                        let l: Vec<M> = ids.iter().map(|i| M::Exec(t.clone(), json!({"send_nft": {"contract": m, "token_id": i, "msg": h}}), vec![])).collect();
                        self.go(&u, &l, "stake_adapted", json!({"params": {"cw721": {"user": f, "tokens": ids}}}), what, cov)?;
                    }
                    Asset::None => {}
                }
            }
            Op::Unstake { by, amt, k } => {
                let (u, m) = (usr(*by), self.mem());
                let st = self.a.query::<Value, _>(&m, &json!({"user_weight": {"user": u}})).ok().and_then(|v| v["weight"].as_str().and_then(|s| s.parse::<u128>().ok())).unwrap_or(0);
                let amt = *amt as u128 % (st + 2);
                let (d, q) = match &self.asset {
                    Asset::Denom(_) => (json!({"amount": amt.to_string()}), json!({"denom": {"amount": amt.to_string()}})),
                    Asset::Token(_) => (json!({"amount": amt.to_string()}), json!({"cw20": {"amount": amt.to_string()}})),
                    Asset::Nft(_) => {
                        let l: Vec<String> = self.a.query::<Value, _>(&m, &json!({"user_stake": {"user": u}})).ok().and_then(|v| serde_json::from_value(v["tokens"].clone()).ok()).unwrap_or_default();
                        let mut ids: Vec<String> = l.into_iter().enumerate().filter(|(i, _)| k & (1 << (i % 4)) != 0).map(|x| x.1).collect();
                        if *k == 9 {
                            ids.push(tok(*by, 3));
                        }
                        (json!({ "nft_ids": ids }), json!({"cw721": {"tokens": ids}}))
                    }
                    Asset::None => return Ok(()),
                };
                self.go(&u, &[M::Exec(m, json!({ "unstake": d }), vec![])], "unstake_adapted", json!({ "params": q }), what, cov)?;
            }
            Op::Claim { by } => {
                if self.kind != Kind::Multisig {
                    let (u, m) = (usr(*by), self.mem());
                    self.go(&u, &[M::Exec(m, json!({"claim": {"user": null}}), vec![])], "claim_adapted", json!({}), what, cov)?;
                }
            }
            Op::Propose { by, acts, dep, owner } => {
                self.propose(*by, acts, *dep, owner, what, cov)?;
            }
            Op::CPropose { by, acts } => {
                self.cpropose(*by, acts, what, cov)?;
            }
            Op::Vote { by, p, o, council } => {
                let id = self.prop_id(*p);
                self.vote(&usr(*by), id, *o, *council, what, cov)?;
            }
            Op::Exec { by, p } => {
                let id = self.prop_id(*p);
                self.exec(*by, id, what, cov)?;
            }
            Op::Pass { acts, council, } => {
                let mut done = false;
                let deps: [Option<u32>; 3] = [None, Some(15), Some(60_000)];
                for by in 0..N {
                    for dep in deps.iter().skip(if *council { 2 } else { 0 }) {
                        done = done || if *council { self.cpropose(by, acts, what, cov)? } else { self.propose(by, acts, *dep, &None, what, cov)? };
                    }
                }
                if !done {
                    return Ok(());
                }
                let id = self.n;
                for by in 0..N {
                    self.vote(&usr(by), id, 0, *council, what, cov)?;
                }
                self.queries(what, cov)?;
                let p: Value = self.a.query(&self.ctrl(), &json!({"proposal": {"proposal_id": id}})).map_err(|e| dv(P, format!("{what}: {e}")))?;
                if let Some(t) = p["proposal"]["expires"]["at_time"].as_str().and_then(|t| t.parse::<u64>().ok()) {
                    for w in [&mut self.a, &mut self.b] {
                        w.set_time(cosmwasm_std::Timestamp::from_nanos(t));
                    }
                }
                self.queries(what, cov)?;
                if self.exec(0, id, what, cov)? {
                    cov.hit(if *council { "passed-council" } else { "passed" });
                    if acts.iter().any(|a| matches!(a, Act::Deploy(_))) {
                        self.step(&Op::Remote, what, cov)?;
                    }
                }
            }
            Op::Remote => {
                let o = self.d.c.enterprise_outposts_contract.clone();
                for id in 0..12 {
                    for x in 0..3u8 {
                        let s = hooks_account(&format!("channel-{x}"), &gproxy(0), "terra");
                        for w in [&mut self.a, &mut self.b] {
                            let _ = w.exec(&s, &o, &reply(id, &Data::Addr(x)), &[]);
                        }
                    }
                }
                self.same(what)?;
            }
            Op::Wrong(x) => {
                // nothing may come of a request made for another type of DAO
                let m = self.cpm(&[Act::Msgs], &None);
                let reqs: Vec<(Kind, &str, Value)> = vec![
                    (Kind::Denom, "create_proposal_with_denom_deposit_adapted", json!({"params": {"create_proposal_msg": m, "deposit_amount": "40"}})),
                    (Kind::Token, "create_proposal_with_token_deposit_adapted", json!({"params": {"create_proposal_msg": m, "deposit_amount": "40"}})),
                    (Kind::Nft, "create_proposal_with_nft_deposit_adapted", json!({"params": {"create_proposal_msg": m, "deposit_tokens": [tok(*x, 0)]}})),
                    (Kind::Denom, "stake_adapted", json!({"params": {"denom": {"user": usr(*x), "amount": "4"}}})),
                    (Kind::Token, "stake_adapted", json!({"params": {"cw20": {"user": usr(*x), "amount": "4"}}})),
                    (Kind::Nft, "stake_adapted", json!({"params": {"cw721": {"user": usr(*x), "tokens": [tok(*x, 0)]}}})),
                ];
                for (k, name, q) in reqs {
                    if k == self.kind {
                        continue;
                    }
                    if let Ok(ms) = self.adapted(name, q) {
                        let r = send(&mut self.b, &usr(*x), &ms);
                        ensure_p!(r.is_err(), P, "{what}: {name} for a {k:?} DAO had an effect on a {:?} DAO: {ms:?}", self.kind);
                    }
                }
                if self.kind == Kind::Multisig {
                    if let Ok(ms) = self.adapted("claim_adapted", json!({})) {
                        ensure_p!(send(&mut self.b, &usr(*x), &ms).is_err(), P, "{what}: a claim from a multisig DAO went through: {ms:?}");
                    }
                }
                cov.hit("wrong-type");
                self.same(what)?;
            }
        }
        Ok(())
    }
    fn q(&self, c: &Addr, m: Value) -> Result<Value, String> {
        self.b.query(c, &m)
    }
    /// the facade's answer, the same for every way to ask
    fn ask(&self, name: &str, key: &str, params: Value, want: Result<Value, String>, what: &str) -> Res {
        let ways = [(&self.facade, &self.d.treasury), (&self.facade, &self.d.enterprise), (&self.v2, &self.d.enterprise)];
        let k = self.way.get();
        self.way.set(k + 1);
        for (i, (f, c)) in ways.into_iter().enumerate() {
            if !self.full && i != k % 5 % 3 {
                continue;
            }
            let mut q = json!({ "contract": c });
            if !params.is_null() {
                q[key] = params.clone();
            }
            let got = self.q(f, json!({ name: q }));
            let how = if *f == self.v2 {
                "the version 2 facade"
            } else if *c == self.d.treasury {
                "asked by treasury"
            } else {
                "asked by main contract"
            };
            match (&got, &want) {
                (Ok(g), Ok(w)) => ensure_eq_p!(g, w, P, "{what}: {name} {params}, {how}"),
                (Err(_), Err(_)) => {}
                _ => return div(P, format!("{what}: {name} {params}, {how}: got {got:?}, expected {want:?}")),
            }
        }
        Ok(())
    }
    fn queries(&self, what: &str, cov: &mut Cov) -> Res {
        let d = &self.d;
        let (ctrl, mem) = (self.ctrl(), self.mem());
        let bad = |e: String| dv(P, format!("{what}: direct query: {e}"));
        self.ask("treasury_address", "", Value::Null, Ok(json!({"treasury_address": d.treasury})), what)?;
        let c = &d.c;
        self.ask(
            "component_contracts",
            "",
            Value::Null,
            {
                let mut x = self.q(&d.enterprise, json!({"component_contracts": {}})).map_err(bad)?;
                x["enterprise_contract"] = json!(d.enterprise);
                Ok(x)
            },
            what,
        )?;
        // general information
        let info = self.q(&d.enterprise, json!({"dao_info": {}})).map_err(bad)?;
        let g = self.q(&ctrl, json!({"gov_config": {}})).map_err(bad)?;
        let (thing, unlock) = match self.kind {
            Kind::Denom => {
                let x = self.q(&mem, json!({"denom_config": {}})).map_err(bad)?;
                (x["denom"].clone(), x["unlocking_period"].clone())
            }
            Kind::Token => {
                let x = self.q(&mem, json!({"token_config": {}})).map_err(bad)?;
                (x["token_contract"].clone(), x["unlocking_period"].clone())
            }
            Kind::Nft => {
                let x = self.q(&mem, json!({"nft_contract_config": {}})).map_err(bad)?;
                let local = self.q(&mem, json!({"nft_config": {}})).map_err(bad)?["nft_contract"].clone();
                if x["nft_contract"].get("ics721").is_some() {
                    cov.hit(format!("cross-chain-collection-{}", if self.version >= Version::new(1, 2, 0) { "known" } else { "too-old" }));
                }
                // releases before 1.2.0 have no cross-chain collections
                (if x["nft_contract"].get("ics721").is_some() && self.version >= Version::new(1, 2, 0) { x["nft_contract"]["ics721"]["class_id"].clone() } else { local }, x["unlocking_period"].clone())
            }
            Kind::Multisig => (json!(d.enterprise), json!({"time": 0})),
        };
        let mut members: Vec<Value> = vec![];
        loop {
            let r = self.q(&c.council_membership_contract, json!({"members": {"start_after": members.last(), "limit": 7}})).map_err(bad)?;
            let l = r["members"].as_array().cloned().unwrap_or_default();
            if l.is_empty() {
                break;
            }
            members.extend(l.into_iter().map(|x| x["user"].clone()));
        }
        let gc = &g["gov_config"];
        let cg = &g["council_gov_config"];
        let v = &info["dao_version"];
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        let council = if cg.is_null() {
            Value::Null
        } else {
            json!({"members": members, "allowed_proposal_action_types": cg["allowed_proposal_action_types"], "quorum": cg["quorum"], "threshold": cg["threshold"]})
        };
        if members.len() > 100 {
            cov.hit("big-council");
        }
        let want = json!({"creation_date": info["creation_date"], "metadata": info["metadata"], "dao_type": info["dao_type"], "dao_version": v,
            "dao_code_version": (n("major") * 10_000 + n("minor") * 100 + n("patch")).to_string(), "enterprise_factory_contract": c.enterprise_factory_contract,
            "funds_distributor_contract": c.funds_distributor_contract, "dao_membership_contract": thing, "dao_council": council,
            "gov_config": {"quorum": gc["quorum"], "threshold": gc["threshold"], "veto_threshold": if gc["veto_threshold"].is_null() { gc["threshold"].clone() } else { gc["veto_threshold"].clone() },
                "vote_duration": gc["vote_duration"], "unlocking_period": unlock, "minimum_deposit": gc["minimum_deposit"], "allow_early_proposal_execution": gc["allow_early_proposal_execution"]}});
        self.ask("dao_info", "", Value::Null, Ok(want), what)?;
        // members
        let amount = |v: &Value| v.as_str().and_then(|s| s.parse::<u128>().ok()).unwrap_or(0);
        let total = amount(&self.q(&mem, json!({"total_weight": {"expiration": {"never": {}}}})).map_err(bad)?["total_weight"]);
        let mut sum = 0;
        for u in (0..N).map(usr).chain(["nobody".to_string()]) {
            let w = amount(&self.q(&mem, json!({"user_weight": {"user": u}})).map_err(bad)?["weight"]);
            sum += w;
            let vp = if total == 0 { 0 } else { (cosmwasm_std::Uint256::from(w) * cosmwasm_std::Uint256::from(crate::e1_poll::E18) / cosmwasm_std::Uint256::from(total)).to_string().parse::<u128>().unwrap() };
            self.ask("member_info", "msg", json!({"member_address": u}), Ok(json!({"voting_power": dec_s(vp)})), what)?;
            let p = json!({"user": u, "start_after": null, "limit": self.page});
            let st = match self.kind {
                Kind::Denom => json!({"denom": {"amount": w.to_string()}}),
                Kind::Token => json!({"token": {"amount": w.to_string()}}),
                Kind::Nft => {
                    let x = self.q(&mem, json!({ "user_stake": p })).map_err(bad)?;
                    if let Some(l) = x["tokens"].as_array().filter(|l| !l.is_empty()) {
                        let p = json!({"user": u, "start_after": l[0], "limit": self.page});
                        let y = self.q(&mem, json!({ "user_stake": p })).map_err(bad)?;
                        self.ask("user_stake", "params", p, Ok(json!({"user_stake": {"nft": {"tokens": y["tokens"], "amount": w.to_string()}}})), what)?;
                    }
                    json!({"nft": {"tokens": x["tokens"], "amount": w.to_string()}})
                }
                Kind::Multisig => json!("none"),
            };
            self.ask("user_stake", "params", p, Ok(json!({ "user_stake": st })), what)?;
            for name in ["claims", "releasable_claims"] {
                let l = match self.kind {
                    Kind::Multisig => vec![],
                    _ => self.q(&mem, json!({ name: {"user": u} })).map_err(bad)?["claims"].as_array().cloned().unwrap_or_default(),
                };
                let want: Vec<Value> = l
                    .iter()
                    .map(|x| {
                        let a = match self.kind {
                            Kind::Denom => json!({"denom": {"amount": x["amount"]}}),
                            Kind::Token => json!({"cw20": {"amount": x["amount"]}}),
                            _ => json!({"cw721": {"tokens": x["nft_ids"]}}),
                        };
                        json!({"asset": a, "release_at": x["release_at"]})
                    })
                    .collect();
                if !want.is_empty() {
                    cov.hit(format!("{name}-listed"));
                }
                self.ask(name, "params", json!({"owner": u}), Ok(json!({ "claims": want })), what)?;
            }
        }
        let _ = sum;
        self.ask("total_staked_amount", "", Value::Null, Ok(json!({"total_staked_amount": if self.kind == Kind::Multisig { "0".to_string() } else { total.to_string() }})), what)?;
        for sa in [None, Some("user1")] {
            let p = json!({"start_after": sa, "limit": self.page});
            let want = match self.kind {
                Kind::Multisig => self.q(&mem, json!({ "members": p })).map(|x| {
                    json!({"members": x["members"].as_array().unwrap().iter().map(|m| json!({"address": m["user"], "weight": m["weight"]})).collect::<Vec<_>>()})
                }),
                _ => Err("not a multisig".into()),
            };
            self.ask("list_multisig_members", "msg", p, want, what)?;
            let p = json!({"start_after": sa.map(|_| tok(1, 1)), "limit": self.page});
            let want = match self.kind {
                Kind::Nft => self.q(&mem, json!({ "staked_nfts": p })),
                _ => Ok(json!({"nfts": []})),
            };
            self.ask("staked_nfts", "params", p, want, what)?;
            // treasury
            let p = json!({"start_after": sa.map(|_| wl(2)), "limit": self.page});
            self.ask("asset_whitelist", "params", p.clone(), self.q(&d.treasury, json!({ "asset_whitelist": p })), what)?;
            let p = json!({"start_after": sa.map(|_| "nftwl1"), "limit": self.page});
            self.ask("nft_whitelist", "params", p.clone(), self.q(&d.treasury, json!({ "nft_whitelist": p })), what)?;
            let p = json!({"start_after": sa.map(|_| "chain-0"), "limit": self.page});
            let x = self.q(&c.enterprise_outposts_contract, json!({ "cross_chain_treasuries": p }));
            if x.as_ref().map(|x| x["treasuries"].as_array().map(|l| !l.is_empty()).unwrap_or(false)).unwrap_or(false) {
                cov.hit("remote-treasuries-listed");
            }
            self.ask("cross_chain_treasuries", "params", p, x, what)?;
            // proposals
            for f in [None, Some("in_progress"), Some("passed"), Some("rejected")] {
                let p = json!({"filter": f, "start_after": sa.map(|_| 1), "limit": self.page});
                let want = self.q(&ctrl, json!({ "proposals": p })).map(|x| json!({"proposals": x["proposals"].as_array().unwrap().iter().map(proposal).collect::<Vec<_>>()}));
                self.ask("proposals", "params", p, want, what)?;
            }
        }
        for id in (1..=self.n).rev().take(4).chain([self.n + 1]) {
            let p = json!({ "proposal_id": id });
            let x = self.q(&ctrl, json!({ "proposal": p }));
            if let Ok(x) = &x {
                cov.hit(format!("proposal-{}", x["proposal_status"].as_str().unwrap_or("")));
            }
            self.ask("proposal", "params", p.clone(), x.map(|x| proposal(&x)), what)?;
            self.ask("proposal_status", "params", p.clone(), self.q(&ctrl, json!({ "proposal_status": p })), what)?;
            for u in (0..N).map(usr) {
                let p = json!({"member": u, "proposal_id": id});
                self.ask("member_vote", "params", p.clone(), self.q(&ctrl, json!({ "member_vote": p })), what)?;
            }
            for sa in [None, Some("user1")] {
                let p = json!({"proposal_id": id, "start_after": sa, "limit": self.page});
                self.ask("proposal_votes", "params", p.clone(), self.q(&ctrl, json!({ "proposal_votes": p })), what)?;
            }
        }
        // migration state
        let x = self.q(&d.treasury, json!({"has_incomplete_v2_migration": {}})).map_err(bad)?;
        self.ask("has_incomplete_v2_migration", "", Value::Null, Ok(x.clone()), what)?;
        let st = if x["has_incomplete_migration"] == json!(true) { "migration_in_progress" } else { "migration_completed" };
        self.ask("v2_migration_stage", "", Value::Null, Ok(json!({ "stage": st })), what)?;
        // releases before 1.0.2 know of none
        let x = if self.version < Version::new(1, 0, 2) { json!({"has_unmoved_stakes_or_claims": false}) } else { self.q(&d.treasury, json!({"has_unmoved_stakes_or_claims": {}})).map_err(bad)? };
        cov.hit(format!("{st}-{}", x["has_unmoved_stakes_or_claims"]));
        self.ask("has_unmoved_stakes_or_claims", "", Value::Null, Ok(x), what)?;
        Ok(())
    }
}
fn proposal(x: &Value) -> Value {
    let p = &x["proposal"];
    json!({"proposal": {"proposal_type": p["proposal_type"], "id": p["id"], "proposer": p["proposer"], "title": p["title"], "description": p["description"], "status": p["status"],
        "started_at": p["started_at"], "expires": p["expires"], "proposal_actions": p["proposal_actions"]},
        "proposal_status": x["proposal_status"], "results": x["results"], "total_votes_available": x["total_votes_available"]})
}

// ------------------------------------------------------------ generation
fn gov() -> BoxedStrategy<GovSpec> {
    (1u16..=1000, 1u16..=1000, prop::option::of(1u16..=1000), 1u32..1000, prop_oneof![3 => Just(None), 2 => (0u32..50).prop_map(Some), 1 => Just(Some(2u32))], any::<bool>())
        .prop_map(|(q, t, v, dur, dep, early)| GovSpec { q: if q > 700 { q } else { q % 300 + 1 }, t, v, dur, dep, early })
        .boxed()
}
fn council() -> BoxedStrategy<Option<CouncilSpec>> {
    prop::option::weighted(
        0.6,
        (prop::sample::subsequence((0u8..N).collect::<Vec<_>>(), 0..=4), 1u16..=600, 1u16..=600, prop::option::of(prop::sample::subsequence(vec![0u8, 3, 4, 6, 13], 0..=5)))
            .prop_map(|(members, q, t, allowed)| CouncilSpec { members, q, t, allowed }),
    )
    .boxed()
}
fn dur() -> BoxedStrategy<Dur> {
    prop_oneof![3 => (1u64..3000).prop_map(Dur::Secs), 1 => (0u64..300).prop_map(Dur::Blocks)].boxed()
}
fn act() -> BoxedStrategy<Act> {
    let small = || prop::collection::vec(0u8..9, 0..3);
    let rem = || prop::option::weighted(0.4, 0u8..3);
    prop_oneof![
        3 => (any::<u8>(), prop::option::of(0u8..9)).prop_map(|(mask, val)| Act::Meta { mask, val }),
        3 => (gov(), prop::option::of(dur())).prop_map(|(gov, unlock)| Act::Gov { gov, unlock }),
        2 => council().prop_map(Act::Council),
        2 => (small(), small(), rem()).prop_map(|(add, rem, remote)| Act::Assets { add, rem, remote }),
        2 => (small(), small(), rem()).prop_map(|(add, rem, remote)| Act::Nfts { add, rem, remote }),
        1 => (1u8..9, rem()).prop_map(|(amt, remote)| Act::Fund { amt, remote }),
        1 => rem().prop_map(|remote| Act::TMsgs { remote }),
        1 => Just(Act::Msgs),
        2 => prop::collection::vec((0u8..N, 0u8..9), 0..3).prop_map(Act::Members),
        4 => (0u8..3).prop_map(Act::Deploy),
        1 => (0u8..30).prop_map(Act::MinWeight)
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    let acts = || prop::collection::vec(act(), 0..4);
    let amt = || prop_oneof![3 => 0u32..60, 1 => 0u32..100_000];
    prop_oneof![
        2 => (1u32..1500).prop_map(Op::Adv),
        4 => (0u8..N, 0u8..N, amt(), 0u8..16).prop_map(|(by, for_, amt, k)| Op::Stake { by, for_, amt, k }),
        3 => (0u8..N, amt(), 0u8..16).prop_map(|(by, amt, k)| Op::Unstake { by, amt, k }),
        2 => (0u8..N).prop_map(|by| Op::Claim { by }),
        3 => (0u8..N, acts(), prop::option::of(prop_oneof![4 => 0u32..60, 1 => 0u32..200_000]), prop::option::of(0u8..N)).prop_map(|(by, acts, dep, owner)| Op::Propose { by, acts, dep, owner }),
        2 => (0u8..N, prop_oneof![acts().boxed(), Just(vec![]).boxed()]).prop_map(|(by, acts)| Op::CPropose { by, acts }),
        4 => (0u8..N, any::<u8>(), 0u8..4, any::<bool>()).prop_map(|(by, p, o, council)| Op::Vote { by, p, o, council }),
        3 => (0u8..N, any::<u8>()).prop_map(|(by, p)| Op::Exec { by, p }),
        5 => acts().prop_map(|acts| Op::Pass { acts, council: false }),
        // many cross-chain actions in one proposal
        1 => (prop::collection::vec(act().prop_map(|a| match a {
            Act::Deploy(_) | Act::Fund { .. } => a,
            _ => Act::TMsgs { remote: Some(0) },
        }), 3..11)).prop_map(|acts| Op::Pass { acts, council: false }),
        3 => prop_oneof![Just(vec![]), (0u8..3).prop_map(|x| vec![Act::Deploy(x)]), Just(vec![Act::Meta { mask: 255, val: Some(1) }])].prop_map(|acts| Op::Pass { acts, council: true }),
        2 => Just(Op::Remote),
        1 => (0u8..N).prop_map(Op::Wrong)
    ]
    .boxed()
}
pub struct C24;
impl Check for C24 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        let kind = prop_oneof![Just(Kind::Denom), Just(Kind::Token), Just(Kind::Nft), Just(Kind::Multisig)];
        (
            (kind, prop::bool::weighted(0.3), 0u8..5, gov(), dur(), council(), prop_oneof![12 => Just(0u8), 1 => 90u8..130], prop::bool::weighted(0.15)),
            (0u8..9, prop::collection::vec(prop_oneof![1 => Just(0u32), 3 => 1u32..100], 1..=N as usize), prop::collection::vec(op(), 2..12), prop::option::of(any::<u8>()), any::<bool>(), prop_oneof![3 => Just(0u8), 1 => 1u8..4]),
        )
            .prop_map(|((kind, ics, version, gov, unlock, council, big_council, attest), (wl, stakes, ops, page, fv1, moving))| Case {
                kind, ics, version, gov, unlock, council, big_council, attest, wl, stakes, ops, page, fv1, moving,
            })
            .boxed()
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let mut s = S::new(c).map_err(|e| dv(P, format!("setting up: {e}")))?;
        cov.hit(format!("{:?}", c.kind));
        s.queries("at the start", cov)?;
        for (i, op) in c.ops.iter().enumerate() {
            let what = format!("step {i} {op:?}");
            s.step(op, &what, cov)?;
            s.full = i + 1 == c.ops.len();
            s.queries(&what, cov)?;
        }
        cov.nontrivial = s.n > 0 && c.ops.len() > 1;
        Ok(())
    }
    fn cases(&self) -> (u64, u64) {
        (1_300, 30_000)
    }
    fn rule(&self) -> &'static str {
        "at least one proposal was created through the facade"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["DAOs after the rewrite; the user sends the adapter's messages in one transaction, unchanged and in order"]
    }
}
