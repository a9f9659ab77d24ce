//! E9: cross-chain treasuries. C22.
//! Histories of deployments, executions and genuine, forged, repeated or malformed replies over
//! several chains, against a model; outgoing IBC transfers are recorded and decoded.
use crate::dao::*;
use crate::e2_member::Kind;
use crate::fw::*;
use crate::world::*;
use crate::wrap::{sent, Wrapped};
use crate::{ensure_eq_p, ensure_p};
use cosmwasm_std::{Addr, Binary};
use enterprise_versioning_api::api::{AddVersionMsg, Version};
use proptest::prelude::*;
use prost::Message;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};

const P: &[PropId] = &["C22"];
const CHAINS: [&str; 5] = ["juno-1", "juno-10", "osmosis-1", "Kaiyo", "a"];
const PREFIXES: [&str; 3] = ["juno", "osmo", "kujira"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    chain: u8,
    prefix: u8,
    src: u8,
    dest: u8,
    port: u8,
    timeout: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum From {
    /// the account the expected remote proxy has on this chain
    Genuine,
    /// right remote sender, wrong channel
    Channel(u8),
    /// right channel, wrong remote sender
    Remote(u8),
    /// right path, but derived for the remote chain's prefix
    Prefix(u8),
    /// genuine for another pending reply
    OfOther(u8),
    /// the remote proxy's own address
    Raw,
    Governance,
    User,
    Own,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Data {
    Addr(u8),
    Missing,
    Garbage,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TMsg {
    Spend { to: u8, amount: u32 },
    Assets { add: Vec<u8>, remove: Vec<u8> },
    Nfts { add: Vec<u8>, remove: Vec<u8> },
    Msgs(u8),
    /// not producible by governance; direct only
    SetAdmin(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Deploy { gov: bool, spec: Spec, gp: u8, codes: (u16, u16), assets: Option<Vec<u8>>, nfts: Option<Vec<u8>> },
    Exec { gov: bool, spec: Spec, msg: TMsg },
    /// to any reply ever requested (counted from the latest if `latest`)
    Reply { k: u8, latest: bool, from: From, data: Data },
    Unknown { id: u32, k: u8 },
    Advance(u32),
    Migrate,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    real: bool,
    ops: Vec<Op>,
    page: u8,
}

#[derive(Clone, PartialEq, prost::Message)]
struct PCoin {
    #[prost(string, tag = "1")]
    denom: String,
    #[prost(string, tag = "2")]
    amount: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct Height {
    #[prost(uint64, tag = "1")]
    rev: u64,
    #[prost(uint64, tag = "2")]
    height: u64,
}
#[derive(Clone, PartialEq, prost::Message)]
struct Transfer {
    #[prost(string, tag = "1")]
    source_port: String,
    #[prost(string, tag = "2")]
    source_channel: String,
    #[prost(message, tag = "3")]
    token: Option<PCoin>,
    #[prost(string, tag = "4")]
    sender: String,
    #[prost(string, tag = "5")]
    receiver: String,
    #[prost(message, tag = "6")]
    timeout_height: Option<Height>,
    #[prost(uint64, tag = "7")]
    timeout_timestamp: u64,
    #[prost(string, tag = "8")]
    memo: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct InstReply {
    #[prost(string, tag = "1")]
    contract_address: String,
    #[prost(bytes, tag = "2")]
    data: Vec<u8>,
}

/// the account an IBC-hooks packet acts as (written from the IBC-hooks specification)
pub fn hooks_account(channel: &str, sender: &str, prefix: &str) -> String {
    let mut h = Sha256::new();
    h.update(Sha256::digest(b"ibc-wasm-hook-intermediary"));
    h.update(format!("{channel}/{sender}").as_bytes());
    let d: [u8; 32] = h.finalize().into();
    bech32_no_std::encode(prefix, bech32_no_std::ToBase32::to_base32(&d)).unwrap()
}

impl Spec {
    fn src(&self) -> String {
        format!("channel-{}", self.src)
    }
    fn dest(&self) -> String {
        format!("channel-{}", 100 + self.dest as u32)
    }
    fn denom(&self) -> String {
        format!("ibc/D{}", self.dest)
    }
    fn chain(&self) -> String {
        CHAINS.get(self.chain as usize).map(|c| c.to_string()).unwrap_or_else(|| format!("chain-{}", self.chain))
    }
    fn prefix(&self) -> &'static str {
        PREFIXES[self.prefix as usize % 3]
    }
    fn json(&self) -> Value {
        json!({"chain_id": self.chain(), "chain_bech32_prefix": self.prefix(), "src_ibc_port": format!("transfer{}", self.port), "src_ibc_channel": self.src(),
            "dest_ibc_port": format!("dst{}", self.port), "dest_ibc_channel": self.dest(), "uluna_denom": self.denom(), "timeout_nanos": self.timeout})
    }
}
pub fn gproxy(x: u8) -> String {
    format!("juno1global{x}")
}
fn a_json(x: u8) -> Value {
    if x % 2 == 0 {
        json!({"native": format!("ujuno{x}")})
    } else {
        json!({"cw20": format!("juno1cw20x{x}")})
    }
}
impl TMsg {
    /// the message the treasury is to get
    fn treasury(&self) -> Value {
        match self {
            TMsg::Spend { to, amount } => json!({"spend": {"recipient": format!("juno1to{to}"), "assets": [{"info": {"native": "ujuno"}, "amount": amount.to_string()}]}}),
            TMsg::Assets { add, remove } => {
                json!({"update_asset_whitelist": {"add": add.iter().map(|x| a_json(*x)).collect::<Vec<_>>(), "remove": remove.iter().map(|x| a_json(*x)).collect::<Vec<_>>()}})
            }
            TMsg::Nfts { add, remove } => {
                json!({"update_nft_whitelist": {"add": add.iter().map(|x| format!("juno1nft{x}")).collect::<Vec<_>>(), "remove": remove.iter().map(|x| format!("juno1nft{x}")).collect::<Vec<_>>()}})
            }
            TMsg::Msgs(x) => json!({"execute_cosmos_msgs": {"msgs": [msg_text(*x)]}}),
            TMsg::SetAdmin(x) => json!({"set_admin": {"new_admin": format!("juno1adm{x}")}}),
        }
    }
    /// the proposal action asking for it
    fn action(&self, target: Value) -> Option<Value> {
        let t = self.treasury();
        let mut v = match self {
            TMsg::Spend { .. } => json!({"request_funding_from_dao": t["spend"]}),
            TMsg::Assets { .. } => t,
            TMsg::Nfts { .. } => t,
            TMsg::Msgs(_) => json!({"execute_treasury_msgs": {"action_type": "x", "msgs": t["execute_cosmos_msgs"]["msgs"]}}),
            TMsg::SetAdmin(_) => return None,
        };
        v.as_object_mut().unwrap().values_mut().next().unwrap()["remote_treasury_target"] = target;
        Some(v)
    }
}
fn msg_text(x: u8) -> String {
    json!({"bank": {"burn": {"amount": [{"denom": "ujuno", "amount": (x as u32 + 1).to_string()}]}}}).to_string()
}

struct Pending {
    id: u64,
    spec: Spec,
    gp: u8,
    /// Some for a proxy instantiation: the rest of the deployment
    proxy: Option<(u16, Option<Vec<u8>>, Option<Vec<u8>>)>,
    done: bool,
}
struct S {
    w: World,
    o: Addr,
    dao: Option<Dao>,
    ctrl: String,
    prop: u64,
    pending: Vec<Pending>,
    proxies: BTreeMap<String, String>,
    treasuries: BTreeMap<String, String>,
    seen: usize,
    ids: BTreeSet<u64>,
    page: u32,
}

impl S {
    fn build(c: &Case) -> Result<S, String> {
        let mut w = World::new();
        let oc = w.app.store_code(Wrapped::strip(outposts_code()));
        let (o, dao, ctrl);
        if c.real {
            let mut codes = w.codes.clone();
            codes.outposts = oc;
            let v = Version::new(1, 9, 0);
            let reg = w.versioning.clone();
            w.exec(ECO_ADMIN, &reg, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: version_info(v, &codes) }), &[])?;
            let (m, _) = simple_dao(&mut w, Kind::Multisig, false, &[5]);
            create_dao(&mut w, &m, None)?;
            let d = last_dao(&w)?;
            o = d.c.enterprise_outposts_contract.clone();
            ctrl = d.c.enterprise_governance_controller_contract.to_string();
            dao = Some(d);
        } else {
            ctrl = "governance".to_string();
            let (e, _) = standalone_enterprise(&mut w, &ctrl);
            o = w.inst(oc, ECO_ADMIN, &json!({"enterprise_contract": e}), Some(ECO_ADMIN))?;
            dao = None;
        }
        Ok(S { w, o, dao, ctrl, prop: 0, pending: vec![], proxies: BTreeMap::new(), treasuries: BTreeMap::new(), seen: 0, ids: BTreeSet::new(), page: c.page as u32 % 4 + 1 })
    }
    /// a request by the DAO's governance (through a passed proposal for a real DAO)
    fn by_gov(&mut self, direct: &Value, action: Option<Value>) -> Result<(), String> {
        let Some(d) = &self.dao else {
            let o = self.o.clone();
            return self.w.exec(&self.ctrl.clone(), &o, direct, &[]).map(|_| ());
        };
        let Some(action) = action else { return Err("not producible".into()) };
        let c = d.c.enterprise_governance_controller_contract.clone();
        self.w.exec("user0", &c, &json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": [action]}}), &[])?;
        self.prop += 1;
        let id = self.prop;
        self.w.exec("user0", &c, &json!({"cast_vote": {"proposal_id": id, "outcome": "yes"}}), &[])?;
        self.w.exec("user0", &c, &json!({"execute_proposal": {"proposal_id": id}}), &[])?;
        Ok(())
    }
    /// newly sent transfers, decoded: (transfer, contract, message, callback)
    fn news(&mut self, what: &str) -> Res<Vec<(Transfer, Value, Value)>> {
        let s = sent(&self.w, &self.o);
        let mut out = vec![];
        for (url, b) in s.iter().skip(self.seen) {
            ensure_eq_p!(url.as_str(), "/ibc.applications.transfer.v1.MsgTransfer", P, "{what}: kind of message sent");
            let t = Transfer::decode(b.as_slice()).map_err(|e| dv(P, format!("{what}: transfer not decodable: {e}")))?;
            let m: Value = serde_json::from_str(&t.memo).map_err(|e| dv(P, format!("{what}: memo is not JSON: {e}")))?;
            ensure_eq_p!(m["wasm"]["contract"], json!(t.receiver), P, "{what}: contract named in the memo is not the receiver");
            let ms = m["wasm"]["msg"]["execute_msgs"]["msgs"].as_array().cloned().unwrap_or_default();
            ensure_eq_p!(ms.len(), 1, P, "{what}: messages in the memo {m}");
            out.push((t, ms[0]["msg"].clone(), ms[0]["reply_callback"].clone()));
        }
        self.seen = s.len();
        Ok(out)
    }
    fn envelope(&self, t: &Transfer, spec: &Spec, to: &str, what: &str) -> Res {
        let j = spec.json();
        ensure_eq_p!(json!(t.source_port), j["src_ibc_port"], P, "{what}: port");
        ensure_eq_p!(json!(t.source_channel), j["src_ibc_channel"], P, "{what}: channel");
        ensure_eq_p!(t.sender, self.o.to_string(), P, "{what}: sender");
        ensure_eq_p!(t.receiver, to.to_string(), P, "{what}: receiver");
        ensure_eq_p!(t.token, Some(PCoin { denom: "uluna".into(), amount: "1".into() }), P, "{what}: token");
        ensure_eq_p!(t.timeout_timestamp, self.w.now().nanos() + spec.timeout.unwrap_or(900_000_000_000), P, "{what}: timeout");
        Ok(())
    }
    fn callback(&mut self, cb: &Value, spec: &Spec, what: &str) -> Res<u64> {
        let id = cb["callback_id"].as_u64().ok_or_else(|| dv(P, format!("{what}: no reply requested: {cb}")))?;
        let j = spec.json();
        ensure_eq_p!(
            *cb,
            json!({"callback_id": id, "ibc_port": j["dest_ibc_port"], "ibc_channel": j["dest_ibc_channel"], "denom": j["uluna_denom"], "receiver": self.o}),
            P,
            "{what}: reply request"
        );
        ensure_p!(self.ids.insert(id), P, "{what}: reply id {id} was used before");
        Ok(id)
    }
    fn treasury_inst(&mut self, n: (Transfer, Value, Value), spec: &Spec, gp: u8, proxy: &str, code: u16, assets: &Option<Vec<u8>>, nfts: &Option<Vec<u8>>, what: &str) -> Res {
        self.envelope(&n.0, spec, &gproxy(gp), what)?;
        let i = &n.1["wasm"]["instantiate"];
        ensure_eq_p!(i["code_id"], json!(code), P, "{what}: code of the remote treasury in {}", n.1);
        ensure_eq_p!(i["admin"], json!(proxy), P, "{what}: administrator of the remote treasury");
        ensure_eq_p!(i["funds"], json!([]), P, "{what}: funds of the remote treasury");
        let m = decode(&i["msg"], what)?;
        ensure_eq_p!(
            m,
            json!({"admin": proxy, "asset_whitelist": assets.as_ref().map(|v| v.iter().map(|x| a_json(*x)).collect::<Vec<_>>()), "nft_whitelist": nfts.as_ref().map(|v| v.iter().map(|x| format!("juno1nft{x}")).collect::<Vec<_>>())}),
            P,
            "{what}: settings of the remote treasury"
        );
        let id = self.callback(&n.2, spec, what)?;
        self.pending.push(Pending { id, spec: spec.clone(), gp, proxy: None, done: false });
        Ok(())
    }
    fn check(&self, what: &str) -> Res {
        for ch in CHAINS {
            let v: Value = self.w.query(&self.o, &json!({"cross_chain_deployments": {"chain_id": ch}})).map_err(|e| dv(P, format!("{what}: {e}")))?;
            ensure_eq_p!(
                v,
                json!({"chain_id": ch, "proxy_addr": self.proxies.get(ch), "treasury_addr": self.treasuries.get(ch)}),
                P,
                "{what}: deployments on {ch}"
            );
        }
        let want: Vec<Value> = self.treasuries.iter().map(|(c, t)| json!({"chain_id": c, "treasury_addr": t})).collect();
        for limit in [None, Some(self.page)] {
            let mut got = vec![];
            let mut start: Option<String> = None;
            loop {
                let v: Value = self
                    .w
                    .query(&self.o, &json!({"cross_chain_treasuries": {"start_after": start, "limit": limit}}))
                    .map_err(|e| dv(P, format!("{what}: {e}")))?;
                let p = v["treasuries"].as_array().cloned().unwrap_or_default();
                if p.is_empty() || got.len() > 20 {
                    break;
                }
                start = p.last().unwrap()["chain_id"].as_str().map(|s| s.to_string());
                got.extend(p);
            }
            ensure_eq_p!(got, want, &["C22", "C25"], "{what}: cross-chain treasuries listed (page {limit:?})");
        }
        Ok(())
    }
    fn step(&mut self, op: &Op, what: &str, cov: &mut Cov) -> Res {
        match op {
            Op::Advance(s) => {
                self.w.advance(*s as u64 * 1_000_000_000, 1);
            }
            Op::Migrate => {
                if self.dao.is_none() {
                    let code = self.w.app.store_code(Wrapped::strip(outposts_code()));
                    let o = self.o.to_string();
                    let r = self.w.exec_msg(ECO_ADMIN, cosmwasm_std::WasmMsg::Migrate { contract_addr: o, new_code_id: code, msg: Binary::from(b"{}") }.into());
                    ensure_p!(r.is_ok(), P, "{what}: migration onto the same code fails: {r:?}");
                    cov.hit("migrated");
                }
            }
            Op::Deploy { gov, spec, gp, codes, assets, nfts } => {
                let m = json!({"cross_chain_msg_spec": spec.json(), "asset_whitelist": assets.as_ref().map(|v| v.iter().map(|x| a_json(*x)).collect::<Vec<_>>()),
                    "nft_whitelist": nfts.as_ref().map(|v| v.iter().map(|x| format!("juno1nft{x}")).collect::<Vec<_>>()), "ics_proxy_code_id": codes.0, "enterprise_treasury_code_id": codes.1,
                    "chain_global_proxy": gproxy(*gp)});
                let direct = json!({ "deploy_cross_chain_treasury": m });
                if !gov {
                    return self.stranger(&direct, what, cov);
                }
                let ch = spec.chain();
                let exists = self.treasuries.contains_key(&ch);
                let r = self.by_gov(&direct, Some(json!({ "deploy_cross_chain_treasury": m })));
                let n = self.news(what)?;
                if exists {
                    ensure_p!(n.is_empty(), P, "{what}: a second treasury is deployed to {ch}");
                    ensure_p!(self.dao.is_some() || r.is_err(), P, "{what}: a second deployment to {ch} accepted");
                    cov.hit("second-deployment-refused");
                    return Ok(());
                }
                if let Err(e) = r {
                    return div(P, format!("{what}: deployment refused: {e}"));
                }
                ensure_eq_p!(n.len(), 1, P, "{what}: messages sent");
                let n = n.into_iter().next().unwrap();
                if let Some(p) = self.proxies.get(&ch).cloned() {
                    cov.hit("proxy-reused");
                    self.treasury_inst(n, spec, *gp, &p, codes.1, assets, nfts, what)?;
                } else {
                    if self.pending.iter().any(|p| !p.done && p.spec.chain() == ch) {
                        cov.hit("parallel-deployments");
                    }
                    self.envelope(&n.0, spec, &gproxy(*gp), what)?;
                    let i = &n.1["wasm"]["instantiate"];
                    ensure_eq_p!(i["code_id"], json!(codes.0), P, "{what}: code of the remote proxy in {}", n.1);
                    ensure_eq_p!(i["funds"], json!([]), P, "{what}: funds of the remote proxy");
                    let m = decode(&i["msg"], what)?;
                    ensure_eq_p!(m["owner"], json!(hooks_account(&spec.dest(), self.o.as_str(), spec.prefix())), P, "{what}: owner of the remote proxy");
                    ensure_eq_p!(m["allow_cross_chain_msgs"], json!(true), P, "{what}: remote proxy settings");
                    ensure_p!(m["whitelist"].is_null() && m["msgs"].is_null(), P, "{what}: remote proxy settings {m}");
                    let id = self.callback(&n.2, spec, what)?;
                    self.pending.push(Pending { id, spec: spec.clone(), gp: *gp, proxy: Some((codes.1, assets.clone(), nfts.clone())), done: false });
                    cov.hit("proxy-requested");
                }
            }
            Op::Exec { gov, spec, msg } => {
                let target = json!({"cross_chain_msg_spec": spec.json()});
                let direct = json!({"execute_cross_chain_treasury": {"msg": msg.treasury(), "treasury_target": target}});
                if !gov {
                    return self.stranger(&direct, what, cov);
                }
                let ch = spec.chain();
                let action = msg.action(target);
                let possible = self.dao.is_none() || action.is_some();
                let r = self.by_gov(&direct, action);
                let n = self.news(what)?;
                match (self.treasuries.get(&ch).cloned(), possible) {
                    (Some(t), true) => {
                        if let Err(e) = r {
                            return div(P, format!("{what}: execution refused: {e}"));
                        }
                        ensure_eq_p!(n.len(), 1, P, "{what}: messages sent");
                        self.envelope(&n[0].0, spec, &self.proxies[&ch].clone(), what)?;
                        let x = &n[0].1["wasm"]["execute"];
                        ensure_eq_p!(x["contract_addr"], json!(t), P, "{what}: target of {}", n[0].1);
                        ensure_eq_p!(x["funds"], json!([]), P, "{what}: funds");
                        ensure_eq_p!(decode(&x["msg"], what)?, msg.treasury(), P, "{what}: payload");
                        ensure_p!(n[0].2.is_null(), P, "{what}: a reply was requested");
                        cov.hit("executed");
                    }
                    _ => {
                        ensure_p!(n.is_empty(), P, "{what}: something was sent although {ch} has no treasury");
                        ensure_p!(self.dao.is_some() || r.is_err(), P, "{what}: accepted although {ch} has no treasury");
                        cov.hit("no-treasury-refused");
                    }
                }
            }
            Op::Unknown { id, k } => {
                if self.ids.contains(&(*id as u64)) {
                    return Ok(());
                }
                let sender = match self.pending.get(*k as usize % self.pending.len().max(1)) {
                    Some(p) => hooks_account(&p.spec.src(), &gproxy(p.gp), "terra"),
                    None => self.ctrl.clone(),
                };
                let o = self.o.clone();
                let r = self.w.exec(&sender, &o, &reply(*id as u64, &Data::Addr(9)), &[]);
                ensure_p!(r.is_err(), P, "{what}: a reply with an id never issued is accepted");
                ensure_p!(self.news(what)?.is_empty(), P, "{what}: messages sent");
                cov.hit("unknown-id-refused");
            }
            Op::Reply { k, latest, from, data } => {
                if self.pending.is_empty() {
                    return Ok(());
                }
                let n = self.pending.len();
                let i = if *latest { n - 1 - (*k as usize % n.min(2)) } else { *k as usize % n };
                let p = &self.pending[i];
                let genuine = hooks_account(&p.spec.src(), &gproxy(p.gp), "terra");
                let sender = match from {
                    From::Genuine => genuine.clone(),
                    From::Channel(c) => hooks_account(&format!("channel-{}", if *c > 3 { 100 + p.spec.dest as u32 } else { *c as u32 }), &gproxy(p.gp), "terra"),
                    From::Remote(g) => hooks_account(&p.spec.src(), &if *g > 3 { self.o.to_string() } else { gproxy(*g) }, "terra"),
                    From::Prefix(x) => hooks_account(&p.spec.src(), &gproxy(p.gp), PREFIXES[*x as usize % 3]),
                    From::OfOther(x) => {
                        let q = &self.pending[*x as usize % n];
                        hooks_account(&q.spec.src(), &gproxy(q.gp), "terra")
                    }
                    From::Raw => gproxy(p.gp),
                    From::Governance => self.ctrl.clone(),
                    From::User => "user0".into(),
                    From::Own => self.o.to_string(),
                };
                let auth = sender == genuine;
                let ch = p.spec.chain();
                let free = match p.proxy {
                    Some(_) => !self.proxies.contains_key(&ch),
                    None => !self.treasuries.contains_key(&ch),
                };
                let ok = auth && !p.done && free && matches!(data, Data::Addr(_));
                let o = self.o.clone();
                let (id, done) = (p.id, p.done);
                let r = self.w.exec(&sender, &o, &reply(id, data), &[]);
                let news = self.news(what)?;
                if !ok {
                    ensure_p!(r.is_err(), P, "{what}: reply {} accepted (sender ok {auth}, already used {}, chain free {free})", id, done);
                    ensure_p!(news.is_empty(), P, "{what}: messages sent");
                    cov.hit(if !auth {
                        "forged-reply-refused"
                    } else if done {
                        "repeated-reply-refused"
                    } else if !free {
                        "late-reply-refused"
                    } else {
                        "malformed-reply-refused"
                    });
                    return Ok(());
                }
                if let Err(e) = r {
                    return div(P, format!("{what}: genuine reply refused: {e}"));
                }
                let Data::Addr(x) = data else { unreachable!() };
                let addr = remote_addr(*x);
                self.pending[i].done = true;
                match self.pending[i].proxy.clone() {
                    Some((code, assets, nfts)) => {
                        self.proxies.insert(ch, addr.clone());
                        ensure_eq_p!(news.len(), 1, P, "{what}: messages sent");
                        let (spec, gp) = (self.pending[i].spec.clone(), self.pending[i].gp);
                        self.treasury_inst(news.into_iter().next().unwrap(), &spec, gp, &addr, code, &assets, &nfts, what)?;
                        cov.hit("proxy-confirmed");
                    }
                    None => {
                        self.treasuries.insert(ch, addr);
                        ensure_p!(news.is_empty(), P, "{what}: messages sent");
                        cov.hit("treasury-confirmed");
                    }
                }
            }
        }
        Ok(())
    }
    fn stranger(&mut self, m: &Value, what: &str, cov: &mut Cov) -> Res {
        let o = self.o.clone();
        for who in ["user0", ECO_ADMIN, self.o.clone().as_str()] {
            let r = self.w.exec(who, &o, m, &[]);
            ensure_p!(r.is_err(), &["C22", "C15"], "{what}: accepted from {who}");
        }
        ensure_p!(self.news(what)?.is_empty(), &["C22", "C15"], "{what}: sent for a stranger");
        cov.hit("stranger-refused");
        Ok(())
    }
}
/// an outposts contract with confirmed treasuries on `n` chains: (world, contract, chain -> treasury)
pub fn population(n: u8) -> Res<(World, Addr, BTreeMap<String, String>)> {
    let mut s = S::build(&Case { real: false, ops: vec![], page: 0 }).map_err(|e| dv(P, format!("cannot be set up: {e}")))?;
    let mut cov = Cov::default();
    for i in 0..n {
        let spec = Spec { chain: i.wrapping_mul(37) % n, prefix: 0, src: 0, dest: 0, port: 0, timeout: None };
        s.step(&Op::Deploy { gov: true, spec, gp: 0, codes: (1, 2), assets: None, nfts: None }, "population", &mut cov)?;
        for _ in 0..2 {
            s.step(&Op::Reply { k: 0, latest: true, from: From::Genuine, data: Data::Addr(i) }, "population", &mut cov)?;
        }
    }
    Ok((s.w, s.o, s.treasuries))
}
fn remote_addr(x: u8) -> String {
    format!("juno1remote{x}")
}
pub fn reply(id: u64, d: &Data) -> Value {
    let data = match d {
        Data::Addr(x) => Some(Binary::from(InstReply { contract_address: remote_addr(*x), data: vec![] }.encode_to_vec())),
        Data::Missing => None,
        Data::Garbage => Some(Binary::from(vec![0xff, 0xff, 0x01])),
    };
    json!({"execute_msg_reply_callback": {"callback_id": id, "events": [{"type": "instantiate", "attributes": [{"key": "_contract_address", "value": "x"}]}], "data": data}})
}
fn decode(b64: &Value, what: &str) -> Res<Value> {
    let b = Binary::from_base64(b64.as_str().unwrap_or("")).map_err(|e| dv(P, format!("{what}: payload {b64}: {e}")))?;
    serde_json::from_slice(&b).map_err(|e| dv(P, format!("{what}: payload {b64}: {e}")))
}

fn spec() -> BoxedStrategy<Spec> {
    (0u8..5, 0u8..3, 0u8..3, 0u8..3, 0u8..2, prop_oneof![2 => Just(None), 1 => (0u64..1_000_000_000_000).prop_map(Some), 1 => (0u64..10_000_000_000_000_000).prop_map(Some)])
        .prop_map(|(c, prefix, src, dest, port, timeout)| Spec { chain: c.saturating_sub(1) % 4 + (c == 4) as u8, prefix, src, dest, port, timeout })
        .boxed()
}
fn small() -> BoxedStrategy<Option<Vec<u8>>> {
    prop_oneof![Just(None), prop::collection::vec(0u8..6, 0..3).prop_map(Some)].boxed()
}
fn gov() -> BoxedStrategy<bool> {
    prop_oneof![12 => Just(true), 1 => Just(false)].boxed()
}
fn op() -> BoxedStrategy<Op> {
    let from = prop_oneof![
        8 => Just(From::Genuine), 1 => (0u8..5).prop_map(From::Channel), 1 => (0u8..5).prop_map(From::Remote), 1 => (0u8..3).prop_map(From::Prefix),
        2 => any::<u8>().prop_map(From::OfOther), 1 => Just(From::Raw), 1 => Just(From::Governance), 1 => Just(From::User), 1 => Just(From::Own)
    ];
    let data = prop_oneof![10 => (0u8..6).prop_map(Data::Addr), 1 => Just(Data::Missing), 1 => Just(Data::Garbage)];
    let tm = prop_oneof![
        (0u8..4, any::<u32>()).prop_map(|(to, amount)| TMsg::Spend { to, amount }),
        (prop::collection::vec(0u8..6, 0..3), prop::collection::vec(0u8..6, 0..3)).prop_map(|(add, remove)| TMsg::Assets { add, remove }),
        (prop::collection::vec(0u8..3, 0..2), prop::collection::vec(3u8..6, 0..2)).prop_map(|(add, remove)| TMsg::Nfts { add, remove }),
        any::<u8>().prop_map(TMsg::Msgs),
        (0u8..3).prop_map(TMsg::SetAdmin)
    ];
    prop_oneof![
        6 => (gov(), spec(), 0u8..3, (1u16..300, 1u16..300), small(), small()).prop_map(|(gov, spec, gp, codes, assets, nfts)| Op::Deploy { gov, spec, gp, codes, assets, nfts }),
        4 => (gov(), spec(), tm).prop_map(|(gov, spec, msg)| Op::Exec { gov, spec, msg }),
        12 => (any::<u8>(), any::<bool>(), from, data).prop_map(|(k, latest, from, data)| Op::Reply { k, latest, from, data }),
        1 => (prop_oneof![0u32..20, any::<u32>()], any::<u8>()).prop_map(|(id, k)| Op::Unknown { id, k }),
        1 => (0u32..100_000).prop_map(Op::Advance),
        1 => Just(Op::Migrate)
    ]
    .boxed()
}
pub struct C22;
impl Check for C22 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        (prop_oneof![4 => Just(false), 1 => Just(true)], prop::collection::vec(op(), 2..40), any::<u8>()).prop_map(|(real, ops, page)| Case { real, ops, page }).boxed()
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let mut s = S::build(c).map_err(|e| dv(P, format!("cannot be set up: {e}")))?;
        for (k, op) in c.ops.iter().enumerate() {
            let what = format!("op {k} {op:?}");
            let r = s.step(op, &what, cov).and_then(|_| s.check(&what));
            if r.is_err() {
                return r;
            }
        }
        if s.treasuries.len() > 1 {
            cov.hit("several-treasuries");
        }
        if c.real {
            cov.hit("through-proposals");
        }
        cov.nontrivial = cov.has("treasury-confirmed") && (cov.has("forged-reply-refused") || cov.has("late-reply-refused") || cov.has("repeated-reply-refused"));
        Ok(())
    }
    fn cases(&self) -> (u64, u64) {
        (20_000, 400_000)
    }
    fn rule(&self) -> &'static str {
        "a treasury was confirmed and a forged, repeated or late reply was attempted in the same history"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["outgoing IBC transfers are recorded instead of sent; replies are injected as the IBC-hooks module would"]
    }
}
