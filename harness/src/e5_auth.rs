//! E5: access control. C15.
//! Two live DAOs; every step picks a privileged operation with generated arguments, submits it from
//! every known address that is not its designated caller (all must fail), and then from the
//! designated caller (must succeed, which shows that only the caller was wrong before).
use crate::dao::*;
use crate::e2_member::Kind;
use crate::ensure_p;
use crate::fw::*;
use crate::world::*;
use crate::wrap::Wrapped;
use cosmwasm_std::{Addr, Binary};
use enterprise_versioning_api::api::{AddVersionMsg, Version};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

const P: &[PropId] = &["C15"];
const KINDS: [Kind; 4] = [Kind::Denom, Kind::Token, Kind::Nft, Kind::Multisig];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    dao: u8,
    what: u8,
    a: u8,
    b: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kinds: (u8, u8),
    council: (bool, bool),
    ops: Vec<Op>,
}

struct D {
    d: Dao,
    kind: Kind,
    asset: Asset,
    admin: String,
    /// open polls made by the governance
    polls: Vec<u64>,
    next_poll: u64,
    minor: u64,
    attested: bool,
}
struct S {
    w: World,
    ds: Vec<D>,
    pool: BTreeSet<String>,
    reg_admin: String,
    fac_admin: String,
    next_version: u64,
    hooks: Vec<Addr>,
    nft: u32,
    oc: u64,
    token: Addr,
}
struct Call {
    to: Addr,
    msg: Value,
    who: Vec<String>,
    /// the designated caller must succeed
    works: bool,
}
const N_OPS: u8 = 42;

fn b64(v: &Value) -> Binary {
    Binary::from(serde_json::to_vec(v).unwrap())
}
fn chain_spec(a: u8) -> Value {
    json!({"chain_id": format!("chain-{a}"), "chain_bech32_prefix": "juno", "src_ibc_port": "transfer", "src_ibc_channel": format!("channel-{a}"),
        "dest_ibc_port": "transfer", "dest_ibc_channel": "channel-9", "uluna_denom": "ibc/ABC", "timeout_nanos": null})
}
fn deployment(a: u8) -> Value {
    json!({"cross_chain_msg_spec": chain_spec(a), "asset_whitelist": null, "nft_whitelist": null, "ics_proxy_code_id": 3, "enterprise_treasury_code_id": 4, "chain_global_proxy": "juno1global"})
}
const STAKES: [u32; 4] = [7, 5, 3, 0];

impl S {
    fn build(c: &Case) -> Result<S, String> {
        let mut w = World::new();
        let oc = w.app.store_code(Wrapped::strip(outposts_code()));
        let mut codes = w.codes.clone();
        codes.outposts = oc;
        let reg = w.versioning.clone();
        for v in [Version::new(1, 9, 0), Version::new(1, 9, 1), Version::new(1, 9, 2)] {
            w.exec(ECO_ADMIN, &reg, &enterprise_versioning_api::msg::ExecuteMsg::AddVersion(AddVersionMsg { version: version_info(v, &codes) }), &[])?;
        }
        w.exec(ECO_ADMIN, &reg, &json!({"edit_version": {"version": current_version(), "enterprise_outposts_code_id": oc}}), &[])?;
        let mut ds = vec![];
        for (k, council) in [(c.kinds.0, c.council.0), (c.kinds.1, c.council.1)] {
            let kind = KINDS[k as usize % 4];
            let (m, asset) = simple_dao(&mut w, kind, council, &STAKES);
            create_dao(&mut w, &m, Some(Version::new(1, 9, 0)))?;
            let d = last_dao(&w)?;
            simple_stakes(&mut w, kind, &d, &asset, &STAKES)?;
            // a pending proposal with an effective action
            let ctrl = d.c.enterprise_governance_controller_contract.clone();
            let act = json!({"request_funding_from_dao": {"remote_treasury_target": null, "recipient": "user3", "assets": [{"info": {"native": "u0"}, "amount": "1"}]}});
            w.exec("user0", &ctrl, &json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": [act]}}), &[])?;
            w.mint(d.treasury.as_str(), 1_000_000, "u0");
            let admin = ctrl.to_string();
            ds.push(D { d, kind, asset, admin, polls: vec![], next_poll: 2, minor: 0, attested: false });
        }
        let rc = w.app.store_code(recorder());
        let hooks = (0..2).map(|_| w.inst(rc, ECO_ADMIN, &json!({}), None)).collect::<Result<Vec<_>, _>>()?;
        let token = w.new_cw20("OTHER", &[("user0", 1000)]);
        let mut pool: BTreeSet<String> = ["user0", "user1", "user2", "user3", "stranger", "dao_creator", ECO_ADMIN].iter().map(|s| s.to_string()).collect();
        pool.extend([w.factory.to_string(), w.versioning.to_string(), token.to_string()]);
        pool.extend(hooks.iter().map(|h| h.to_string()));
        for d in &ds {
            let c = &d.d.c;
            pool.extend(
                [
                    &d.d.enterprise,
                    &d.d.treasury,
                    &c.enterprise_governance_contract,
                    &c.enterprise_governance_controller_contract,
                    &c.enterprise_outposts_contract,
                    &c.funds_distributor_contract,
                    &c.membership_contract,
                    &c.council_membership_contract,
                ]
                .iter()
                .map(|a| a.to_string()),
            );
            match &d.asset {
                Asset::Token(t) | Asset::Nft(t) => {
                    pool.insert(t.to_string());
                }
                _ => {}
            }
        }
        Ok(S { w, ds, pool, reg_admin: ECO_ADMIN.into(), fac_admin: ECO_ADMIN.into(), next_version: 0, hooks, nft: 0, oc, token })
    }
    fn call(&mut self, op: &Op) -> Option<(&'static str, Call)> {
        let i = op.dao as usize % 2;
        let user = |x: u8| format!("user{}", x % 4);
        let now = self.w.now();
        let (a, b) = (op.a, op.b);
        let d = &mut self.ds[i];
        let c = d.d.c.clone();
        let ctrl = c.enterprise_governance_controller_contract.to_string();
        let gov = |to: &Addr, msg: Value| Call { to: to.clone(), msg, who: vec![ctrl.clone()], works: true };
        let g = &c.enterprise_governance_contract;
        let m = &c.membership_contract;
        let cm = &c.council_membership_contract;
        let e = &d.d.enterprise;
        let mv = |x: u8| if x % 3 == 0 { json!("no_change") } else { json!({"change": format!("v{x}")}) };
        let members = || -> Value {
            let mut v = vec![json!({"user": user(a), "weight": (b as u32 + 1).to_string()})];
            if b % 2 == 0 {
                v.push(json!({"user": "newbie", "weight": "3"}));
            }
            json!(v)
        };
        Some(match op.what % N_OPS {
            // ---- governance polls
            0 => {
                d.polls.push(d.next_poll);
                d.next_poll += 1;
                (
                    "create poll",
                    gov(g, json!({"create_poll": {"proposer": user(a), "deposit_amount": "0", "label": "l", "description": "d", "scheme": "coin_voting",
                    "ends_at": now.plus_seconds(1_000_000).nanos().to_string(), "quorum": "0.1", "threshold": "0.5", "veto_threshold": null}})),
                )
            }
            1 => {
                let p = *d.polls.get(a as usize % d.polls.len().max(1))?;
                ("cast vote", gov(g, json!({"cast_vote": {"poll_id": p.to_string(), "outcome": if b % 2 == 0 { "yes" } else { "no" }, "voter": user(a), "amount": (b as u32 + 1).to_string()}})))
            }
            2 => ("update votes", gov(g, json!({"update_votes": {"voter": user(a), "new_amount": b.to_string()}}))),
            3 => {
                if d.polls.is_empty() {
                    return None;
                }
                let p = d.polls.remove(a as usize % d.polls.len());
                ("end poll", gov(g, json!({"end_poll": {"poll_id": p.to_string(), "maximum_available_votes": "1000000", "error_if_already_ended": false, "allow_early_ending": false}})))
            }
            // ---- treasury
            4 | 5 => {
                let who = vec![d.admin.clone()];
                let new = match b % 6 {
                    0 => d.d.treasury.to_string(),
                    1 => user(a),
                    2 => d.d.enterprise.to_string(),
                    _ if a % 2 == 0 => ctrl.clone(),
                    _ => format!("admin{}", b % 3),
                };
                d.admin = new.clone();
                ("set treasury administrator", Call { to: d.d.treasury.clone(), msg: json!({"set_admin": {"new_admin": new}}), who, works: true })
            }
            6 => ("asset whitelist", Call { to: d.d.treasury.clone(), msg: json!({"update_asset_whitelist": {"add": [{"native": format!("u{}", a % 4)}], "remove": [{"native": format!("u{}", b % 4 + 4)}]}}), who: vec![d.admin.clone()], works: true }),
            7 => ("NFT whitelist", Call { to: d.d.treasury.clone(), msg: json!({"update_nft_whitelist": {"add": ["nft1"], "remove": ["nft2"]}}), who: vec![d.admin.clone()], works: true }),
            8 => (
                "spend",
                Call { to: d.d.treasury.clone(), msg: json!({"spend": {"recipient": user(a), "assets": [{"info": {"native": "u0"}, "amount": (b as u32 + 1).to_string()}]}}), who: vec![d.admin.clone()], works: true },
            ),
            9 => (
                "distribute treasury funds",
                Call {
                    to: d.d.treasury.clone(),
                    msg: json!({"distribute_funds": {"funds": [{"info": {"native": "u0"}, "amount": "5"}], "funds_distributor_contract": c.funds_distributor_contract}}),
                    who: vec![d.admin.clone()],
                    works: false,
                },
            ),
            10 | 11 => {
                let x = json!({"bank": {"send": {"to_address": user(a), "amount": [{"denom": "u0", "amount": "2"}]}}}).to_string();
                ("execute messages from the treasury", Call { to: d.d.treasury.clone(), msg: json!({"execute_cosmos_msgs": {"msgs": [x]}}), who: vec![d.admin.clone()], works: true })
            }
            12 => ("migration step", Call { to: d.d.treasury.clone(), msg: json!({"perform_next_migration_step": {"submsgs_limit": a}}), who: vec![], works: false }),
            // ---- membership
            13 | 14 => {
                if d.kind == Kind::Multisig {
                    return None;
                }
                let p = if a % 2 == 0 { json!({"time": 500 + b as u32}) } else { json!({"height": 5 + b as u32}) };
                ("unlocking period", gov(m, json!({"update_unlocking_period": {"new_unlocking_period": p}})))
            }
            15 => {
                let to = if b % 2 == 0 { m } else { cm };
                ("add listener", gov(to, json!({"add_weight_change_hook": {"hook_addr": self.hooks[a as usize % 2]}})))
            }
            16 => {
                let to = if b % 2 == 0 { m } else { cm };
                ("remove listener", gov(to, json!({"remove_weight_change_hook": {"hook_addr": self.hooks[a as usize % 2]}})))
            }
            17 => {
                if d.kind != Kind::Multisig {
                    return None;
                }
                ("update members", gov(m, json!({"update_members": {"update_members": members()}})))
            }
            18 => {
                if d.kind != Kind::Multisig {
                    return None;
                }
                ("set members", gov(m, json!({"set_members": {"new_members": members()}})))
            }
            19 => ("update council members", gov(cm, json!({"update_members": {"update_members": members()}}))),
            20 => ("set council members", gov(cm, json!({"set_members": {"new_members": members()}}))),
            21 | 22 => {
                let Asset::Token(t) = &d.asset else { return None };
                let h = match b % 3 {
                    0 => json!({"stake": {"user": user(a)}}),
                    1 => json!({"add_stakes": {"stakers": [{"user": user(a), "staked_amount": "7"}]}}),
                    _ => json!({"add_claims": {"claims": [{"user": user(a), "claim_amount": "7", "release_at": {"timestamp": now.nanos().to_string()}}]}}),
                };
                ("token arrives", Call { to: m.clone(), msg: json!({"receive": {"sender": user(b), "amount": "7", "msg": b64(&h)}}), who: vec![t.to_string()], works: !d.attested })
            }
            23 | 24 => {
                let Asset::Nft(t) = &d.asset else { return None };
                self.nft += 1;
                let h = if b % 2 == 0 { json!({"stake": {"user": user(a)}}) } else { json!({"add_claim": {"user": user(a), "release_at": {"timestamp": now.nanos().to_string()}}}) };
                ("NFT arrives", Call { to: m.clone(), msg: json!({"receive_nft": {"sender": user(b), "token_id": format!("x{}", self.nft), "msg": b64(&h)}}), who: vec![t.to_string()], works: !d.attested })
            }
            // ---- funds distributor
            25 => ("minimum weight for rewards", gov(&c.funds_distributor_contract, json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": a.to_string()}}))),
            26 => ("reward weights", gov(&c.funds_distributor_contract, json!({"update_user_weights": {"new_user_weights": [{"user": user(a), "weight": b.to_string()}]}}))),
            27 => (
                "claim rewards of a user",
                Call { to: c.funds_distributor_contract.clone(), msg: json!({"claim_rewards": {"user": user(a), "native_denoms": ["u0"], "cw20_assets": []}}), who: vec![user(a)], works: !d.attested },
            ),
            // ---- controller
            28 => (
                "report weights",
                Call {
                    to: c.enterprise_governance_controller_contract.clone(),
                    msg: json!({"weights_changed": {"weight_changes": [{"user": user(a), "old_weight": "3", "new_weight": b.to_string()}]}}),
                    who: if b % 2 == 0 { vec![m.to_string(), cm.to_string()] } else { vec![cm.to_string(), m.to_string()] },
                    works: true,
                },
            ),
            29 => (
                "execute proposal actions",
                Call { to: c.enterprise_governance_controller_contract.clone(), msg: json!({"execute_proposal_actions": {"proposal_id": 1}}), who: vec![ctrl.clone()], works: false },
            ),
            30 => (
                "initial cross-chain treasuries",
                Call { to: c.enterprise_governance_controller_contract.clone(), msg: json!({"deploy_initial_cross_chain_treasuries": {}}), who: vec![self.w.factory.to_string()], works: false },
            ),
            31 => {
                let h = json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": []}});
                let who = match &d.asset {
                    Asset::Token(t) => vec![t.to_string()],
                    _ => vec![],
                };
                ("token proposal", Call { to: c.enterprise_governance_controller_contract.clone(), msg: json!({"receive": {"sender": user(a), "amount": "10", "msg": b64(&h)}}), who, works: false })
            }
            // ---- the DAO's main contract
            32 => (
                "metadata",
                gov(e, json!({"update_metadata": {"name": mv(a), "description": mv(b), "logo": "no_change", "github_username": "no_change", "discord_username": mv(a), "twitter_username": "no_change", "telegram_username": "no_change"}})),
            ),
            33 => {
                if a % 4 != 0 || d.minor >= 2 || d.admin != ctrl {
                    return None;
                }
                d.minor += 1;
                ("upgrade", gov(e, json!({"upgrade_dao": {"new_version": {"major": 1, "minor": 9, "patch": d.minor}, "migrate_msgs": []}})))
            }
            34 => {
                d.attested = true;
                ("attestation", gov(e, json!({"set_attestation": {"attestation_text": format!("t{a}")}})))
            }
            35 => {
                d.attested = false;
                ("remove attestation", gov(e, json!({"remove_attestation": {}})))
            }
            36 => {
                let x = json!({"wasm": {"execute": {"contract_addr": self.token, "msg": b64(&json!({"burn": {"amount": "0"}})), "funds": []}}}).to_string();
                let x = if a % 2 == 0 { vec![x] } else { vec![] };
                ("execute messages from the DAO", Call { works: a % 2 == 1, ..gov(e, json!({"execute_msgs": {"msgs": x}})) })
            }
            37 => (
                "DAO configuration",
                gov(e, json!({"update_config": {"new_versioning_contract": {"change": self.w.versioning}, "new_factory_contract": if a % 2 == 0 { json!("no_change") } else { json!({"change": self.w.factory}) }}})),
            ),
            38 => {
                let x = json!({"enterprise_treasury_contract": user(a), "enterprise_governance_contract": user(a), "enterprise_governance_controller_contract": user(a), "enterprise_outposts_contract": user(a),
                    "funds_distributor_contract": user(a), "membership_contract": user(a), "council_membership_contract": user(a), "attestation_contract": null});
                ("finalize again", Call { to: e.clone(), msg: json!({ "finalize_instantiation": x }), who: vec![], works: false })
            }
            // ---- outposts
            39 => ("cross-chain deployment", gov(&c.enterprise_outposts_contract, json!({"deploy_cross_chain_treasury": deployment(a % 4)}))),
            40 => (
                "cross-chain execution",
                Call { works: false, ..gov(&c.enterprise_outposts_contract, json!({"execute_cross_chain_treasury": {"msg": {"set_admin": {"new_admin": "x"}}, "treasury_target": {"cross_chain_msg_spec": chain_spec(a % 4)}}})) },
            ),
            // ---- registries
            _ => match a % 5 {
                0 => {
                    self.next_version += 1;
                    let v = version_info(Version::new(1, 10, self.next_version), &self.w.codes);
                    ("publish a version", Call { to: self.w.versioning.clone(), msg: json!({"add_version": {"version": v}}), who: vec![self.reg_admin.clone()], works: true })
                }
                1 => (
                    "edit a version",
                    Call {
                        to: self.w.versioning.clone(),
                        msg: json!({"edit_version": {"version": {"major": 1, "minor": 9, "patch": 0}, "changelog": [format!("c{b}")], "attestation_code_id": null, "enterprise_code_id": null, "enterprise_governance_code_id": null,
                            "enterprise_governance_controller_code_id": null, "enterprise_outposts_code_id": null, "enterprise_treasury_code_id": null, "funds_distributor_code_id": null, "token_staking_membership_code_id": null,
                            "denom_staking_membership_code_id": null, "nft_staking_membership_code_id": null, "multisig_membership_code_id": null}}),
                        who: vec![self.reg_admin.clone()],
                        works: true,
                    },
                ),
                2 => {
                    let who = vec![self.reg_admin.clone()];
                    self.reg_admin = format!("registrar{}", b % 3);
                    ("registry administrator", Call { to: self.w.versioning.clone(), msg: json!({"update_admin": {"new_admin": self.reg_admin}}), who, works: true })
                }
                3 => {
                    let who = vec![self.fac_admin.clone()];
                    let new = (b % 2 == 0).then(|| format!("creator{}", b % 3));
                    if let Some(n) = &new {
                        self.fac_admin = n.clone();
                    }
                    (
                        "factory configuration",
                        Call { to: self.w.factory.clone(), msg: json!({"update_config": {"new_admin": new, "new_enterprise_versioning": null, "new_cw20_code_id": null, "new_cw721_code_id": b as u64 + 1}}), who, works: true },
                    )
                }
                _ => ("finalize DAO creation", Call { to: self.w.factory.clone(), msg: json!({"finalize_dao_creation": {}}), who: vec![self.w.factory.to_string()], works: false }),
            },
        })
    }
    fn submit(&mut self, label: &str, c: &Call, what: &str, cov: &mut Cov) -> Res {
        let callers: Vec<String> = self.pool.iter().filter(|p| !c.who.contains(p)).cloned().collect();
        for s in &callers {
            let r = self.w.exec(s, &c.to, &c.msg, &[]);
            ensure_p!(r.is_err(), P, "{what}: {label} works for {s} (meant for {:?}): {} on {}", c.who, c.msg, c.to);
        }
        cov.hit(format!("refused: {label}"));
        if c.works {
            let w = &c.who[0];
            let r = self.w.exec(w, &c.to, &c.msg, &[]);
            if let Err(e) = r {
                return div(P, format!("{what}: {label} fails for its designated caller {w}: {e}: {} on {}", c.msg, c.to));
            }
            cov.hit(format!("works: {label}"));
        }
        Ok(())
    }
    /// contracts outside the factory: one-time finalisation and initial deployments
    fn fresh(&mut self, op: &Op, what: &str, cov: &mut Cov) -> Res {
        let fail = |e: String| dv(P, format!("{what}: {e}"));
        let e = new_enterprise(&mut self.w, enterprise_protocol::api::DaoType::Denom);
        let ctrl = self
            .w
            .inst(
                self.w.codes.controller,
                "maker",
                &json!({"enterprise_contract": e, "dao_type": "denom", "gov_config": simple_gov().json(), "council_gov_config": null, "proposal_infos": null, "initial_cross_chain_treasuries": [deployment(op.a % 3)]}),
                None,
            )
            .map_err(fail)?;
        let out = self.w.inst(self.oc, "maker", &json!({"enterprise_contract": e}), None).map_err(fail)?;
        self.pool.insert("maker".into());
        let t = |x: &Addr| x.to_string();
        let x = json!({"enterprise_treasury_contract": t(&ctrl), "enterprise_governance_contract": t(&ctrl), "enterprise_governance_controller_contract": t(&ctrl), "enterprise_outposts_contract": t(&out),
            "funds_distributor_contract": t(&ctrl), "membership_contract": t(&ctrl), "council_membership_contract": t(&ctrl), "attestation_contract": null});
        let fin = Call { to: e.clone(), msg: json!({ "finalize_instantiation": x }), who: vec![ECO_ADMIN.into()], works: true };
        self.submit("finalize", &fin, what, cov)?;
        self.submit("finalize again", &Call { who: vec![], works: false, ..fin }, what, cov)?;
        let late = op.b % 2 == 0;
        if late {
            self.w.advance(1_000_000_000 * (op.b as u64 + 1), 1);
        }
        let dep = Call { to: ctrl, msg: json!({"deploy_initial_cross_chain_treasuries": {}}), who: if late { vec![] } else { vec!["maker".into()] }, works: !late };
        self.submit(if late { "late initial deployment" } else { "initial deployment" }, &dep, what, cov)?;
        Ok(())
    }
}

pub struct C15;
impl Check for C15 {
    type Case = Case;
    fn strategy(&self) -> BoxedStrategy<Case> {
        let op = (any::<u8>(), 0u8..N_OPS + 1, any::<u8>(), any::<u8>()).prop_map(|(dao, what, a, b)| Op { dao, what, a, b });
        ((0u8..4, 0u8..4), (any::<bool>(), any::<bool>()), prop::collection::vec(op, 4..30)).prop_map(|(kinds, council, ops)| Case { kinds, council, ops }).boxed()
    }
    fn run(&self, c: &Case, cov: &mut Cov) -> Res {
        let mut s = S::build(c).map_err(|e| dv(P, format!("cannot be set up: {e}")))?;
        for (k, op) in c.ops.iter().enumerate() {
            let what = format!("op {k} {op:?}");
            if op.what == N_OPS {
                s.fresh(op, &what, cov)?;
                continue;
            }
            let Some((label, call)) = s.call(op) else { continue };
            if label == "end poll" {
                s.w.advance(2_000_000 * 1_000_000_000, 10);
                s.ds.iter_mut().for_each(|d| d.polls.clear());
            }
            s.submit(label, &call, &what, cov)?;
            // new administrators join the pool
            for a in s.ds.iter().map(|d| d.admin.clone()).chain([s.reg_admin.clone(), s.fac_admin.clone()]).collect::<Vec<_>>() {
                s.pool.insert(a);
            }
        }
        cov.nontrivial = cov.labels.keys().filter(|l| l.starts_with("works")).count() >= 4;
        Ok(())
    }
    fn cases(&self) -> (u64, u64) {
        (9_000, 100_000)
    }
    fn rule(&self) -> &'static str {
        "at least four different privileged operations were refused to everyone else and then worked for their designated caller"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["callers are all users, administrators (current and former), listeners, tokens and contracts of both DAOs and the registries"]
    }
}
