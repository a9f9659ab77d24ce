//! Contract wrappers: keep IBC transfers out of the simulated chain (recording them),
//! and prepare raw legacy state right after instantiation. The wrapped contract's own code
//! answers everything.
use cosmwasm_std::{Binary, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply, Response, Storage};
use cw_multi_test::Contract;
use cw_storage_plus::Item;

const SENT: Item<Vec<(String, Binary)>> = Item::new("zz_stargate_sent");

pub struct Wrapped {
    pub inner: Box<dyn Contract<Empty>>,
    pub strip: bool,
    pub after_inst: Option<Box<dyn Fn(&mut dyn Storage)>>,
}
impl Wrapped {
    pub fn strip(inner: Box<dyn Contract<Empty>>) -> Box<dyn Contract<Empty>> {
        Box::new(Wrapped { inner, strip: true, after_inst: None })
    }
    pub fn with_state(inner: Box<dyn Contract<Empty>>, f: impl Fn(&mut dyn Storage) + 'static) -> Box<dyn Contract<Empty>> {
        Box::new(Wrapped { inner, strip: false, after_inst: Some(Box::new(f)) })
    }
    fn done(&self, s: &mut dyn Storage, mut r: Response) -> Response {
        if self.strip {
            let mut log = SENT.may_load(s).unwrap().unwrap_or_default();
            let n = log.len();
            r.messages.retain(|m| match &m.msg {
                CosmosMsg::Stargate { type_url, value } => {
                    log.push((type_url.clone(), value.clone()));
                    false
                }
                _ => true,
            });
            if log.len() > n {
                SENT.save(s, &log).unwrap();
            }
        }
        r
    }
}
impl Contract<Empty> for Wrapped {
    fn execute(&self, mut d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> {
        let r = self.inner.execute(d.branch(), e, i, m)?;
        Ok(self.done(d.storage, r))
    }
    fn instantiate(&self, mut d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> {
        let r = self.inner.instantiate(d.branch(), e, i, m)?;
        if let Some(f) = &self.after_inst {
            f(d.storage);
        }
        Ok(self.done(d.storage, r))
    }
    fn query(&self, d: Deps, e: Env, m: Vec<u8>) -> anyhow::Result<Binary> {
        self.inner.query(d, e, m)
    }
    fn sudo(&self, d: DepsMut, e: Env, m: Vec<u8>) -> anyhow::Result<Response> {
        self.inner.sudo(d, e, m)
    }
    fn reply(&self, mut d: DepsMut, e: Env, m: Reply) -> anyhow::Result<Response> {
        let r = self.inner.reply(d.branch(), e, m)?;
        Ok(self.done(d.storage, r))
    }
    fn migrate(&self, d: DepsMut, e: Env, m: Vec<u8>) -> anyhow::Result<Response> {
        self.inner.migrate(d, e, m)
    }
}
/// what a wrapped contract tried to send to other chains, in order
pub fn sent(w: &crate::world::World, c: &cosmwasm_std::Addr) -> Vec<(String, Binary)> {
    w.dump(c).into_iter().find(|(k, _)| k == b"zz_stargate_sent").map(|(_, v)| cosmwasm_std::from_json(v).unwrap()).unwrap_or_default()
}
