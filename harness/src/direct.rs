//! Direct entry-point driving on a clonable in-memory store with transaction semantics.
use cosmwasm_std::testing::{mock_env, mock_info, MockApi};
use cosmwasm_std::{Addr, Api as _, CanonicalAddr, RecoverPubkeyError, StdResult, VerificationError};
use cosmwasm_std::{
    Binary, Coin, Deps, DepsMut, Env, MessageInfo, Order, Querier, QuerierWrapper, Record,
    Storage,
};
use std::collections::BTreeMap;
use std::ops::Bound;

#[derive(Clone, Default)]
pub struct MapStorage(pub BTreeMap<Vec<u8>, Vec<u8>>);

impl Storage for MapStorage {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if value.is_empty() {
            panic!("setting empty value");
        }
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let s = start.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec()));
        let e = end.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec()));
        if let (Some(a), Some(b)) = (start, end) {
            if a > b {
                return Box::new(std::iter::empty());
            }
        }
        let it = self.0.range((s, e)).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

pub struct Direct<Q: Querier> {
    pub storage: MapStorage,
    pub querier: Q,
    pub env: Env,
}

impl<Q: Querier> Direct<Q> {
    pub fn new(querier: Q) -> Self {
        Direct { storage: MapStorage::default(), querier, env: mock_env() }
    }
    /// transaction: commits storage only on Ok; panics are Err.
    pub fn tx<T, E: std::fmt::Display>(
        &mut self,
        sender: &str,
        funds: &[Coin],
        f: impl FnOnce(DepsMut, Env, MessageInfo) -> Result<T, E>,
    ) -> Result<T, String> {
        let mut st = self.storage.clone();
        let api = FastApi;
        let info = mock_info(sender, funds);
        let env = self.env.clone();
        let q = &self.querier;
        let r = crate::fw::guarded(|| {
            let deps = DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::new(q) };
            f(deps, env, info).map_err(|e| e.to_string())
        });
        match r {
            Ok(Ok(v)) => {
                self.storage = st;
                Ok(v)
            }
            Ok(Err(e)) => Err(e),
            Err(p) => Err(format!("abort: {p}")),
        }
    }
    pub fn q<T: serde::de::DeserializeOwned, E: std::fmt::Display>(
        &self,
        f: impl FnOnce(Deps, Env) -> Result<Binary, E>,
    ) -> Result<T, String> {
        let api = FastApi;
        let st = &self.storage;
        let q = &self.querier;
        let env = self.env.clone();
        let r = crate::fw::guarded(|| {
            let deps = Deps { storage: st, api: &api, querier: QuerierWrapper::new(q) };
            f(deps, env).map_err(|e| e.to_string())
        });
        match r {
            Ok(Ok(b)) => cosmwasm_std::from_json(b).map_err(|e| e.to_string()),
            Ok(Err(e)) => Err(e),
            Err(p) => Err(format!("abort: {p}")),
        }
    }
}

/// MockApi with a short cut for plain lower-case addresses, whose validation is slow there.
#[derive(Clone, Copy, Default)]
pub struct FastApi;
impl cosmwasm_std::Api for FastApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        let plain = (3..=90).contains(&human.len()) && human.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b"_-./:".contains(&b));
        if plain {
            Ok(Addr::unchecked(human))
        } else {
            MockApi::default().addr_validate(human)
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        MockApi::default().addr_canonicalize(human)
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        MockApi::default().addr_humanize(canonical)
    }
    fn secp256k1_verify(&self, h: &[u8], s: &[u8], k: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().secp256k1_verify(h, s, k)
    }
    fn secp256k1_recover_pubkey(&self, h: &[u8], s: &[u8], r: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        MockApi::default().secp256k1_recover_pubkey(h, s, r)
    }
    fn ed25519_verify(&self, m: &[u8], s: &[u8], k: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_verify(m, s, k)
    }
    fn ed25519_batch_verify(&self, m: &[&[u8]], s: &[&[u8]], k: &[&[u8]]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_batch_verify(m, s, k)
    }
    fn debug(&self, _: &str) {}
}
