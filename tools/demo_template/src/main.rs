#![allow(dead_code, unused_imports)]
mod dao;
mod world;
mod demo;
mod h;
use serde::{Deserialize, Serialize};

pub const E18: u128 = 1_000_000_000_000_000_000;
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind { Denom, Token, Nft, Multisig }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dur { Secs(u64), Blocks(u64) }
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
}
fn main() { demo::demo(); println!("demo ok"); }
