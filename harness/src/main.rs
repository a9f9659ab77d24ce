mod dao;
mod direct;
mod e10_ics721;
mod e11_facade;
mod e12_legacy;
mod e13_pages;
mod e14_oldfacade;
mod e1_poll;
mod e2_member;
mod e3_rewards;
mod e4_dao;
mod e5_auth;
mod e6_whitelist;
mod e7_version;
mod e8_factory;
mod e9_outposts;
mod fw;
mod world;
mod wrap;

use fw::{run_check, Both, RunArgs};

fn main() {
    fw::install_quiet_panic_hook();
    let mut a = std::env::args().skip(1);
    let id = a.next().expect("usage: vcheck-prop <ID> <quick|thorough> | <ID> --replay FILE");
    let mode = a.next().unwrap_or_else(|| "quick".into());
    let (tier, replay) = if mode == "--replay" { ("quick".to_string(), a.next()) } else { (mode, None) };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let cases_override = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
    let args = |p: &'static str| RunArgs { prop: p, tier: tier.clone(), seed, replay: replay.clone(), cases_override };
    let code = match id.as_str() {
        #[cfg(feature = "C01")]
        "C01" => run_check(Both(e1_poll::C01, e4_dao::D01), args("C01")),
        #[cfg(feature = "C02")]
        "C02" => run_check(Both(e1_poll::C02, e4_dao::D01), args("C02")),
        #[cfg(feature = "C08")]
        "C08" => run_check(Both(e2_member::C08, e4_dao::D08), args("C08")),
        #[cfg(feature = "C09")]
        "C09" => run_check(Both(e2_member::C09, e4_dao::D08), args("C09")),
        #[cfg(feature = "C10")]
        "C10" => run_check(Both(e2_member::C10, e4_dao::D08), args("C10")),
        #[cfg(feature = "C11")]
        "C11" => run_check(e2_member::C11, args("C11")),
        #[cfg(feature = "C12")]
        "C12" => run_check(Both(e3_rewards::C12, e4_dao::D12), args("C12")),
        #[cfg(feature = "C13")]
        "C13" => run_check(Both(e3_rewards::C13, e4_dao::D12), args("C13")),
        #[cfg(feature = "C15")]
        "C15" => run_check(e5_auth::C15, args("C15")),
        #[cfg(feature = "C16")]
        "C16" => run_check(Both(e6_whitelist::C16, e4_dao::D16), args("C16")),
        #[cfg(feature = "C03")]
        "C03" => run_check(e4_dao::C03, args("C03")),
        #[cfg(feature = "C04")]
        "C04" => run_check(e4_dao::C04, args("C04")),
        #[cfg(feature = "C05")]
        "C05" => run_check(e4_dao::C05, args("C05")),
        #[cfg(feature = "C06")]
        "C06" => run_check(e4_dao::C06, args("C06")),
        #[cfg(feature = "C07")]
        "C07" => run_check(e4_dao::C07, args("C07")),
        #[cfg(feature = "C14")]
        "C14" => run_check(e4_dao::C14, args("C14")),
        #[cfg(feature = "C17")]
        "C17" => run_check(e4_dao::C17, args("C17")),
        #[cfg(feature = "C18")]
        "C18" => run_check(e4_dao::C18, args("C18")),
        #[cfg(feature = "C27")]
        "C27" => run_check(e4_dao::C27, args("C27")),
        #[cfg(feature = "C28")]
        "C28" => run_check(e4_dao::C28, args("C28")),
        #[cfg(feature = "C29")]
        "C29" => run_check(e4_dao::C29, args("C29")),
        #[cfg(feature = "C19")]
        "C19" => run_check(e7_version::C19, args("C19")),
        #[cfg(feature = "C20")]
        "C20" => run_check(e7_version::C20, args("C20")),
        #[cfg(feature = "C21")]
        "C21" => run_check(e8_factory::C21, args("C21")),
        #[cfg(feature = "C22")]
        "C22" => run_check(e9_outposts::C22, args("C22")),
        #[cfg(feature = "C23")]
        "C23" => run_check(e10_ics721::C23, args("C23")),
        #[cfg(feature = "C24")]
        "C24" => run_check(e11_facade::C24, args("C24")),
        #[cfg(feature = "C25")]
        "C25" => run_check(e13_pages::C25, args("C25")),
        #[cfg(feature = "C26")]
        "C26" => run_check(e12_legacy::C26, args("C26")),
        #[cfg(feature = "C30")]
        "C30" => run_check(e14_oldfacade::C30, args("C30")),
        other => {
            eprintln!("unknown property {other}");
            2
        }
    };
    std::process::exit(code);
}
