use crate::core::{Case, Cov, Tier};
use crate::rng::Rng;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;

pub type CaseFn = fn(&mut Rng, u64, &mut Cov, Tier) -> Case;

/// The cases of a property, and how many there are in the quick and the thorough tier.
pub fn cases(prop: &str) -> Option<(CaseFn, u64, u64)> {
    Some(match prop {
        "C01" => (c01::case as CaseFn, 24_000, 400_000),
        "C02" => (c02::case, 80_000, 300_000),
        "C03" => (c03::case, 60_000, 200_000),
        "C04" => (c04::case, 1_600, 20_000),
        "C05" => (c05::case, 2_400, 24_000),
        "C06" => (c06::case, 2_400, 24_000),
        "C07" => (c07::case, 6_000, 24_000),
        "C08" => (c08::case, 8_000, 24_000),
        "C09" => (c09::case, 20_000, 120_000),
        "C10" => (c10::case, 80_000, 300_000),
        "C11" => (c11::case, 12_000, 60_000),
        "C12" => (c12::case, 80_000, 800_000),
        "C13" => (c13::case, 120_000, 1_000_000),
        "C14" => (c14::case, 10_000, 150_000),
        "C15" => (c15::case, 16_000, 160_000),
        "C16" => (c16::case, 200_000, 3_000_000),
        "C17" => (c17::case, 4_000, 40_000),
        "C18" => (c18::case, 4_000, 40_000),
        "C19" => (c19::case, 12_000, 120_000),
        "C20" => (c20::case, 80_000, 800_000),
        "C21" => (c21::case, 40_000, 400_000),
        "C22" => (c22::case, 200_000, 2_000_000),
        "C23" => (c23::case, 40_000, 400_000),
        "C24" => (c24::case, 320_000, 4_000_000),
        "C25" => (c25::case, 1_600, 16_000),
        "C26" => (c26::case, 240_000, 6_000_000),
        "C27" => (c27::case, 2_400, 40_000),
        "C28" => (c28::case, 80_000, 1_000_000),
        _ => return None,
    })
}

/// A scenario small enough for Miri. Ok is what was observed, as `key=value` words.
pub fn miri(scen: &str, rng: &mut Rng) -> Result<String, String> {
    match scen {
        "C05" => c05::miri(rng),
        "C06" => c06::miri(rng),
        "C07" => c07::miri(rng),
        "C08" => c08::miri(rng),
        "C11" => c11::miri(rng),
        "C17" => c17::miri(rng),
        "C18" => c18::miri(rng),
        "C19" => c19::miri(rng),
        _ => Err(format!("unknown scenario {scen}")),
    }
}
