use crate::fw::Sub;

pub const IDS: &[&str] = &[
    "S01", "S02", "S03", "S04", "S05", "S06", "S07", "K01", "K02", "K03", "K04", "K05", "K06",
    "A01", "A02", "A03", "A04", "A05", "A06", "A07", "A08", "A09", "A10", "A11", "A12",
    "X01", "X02", "X03", "X04", "X05",
];
pub fn subs(id: &str) -> Option<Vec<Box<dyn Sub>>> {
    use crate::{auc_props as a, spake_props as k, srp_props as s, x_props as x};
    Some(match id {
        "S01" => s::s01_subs(),
        "S02" => s::s02_subs(),
        "S03" => s::s03_subs(),
        "S04" => s::s04_subs(),
        "S05" => s::s05_subs(),
        "S06" => s::s06_subs(),
        "S07" => s::s07_subs(),
        "K01" => k::k01_subs(),
        "K02" => k::k02_subs(),
        "K03" => k::k03_subs(),
        "K04" => k::k04_subs(),
        "K05" => k::k05_subs(),
        "K06" => k::k06_subs(),
        "A01" => a::a01_subs(),
        "A02" => a::a02_subs(),
        "A03" => a::a03_subs(),
        "A04" => a::a04_subs(),
        "A05" => a::a05_subs(),
        "A06" => a::a06_subs(),
        "A07" => a::a07_subs(),
        "A08" => a::a08_subs(),
        "A09" => a::a09_subs(),
        "A10" => a::a10_subs(),
        "A11" => a::a11_subs(),
        "A12" => a::a12_subs(),
        "X01" => x::x01_subs(),
        "X02" => x::x02_subs(),
        "X03" => x::x03_subs(),
        "X04" => a::x04_subs(),
        "X05" => crate::hist_props::x05_subs(),
        _ => return None,
    })
}
/// How often the quick tier repeats the base number of cases (about half a minute per property).
pub fn quick_scale(id: &str) -> f64 {
    match id {
        "S05" | "X04" => 1.5,
        "S01" | "X01" | "X02" => 3.0,
        "S03" | "S06" | "K02" => 4.0,
        "S02" | "A01" | "A02" | "A03" | "A05" | "A06" | "A07" | "A08" | "A09" | "A10" | "A11" => 6.0,
        "K01" | "K04" | "A12" => 8.0,
        "K05" => 20.0,
        "S04" | "K03" | "K06" | "A04" => 10.0,
        "X05" => 7.0,
        _ => 1.0,
    }
}
pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "search over generated inputs: absence of a violation is evidence, not proof",
        "release build with overflow checks and debug assertions on",
    ];
    match &id[..1] {
        "S" => v.push("big-integer arithmetic of num-bigint and the sha1/sha2 crates are trusted by the oracle"),
        "K" => v.push("curve25519-dalek point and scalar arithmetic is trusted by the oracle; curve membership, HKDF and constants are recomputed independently"),
        "A" => v.push("curve25519-dalek ristretto arithmetic and hash-to-group are trusted by the oracle"),
        _ => {}
    }
    v
}
