// Included once per crate: `api` is the crate under test or its pinned copy.
use super::{b, f};

pub fn call(name: &str, a: &[&str]) -> Vec<u64> {
    use api::*;
    match name {
        "gamma" => vec![b(gamma(f(a[0])))],
        "ln_gamma" => vec![b(ln_gamma(f(a[0])))],
        "gammp" => vec![b(gammp(f(a[0]), f(a[1])))],
        "gammq" => vec![b(gammq(f(a[0]), f(a[1])))],
        "invgammp" => vec![b(invgammp(f(a[0]), f(a[1])))],
        "beta" => vec![b(beta(f(a[0]), f(a[1])))],
        "betai" => vec![b(betai(f(a[0]), f(a[1]), f(a[2])))],
        "invbetai" => vec![b(invbetai(f(a[0]), f(a[1]), f(a[2])))],
        "erf" => vec![b(erf(f(a[0])))],
        "erfc" => vec![b(erfc(f(a[0])))],
        "erfcx" => vec![b(erfcx(f(a[0])))],
        "inverf" => vec![b(inverf(f(a[0])))],
        "inverfc" => vec![b(inverfc(f(a[0])))],
        "dawson" => vec![b(dawson(f(a[0])))],
        "faddeeva" => {
            let r = faddeeva(f(a[0]), f(a[1]));
            vec![b(r.0), b(r.1)]
        }
        "Jn" => vec![b(Jn(a[0].parse().unwrap(), f(a[1])))],
        "Yn" => vec![b(Yn(a[0].parse().unwrap(), f(a[1])))],
        "In" => vec![b(In(a[0].parse().unwrap(), f(a[1])))],
        "Kn" => vec![b(Kn(a[0].parse().unwrap(), f(a[1])))],
        "Jnu_Ynu" => {
            let r = Jnu_Ynu(f(a[0]), f(a[1]));
            vec![b(r.0), b(r.1)]
        }
        "Inu_Knu" => {
            let r = Inu_Knu(f(a[0]), f(a[1]));
            vec![b(r.0), b(r.1)]
        }
        "besseljy" => {
            let r = besseljy(f(a[0]), f(a[1]));
            vec![b(r.0), b(r.1), b(r.2), b(r.3)]
        }
        "besselik" => {
            let r = besselik(f(a[0]), f(a[1]));
            vec![b(r.0), b(r.1), b(r.2), b(r.3)]
        }
        "lambert_w" => {
            let r = lambert_w(a[0].parse().unwrap(), f(a[1]), f(a[2]));
            vec![b(r.0), b(r.1)]
        }
        "lambert_w0" => vec![b(lambert_w0(f(a[0])))],
        "lambert_wm1" => vec![b(lambert_wm1(f(a[0])))],
        "sp_lambert_w0" => vec![b(sp_lambert_w0(f(a[0])))],
        "sp_lambert_wm1" => vec![b(sp_lambert_wm1(f(a[0])))],
        "factorial" => vec![b(utils::factorial(a[0].parse().unwrap()))],
        "frexp" => {
            let r = utils::frexp(f(a[0]));
            vec![b(r.0), r.1 as i64 as u64]
        }
        "ldexp" => vec![b(utils::ldexp(f(a[0]), a[1].parse().unwrap()))],
        "sign" => vec![b(utils::sign(f(a[0]), f(a[1])))],
        _ => panic!("driver: unknown function {name}"),
    }
}
