//! Evaluations that go through the utility functions with closures.
use crate::{Op, V};
use qcd_sme::utils::*;
use qcd_sme::qcd::thermal::gluon as qcd_thermal;
use qcd_sme::qcd::thermal::quark;
use qcd_sme::ym::thermal::gluon as ym_thermal;
use qcd_sme::ym::{ghost, gluon};

#[rustfmt::skip]
pub static OPS: &[Op] = &[
    Op { name: "util::residue_gluon#r", kinds: "rr", args: "s,f0", ret: 'R', f: |a| { let f0 = a.r(1); V::R(compute_residue(&|s: f64| gluon::dressing_landau(s, f0), a.r(0))) } },
    Op { name: "util::residue_eps_gluon#c", kinds: "crr", args: "s,f0,eps", ret: 'C', f: |a| { let f0 = a.r(2); V::C(compute_residue_with_eps(&|s: qcd_sme::C| gluon::dressing_landau(s, f0), a.c(0), a.r(3).abs() + 1e-9)) } },
    Op { name: "util::spectral_gluon", kinds: "cr", args: "s,f0", ret: 'C', f: |a| { let f0 = a.r(2); V::C(spectral_function(|s| gluon::propagator_landau(s, f0), a.c(0))) } },
    Op { name: "util::spectral_eps_ghost", kinds: "crr", args: "s,g0,eps", ret: 'C', f: |a| { let f0 = a.r(2); V::C(spectral_function_with_eps(|s| ghost::dressing_landau(s, f0), a.c(0), a.r(3).abs() + 1e-9)) } },
    Op { name: "util::root_gluon", kinds: "cr", args: "s,f0", ret: 'C', f: |a| { let f0 = a.r(2); let z = a.c(0); let r = find_root(&|s: qcd_sme::C| gluon::dressing_inv_landau(s, f0), (z, z + 0.1), 1e-8, 12); V::C(r.map_or(qcd_sme::C { re: -77., im: 0. }, |x| x.0)) } },
    // evaluations nested in the callback of another
    Op { name: "util::thermal_root_density", kinds: "rrri", args: "m,beta,n", ret: 'R', f: |a| { let (m, b, n) = (a.r(0), a.r(1), a.r(2)); let i = a.int; V::R(find_root(&|mu: f64| n - quark::charge_density_with_method(m, b, mu, i), (0.5 * n, n), 1e-3, 12).map_or(-77., |x| x.0)) } },
    Op { name: "util::thermal_root_density_default", kinds: "rrr", args: "m,beta,n", ret: 'R', f: |a| { let (m, b, n) = (a.r(0), a.r(1), a.r(2)); V::R(find_root(&|mu: f64| n - quark::charge_density(m, b, mu), (0.5 * n, n), 1e-3, 6).map_or(-77., |x| x.0)) } },
    Op { name: "util::thermal_residue_gluon", kinds: "rrrrrf", args: "p,beta,mu,f0,om", ret: 'C', f: |a| { let (p, b, mu, f0) = (a.r(0), a.r(1), a.r(2), a.r(3)); let c = a.cfg.unwrap(); V::C(compute_residue_with_eps(&|om: qcd_sme::C| qcd_thermal::propagator_l_landau_w_field_config(om, p, b, mu, f0, c), qcd_sme::C { re: a.r(4), im: 0.1 }, 1e-3)) } },
    Op { name: "util::thermal_spectral_gluon", kinds: "rrrrr", args: "p,m,beta,f0,om", ret: 'C', f: |a| { let (p, m, b, f0) = (a.r(0), a.r(1), a.r(2), a.r(3)); V::C(spectral_function_with_eps(|om| ym_thermal::propagator_t_landau(om, p, m, b, f0), qcd_sme::C { re: a.r(4), im: 0.1 }, 1e-3)) } },
    Op { name: "util::root_of_root", kinds: "rr", args: "s,f0", ret: 'R', f: |a| { let f0 = a.r(1); let s = a.r(0); let g = |y: f64| find_root(&|x: f64| gluon::dressing_inv_landau(x, f0) - y, (s, s + 0.1), 1e-8, 8).map_or(-77., |x| x.0); V::R(find_root(&|y: f64| g(y) - 1., (0.3, 0.4), 1e-6, 5).map_or(-78., |x| x.0)) } },
];
