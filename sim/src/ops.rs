// Generated by gen_ops.py from the signatures in /repo/qcd-sme/src.
use crate::{Op, V};

#[rustfmt::skip]
pub static OPS: &[Op] = &[
    Op { name: "common::energy_squared#r", kinds: "rr", args: "p,m", ret: 'R', f: |a| V::R(qcd_sme::common::energy_squared(a.r(0), a.r(1))) },
    Op { name: "common::energy_squared#c", kinds: "rc", args: "p,m", ret: 'C', f: |a| V::C(qcd_sme::common::energy_squared(a.r(0), a.c(1))) },
    Op { name: "common::energy_squared#p", kinds: "rp", args: "p,m", ret: 'P', f: |a| V::P(qcd_sme::common::energy_squared(a.r(0), a.p(1))) },
    Op { name: "common::energy#r", kinds: "rr", args: "p,m", ret: 'R', f: |a| V::R(qcd_sme::common::energy(a.r(0), a.r(1))) },
    Op { name: "common::energy#c", kinds: "rc", args: "p,m", ret: 'C', f: |a| V::C(qcd_sme::common::energy(a.r(0), a.c(1))) },
    Op { name: "common::energy#p", kinds: "rp", args: "p,m", ret: 'P', f: |a| V::P(qcd_sme::common::energy(a.r(0), a.p(1))) },
    Op { name: "ffi::energy_squared", kinds: "rr", args: "p,m", ret: 'R', f: |a| V::R(qcd_sme::ffi::energy_squared(a.r(0), a.r(1))) },
    Op { name: "ffi::energy", kinds: "rr", args: "p,m", ret: 'R', f: |a| V::R(qcd_sme::ffi::energy(a.r(0), a.r(1))) },
    Op { name: "common::thermal::fermi_momentum", kinds: "rr", args: "m,mu", ret: 'R', f: |a| V::R(qcd_sme::common::thermal::fermi_momentum(a.r(0), a.r(1))) },
    Op { name: "common::thermal::fermi_distribution#rr", kinds: "rrr", args: "en,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::common::thermal::fermi_distribution(a.r(0), a.r(1), a.r(2))) },
    Op { name: "common::thermal::fermi_distribution#cc", kinds: "crc", args: "en,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::fermi_distribution(a.c(0), a.r(2), a.c(3))) },
    Op { name: "common::thermal::fermi_distribution#cr", kinds: "crr", args: "en,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::fermi_distribution(a.c(0), a.r(2), a.r(3))) },
    Op { name: "common::thermal::fermi_distribution#pp", kinds: "prp", args: "en,beta,mu", ret: 'P', f: |a| V::P(qcd_sme::common::thermal::fermi_distribution(a.p(0), a.r(1), a.p(2))) },
    Op { name: "common::thermal::fermi_distribution_zero_temp#rr", kinds: "rr", args: "en,mu", ret: 'R', f: |a| V::R(qcd_sme::common::thermal::fermi_distribution_zero_temp(a.r(0), a.r(1))) },
    Op { name: "common::thermal::fermi_distribution_zero_temp#cc", kinds: "cc", args: "en,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::fermi_distribution_zero_temp(a.c(0), a.c(2))) },
    Op { name: "common::thermal::fermi_distribution_zero_temp#cr", kinds: "cr", args: "en,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::fermi_distribution_zero_temp(a.c(0), a.r(2))) },
    Op { name: "common::thermal::fermi_distribution_zero_temp#pp", kinds: "pp", args: "en,mu", ret: 'P', f: |a| V::P(qcd_sme::common::thermal::fermi_distribution_zero_temp(a.p(0), a.p(1))) },
    Op { name: "common::thermal::fermi_distribution_double#rr", kinds: "rrr", args: "en,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::common::thermal::fermi_distribution_double(a.r(0), a.r(1), a.r(2))) },
    Op { name: "common::thermal::fermi_distribution_double#cc", kinds: "crc", args: "en,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::fermi_distribution_double(a.c(0), a.r(2), a.c(3))) },
    Op { name: "common::thermal::fermi_distribution_double#cr", kinds: "crr", args: "en,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::fermi_distribution_double(a.c(0), a.r(2), a.r(3))) },
    Op { name: "common::thermal::fermi_distribution_double#pp", kinds: "prp", args: "en,beta,mu", ret: 'P', f: |a| V::P(qcd_sme::common::thermal::fermi_distribution_double(a.p(0), a.r(1), a.p(2))) },
    Op { name: "common::thermal::fermi_distribution_double_zero_temp#rr", kinds: "rr", args: "en,mu", ret: 'R', f: |a| V::R(qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a.r(0), a.r(1))) },
    Op { name: "common::thermal::fermi_distribution_double_zero_temp#cc", kinds: "cc", args: "en,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a.c(0), a.c(2))) },
    Op { name: "common::thermal::fermi_distribution_double_zero_temp#cr", kinds: "cr", args: "en,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a.c(0), a.r(2))) },
    Op { name: "common::thermal::fermi_distribution_double_zero_temp#pp", kinds: "pp", args: "en,mu", ret: 'P', f: |a| V::P(qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a.p(0), a.p(1))) },
    Op { name: "common::thermal::fermi_distribution_zero_chempot#r", kinds: "rr", args: "en,beta", ret: 'R', f: |a| V::R(qcd_sme::common::thermal::fermi_distribution_zero_chempot(a.r(0), a.r(1))) },
    Op { name: "common::thermal::fermi_distribution_zero_chempot#c", kinds: "cr", args: "en,beta", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::fermi_distribution_zero_chempot(a.c(0), a.r(2))) },
    Op { name: "common::thermal::fermi_distribution_zero_chempot#p", kinds: "pr", args: "en,beta", ret: 'P', f: |a| V::P(qcd_sme::common::thermal::fermi_distribution_zero_chempot(a.p(0), a.r(1))) },
    Op { name: "common::thermal::bose_distribution#rr", kinds: "rrr", args: "en,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::common::thermal::bose_distribution(a.r(0), a.r(1), a.r(2))) },
    Op { name: "common::thermal::bose_distribution#cc", kinds: "crc", args: "en,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::bose_distribution(a.c(0), a.r(2), a.c(3))) },
    Op { name: "common::thermal::bose_distribution#cr", kinds: "crr", args: "en,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::bose_distribution(a.c(0), a.r(2), a.r(3))) },
    Op { name: "common::thermal::bose_distribution#pp", kinds: "prp", args: "en,beta,mu", ret: 'P', f: |a| V::P(qcd_sme::common::thermal::bose_distribution(a.p(0), a.r(1), a.p(2))) },
    Op { name: "common::thermal::bose_distribution_zero_chempot#r", kinds: "rr", args: "en,beta", ret: 'R', f: |a| V::R(qcd_sme::common::thermal::bose_distribution_zero_chempot(a.r(0), a.r(1))) },
    Op { name: "common::thermal::bose_distribution_zero_chempot#c", kinds: "cr", args: "en,beta", ret: 'C', f: |a| V::C(qcd_sme::common::thermal::bose_distribution_zero_chempot(a.c(0), a.r(2))) },
    Op { name: "common::thermal::bose_distribution_zero_chempot#p", kinds: "pr", args: "en,beta", ret: 'P', f: |a| V::P(qcd_sme::common::thermal::bose_distribution_zero_chempot(a.p(0), a.r(1))) },
    Op { name: "ffi::fermi_momentum", kinds: "rr", args: "m,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::fermi_momentum(a.r(0), a.r(1))) },
    Op { name: "ffi::fermi_distribution", kinds: "rrr", args: "en,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::fermi_distribution(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::fermi_distribution_zero_temp", kinds: "rr", args: "en,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::fermi_distribution_zero_temp(a.r(0), a.r(1))) },
    Op { name: "ffi::fermi_distribution_double", kinds: "rrr", args: "en,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::fermi_distribution_double(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::fermi_distribution_double_zero_temp", kinds: "rr", args: "en,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::fermi_distribution_double_zero_temp(a.r(0), a.r(1))) },
    Op { name: "ffi::fermi_distribution_zero_chempot", kinds: "rr", args: "en,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::fermi_distribution_zero_chempot(a.r(0), a.r(1))) },
    Op { name: "ffi::bose_distribution", kinds: "rrr", args: "en,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::bose_distribution(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::bose_distribution_zero_chempot", kinds: "rr", args: "en,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::bose_distribution_zero_chempot(a.r(0), a.r(1))) },
    Op { name: "low_level::common::statistic_distribution_exponential#rr", kinds: "rrr", args: "en,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::common::statistic_distribution_exponential(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::common::statistic_distribution_exponential#cc", kinds: "crc", args: "en,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::common::statistic_distribution_exponential(a.c(0), a.r(2), a.c(3))) },
    Op { name: "low_level::common::statistic_distribution_exponential#cr", kinds: "crr", args: "en,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::common::statistic_distribution_exponential(a.c(0), a.r(2), a.r(3))) },
    Op { name: "low_level::common::statistic_distribution_exponential#pp", kinds: "prp", args: "en,beta,mu", ret: 'P', f: |a| V::P(qcd_sme::low_level::common::statistic_distribution_exponential(a.p(0), a.r(1), a.p(2))) },
    Op { name: "low_level::common::statistic_distribution_exponential_zero_chempot#r", kinds: "rr", args: "en,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(a.r(0), a.r(1))) },
    Op { name: "low_level::common::statistic_distribution_exponential_zero_chempot#c", kinds: "cr", args: "en,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(a.c(0), a.r(2))) },
    Op { name: "low_level::common::statistic_distribution_exponential_zero_chempot#p", kinds: "pr", args: "en,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(a.p(0), a.r(1))) },
    Op { name: "ffi::statistic_distribution_exponential", kinds: "rrr", args: "en,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::statistic_distribution_exponential(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::statistic_distribution_exponential_zero_chempot", kinds: "rr", args: "en,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::statistic_distribution_exponential_zero_chempot(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::ghost::g_sep#r", kinds: "rrr", args: "s,ln_s,ln_s_pl_1", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::ghost::g_sep(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::ghost::g_sep#c", kinds: "ccc", args: "s,ln_s,ln_s_pl_1", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::ghost::g_sep(a.c(0), a.c(2), a.c(4))) },
    Op { name: "low_level::oneloop::ghost::g_sep#p", kinds: "ppp", args: "s,ln_s,ln_s_pl_1", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::ghost::g_sep(a.p(0), a.p(1), a.p(2))) },
    Op { name: "low_level::oneloop::ghost::g#r", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::ghost::g(a.r(0))) },
    Op { name: "low_level::oneloop::ghost::g#c", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::ghost::g(a.c(0))) },
    Op { name: "low_level::oneloop::ghost::g#p", kinds: "p", args: "s", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::ghost::g(a.p(0))) },
    Op { name: "low_level::oneloop::ghost::g_xi_sep#r", kinds: "r", args: "ln_s", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::ghost::g_xi_sep(a.r(0))) },
    Op { name: "low_level::oneloop::ghost::g_xi_sep#c", kinds: "c", args: "ln_s", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::ghost::g_xi_sep(a.c(0))) },
    Op { name: "low_level::oneloop::ghost::g_xi_sep#p", kinds: "p", args: "ln_s", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::ghost::g_xi_sep(a.p(0))) },
    Op { name: "low_level::oneloop::ghost::g_xi#r", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::ghost::g_xi(a.r(0))) },
    Op { name: "low_level::oneloop::ghost::g_xi#c", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::ghost::g_xi(a.c(0))) },
    Op { name: "low_level::oneloop::ghost::g_xi#p", kinds: "p", args: "s", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::ghost::g_xi(a.p(0))) },
    Op { name: "low_level::oneloop::ghost::dressing_inv_landau_sep#r", kinds: "rrrr", args: "s,ln_s,ln_s_pl_1,g0", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::ghost::dressing_inv_landau_sep#c", kinds: "cccr", args: "s,ln_s,ln_s_pl_1,g0", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(a.c(0), a.c(2), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::ghost::dressing_inv_landau_sep#p", kinds: "pppr", args: "s,ln_s,ln_s_pl_1,g0", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(a.p(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::ghost::dressing_inv_sep#r", kinds: "rrrrr", args: "s,ln_s,ln_s_pl_1,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::ghost::dressing_inv_sep#c", kinds: "cccrr", args: "s,ln_s,ln_s_pl_1,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(a.c(0), a.c(2), a.c(4), a.r(6), a.r(7))) },
    Op { name: "low_level::oneloop::ghost::dressing_inv_sep#p", kinds: "ppprr", args: "s,ln_s,ln_s_pl_1,g0,xi", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(a.p(0), a.p(1), a.p(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__ghost__g_sep", kinds: "rrr", args: "s,ln_s,ln_s_pl_1", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__ghost__g_sep(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__ghost__g", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__ghost__g(a.r(0))) },
    Op { name: "ffi::oneloop__ghost__g_sep__complex", kinds: "ccc", args: "s,ln_s,ln_s_pl_1", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__ghost__g_sep__complex(a.c(0), a.c(2), a.c(4))) },
    Op { name: "ffi::oneloop__ghost__g__complex", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__ghost__g__complex(a.c(0))) },
    Op { name: "ffi::oneloop__ghost__g_xi_sep", kinds: "r", args: "ln_s", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__ghost__g_xi_sep(a.r(0))) },
    Op { name: "ffi::oneloop__ghost__g_xi", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__ghost__g_xi(a.r(0))) },
    Op { name: "ffi::oneloop__ghost__g_xi_sep__complex", kinds: "c", args: "ln_s", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__ghost__g_xi_sep__complex(a.c(0))) },
    Op { name: "ffi::oneloop__ghost__g_xi__complex", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__ghost__g_xi__complex(a.c(0))) },
    Op { name: "ffi::ym__oneloop__ghost__dressing_inv_landau_sep", kinds: "rrrr", args: "s,ln_s,ln_s_pl_1,g0", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_landau_sep(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::ym__oneloop__ghost__dressing_inv_landau_sep__complex", kinds: "cccr", args: "s,ln_s,ln_s_pl_1,g0", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_landau_sep__complex(a.c(0), a.c(2), a.c(4), a.r(6))) },
    Op { name: "ffi::ym__oneloop__ghost__dressing_inv_sep", kinds: "rrrrr", args: "s,ln_s,ln_s_pl_1,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_sep(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::ym__oneloop__ghost__dressing_inv_sep__complex", kinds: "cccrr", args: "s,ln_s,ln_s_pl_1,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_sep__complex(a.c(0), a.c(2), a.c(4), a.r(6), a.r(7))) },
    Op { name: "low_level::oneloop::gluon::f_sep#r", kinds: "rrr", args: "s,ln_s,ln_s_pl_1", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::gluon::f_sep(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::gluon::f_sep#c", kinds: "ccc", args: "s,ln_s,ln_s_pl_1", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::gluon::f_sep(a.c(0), a.c(2), a.c(4))) },
    Op { name: "low_level::oneloop::gluon::f_sep#p", kinds: "ppp", args: "s,ln_s,ln_s_pl_1", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::gluon::f_sep(a.p(0), a.p(1), a.p(2))) },
    Op { name: "low_level::oneloop::gluon::f#r", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::gluon::f(a.r(0))) },
    Op { name: "low_level::oneloop::gluon::f#c", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::gluon::f(a.c(0))) },
    Op { name: "low_level::oneloop::gluon::f#p", kinds: "p", args: "s", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::gluon::f(a.p(0))) },
    Op { name: "low_level::oneloop::gluon::f_xi_sep#r", kinds: "rrr", args: "s,ln_s,ln_s_pl_1", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::gluon::f_xi_sep(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::gluon::f_xi_sep#c", kinds: "ccc", args: "s,ln_s,ln_s_pl_1", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::gluon::f_xi_sep(a.c(0), a.c(2), a.c(4))) },
    Op { name: "low_level::oneloop::gluon::f_xi_sep#p", kinds: "ppp", args: "s,ln_s,ln_s_pl_1", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::gluon::f_xi_sep(a.p(0), a.p(1), a.p(2))) },
    Op { name: "low_level::oneloop::gluon::f_xi#r", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::gluon::f_xi(a.r(0))) },
    Op { name: "low_level::oneloop::gluon::f_xi#c", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::gluon::f_xi(a.c(0))) },
    Op { name: "low_level::oneloop::gluon::f_xi#p", kinds: "p", args: "s", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::gluon::f_xi(a.p(0))) },
    Op { name: "low_level::oneloop::gluon::f_q#r", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::gluon::f_q(a.r(0))) },
    Op { name: "low_level::oneloop::gluon::f_q#c", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::gluon::f_q(a.c(0))) },
    Op { name: "low_level::oneloop::gluon::f_q#p", kinds: "p", args: "s", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::gluon::f_q(a.p(0))) },
    Op { name: "low_level::oneloop::gluon::f_q_crossed#r", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::gluon::f_q_crossed(a.r(0))) },
    Op { name: "low_level::oneloop::gluon::f_q_crossed#c", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::gluon::f_q_crossed(a.c(0))) },
    Op { name: "low_level::oneloop::gluon::f_q_crossed#p", kinds: "p", args: "s", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::gluon::f_q_crossed(a.p(0))) },
    Op { name: "low_level::oneloop::gluon::ym_dressing_inv_landau_sep#r", kinds: "rrrr", args: "s,ln_s,ln_s_pl_1,f0", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::gluon::ym_dressing_inv_landau_sep#c", kinds: "cccr", args: "s,ln_s,ln_s_pl_1,f0", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(a.c(0), a.c(2), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::gluon::ym_dressing_inv_landau_sep#p", kinds: "pppr", args: "s,ln_s,ln_s_pl_1,f0", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(a.p(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::gluon::ym_dressing_inv_sep#r", kinds: "rrrrr", args: "s,ln_s,ln_s_pl_1,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::gluon::ym_dressing_inv_sep#c", kinds: "cccrr", args: "s,ln_s,ln_s_pl_1,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(a.c(0), a.c(2), a.c(4), a.r(6), a.r(7))) },
    Op { name: "low_level::oneloop::gluon::ym_dressing_inv_sep#p", kinds: "ppprr", args: "s,ln_s,ln_s_pl_1,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(a.p(0), a.p(1), a.p(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__gluon__f_sep", kinds: "rrr", args: "s,ln_s,ln_s_pl_1", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__gluon__f_sep(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__gluon__f", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__gluon__f(a.r(0))) },
    Op { name: "ffi::oneloop__gluon__f_sep__complex", kinds: "ccc", args: "s,ln_s,ln_s_pl_1", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__f_sep__complex(a.c(0), a.c(2), a.c(4))) },
    Op { name: "ffi::oneloop__gluon__f__complex", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__f__complex(a.c(0))) },
    Op { name: "ffi::oneloop__gluon__f_xi_sep", kinds: "rrr", args: "s,ln_s,ln_s_pl_1", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__gluon__f_xi_sep(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__gluon__f_xi", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__gluon__f_xi(a.r(0))) },
    Op { name: "ffi::oneloop__gluon__f_xi_sep__complex", kinds: "ccc", args: "s,ln_s,ln_s_pl_1", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__f_xi_sep__complex(a.c(0), a.c(2), a.c(4))) },
    Op { name: "ffi::oneloop__gluon__f_xi__complex", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__f_xi__complex(a.c(0))) },
    Op { name: "ffi::oneloop__gluon__f_q", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__gluon__f_q(a.r(0))) },
    Op { name: "ffi::oneloop__gluon__f_q__complex", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__f_q__complex(a.c(0))) },
    Op { name: "ffi::oneloop__gluon__f_q_crossed", kinds: "r", args: "s", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__gluon__f_q_crossed(a.r(0))) },
    Op { name: "ffi::oneloop__gluon__f_q_crossed__complex", kinds: "c", args: "s", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__f_q_crossed__complex(a.c(0))) },
    Op { name: "ffi::ym__oneloop__gluon__dressing_inv_landau_sep", kinds: "rrrr", args: "s,ln_s,ln_s_pl_1,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_landau_sep(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::ym__oneloop__gluon__dressing_inv_landau_sep__complex", kinds: "cccr", args: "s,ln_s,ln_s_pl_1,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_landau_sep__complex(a.c(0), a.c(2), a.c(4), a.r(6))) },
    Op { name: "ffi::ym__oneloop__gluon__dressing_inv_sep", kinds: "rrrrr", args: "s,ln_s,ln_s_pl_1,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_sep(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::ym__oneloop__gluon__dressing_inv_sep__complex", kinds: "cccrr", args: "s,ln_s,ln_s_pl_1,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_sep__complex(a.c(0), a.c(2), a.c(4), a.r(6), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i#r", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i#c", kinds: "rcrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i#p", kinds: "rprrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method#r", kinds: "rrrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method#c", kinds: "crrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method#p", kinds: "prrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(a.p(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau#r", kinds: "rrrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau#c", kinds: "crrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau#p", kinds: "prrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__ghost__self_energy_thermal_part_landau_i", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__ghost__self_energy_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_w_method", kinds: "rrri", args: "p,m,beta,integral", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau", kinds: "rrr", args: "p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i#r", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i#c", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i#p", kinds: "rprr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method#r", kinds: "rrri", args: "om,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method#c", kinds: "crri", args: "om,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method#p", kinds: "prri", args: "om,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(a.p(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau#r", kinds: "rrr", args: "om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau#c", kinds: "crr", args: "om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau#p", kinds: "prr", args: "om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i#r", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i#c", kinds: "rcrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i#p", kinds: "rprrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i#r", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i#c", kinds: "rcrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i#p", kinds: "rprrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i#r", kinds: "rrrrrr", args: "q,om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i#c", kinds: "rcrrrr", args: "q,om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i#p", kinds: "rprrrr", args: "q,om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i#r", kinds: "rrrrrr", args: "q,om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i#c", kinds: "rcrrrr", args: "q,om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i#p", kinds: "rprrrr", args: "q,om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i#r", kinds: "rrrrr", args: "q,om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i#c", kinds: "rcrrr", args: "q,om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i#p", kinds: "rprrr", args: "q,om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.p(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i#r", kinds: "rrrrr", args: "q,om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i#c", kinds: "rcrrr", args: "q,om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i#p", kinds: "rprrr", args: "q,om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.p(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method#rr", kinds: "rrrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method#cc", kinds: "ccrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a.c(0), a.c(2), a.r(4), a.r(5), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method#cr", kinds: "crrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method#pp", kinds: "pprri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a.p(0), a.p(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method#rc", kinds: "rcrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a.r(0), a.c(1), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method#r", kinds: "rrrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method#c", kinds: "crrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method#p", kinds: "prrri", args: "om,p,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(a.p(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method#rr", kinds: "rrrrri", args: "om,p,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method#cc", kinds: "ccrrri", args: "om,p,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a.c(0), a.c(2), a.r(4), a.r(5), a.r(6), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method#cr", kinds: "crrrri", args: "om,p,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method#pp", kinds: "pprrri", args: "om,p,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a.p(0), a.p(1), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method#rc", kinds: "rcrrri", args: "om,p,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method#r", kinds: "rrrrri", args: "om,p,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method#c", kinds: "crrrri", args: "om,p,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method#p", kinds: "prrrri", args: "om,p,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method#rr", kinds: "rrrri", args: "om,p,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method#cc", kinds: "ccrri", args: "om,p,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.c(0), a.c(2), a.r(4), a.r(5), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method#cr", kinds: "crrri", args: "om,p,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.c(0), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method#pp", kinds: "pprri", args: "om,p,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.p(0), a.p(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method#rc", kinds: "rcrri", args: "om,p,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.r(0), a.c(1), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method#r", kinds: "rrrri", args: "om,p,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method#c", kinds: "crrri", args: "om,p,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.c(0), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method#p", kinds: "prrri", args: "om,p,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.p(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau#rr", kinds: "rrrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau#cc", kinds: "ccrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a.c(0), a.c(2), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau#cr", kinds: "crrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau#pp", kinds: "pprr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a.p(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau#rc", kinds: "rcrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau#r", kinds: "rrrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau#c", kinds: "crrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau#p", kinds: "prrr", args: "om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau#rr", kinds: "rrrrr", args: "om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau#cc", kinds: "ccrrr", args: "om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a.c(0), a.c(2), a.r(4), a.r(5), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau#cr", kinds: "crrrr", args: "om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau#pp", kinds: "pprrr", args: "om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a.p(0), a.p(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau#rc", kinds: "rcrrr", args: "om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau#r", kinds: "rrrrr", args: "om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau#c", kinds: "crrrr", args: "om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau#p", kinds: "prrrr", args: "om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau#rr", kinds: "rrrr", args: "om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau#cc", kinds: "ccrr", args: "om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a.c(0), a.c(2), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau#cr", kinds: "crrr", args: "om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau#pp", kinds: "pprr", args: "om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a.p(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau#rc", kinds: "rcrr", args: "om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau#r", kinds: "rrrr", args: "om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau#c", kinds: "crrr", args: "om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau#p", kinds: "prrr", args: "om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__gluon__polarization_glue_l_thermal_part_landau_i", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__polarization_glue_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__gluon__polarization_glue_t_thermal_part_landau_i", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__polarization_glue_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__gluon__polarization_quark_l_thermal_part_landau_i", kinds: "rrrrrr", args: "q,om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__polarization_quark_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ffi::oneloop__gluon__polarization_quark_t_thermal_part_landau_i", kinds: "rrrrrr", args: "q,om,p,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__polarization_quark_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ffi::oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i", kinds: "rrrrr", args: "q,om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i", kinds: "rrrrr", args: "q,om,p,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_i", kinds: "rrrrr", args: "q,p,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_i", kinds: "rrrrr", args: "q,p,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_i", kinds: "rrrr", args: "q,p,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_i", kinds: "rrrr", args: "q,p,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method", kinds: "rrri", args: "p,m,beta,integral", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method", kinds: "rrri", args: "p,m,beta,integral", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method", kinds: "rrrri", args: "p,mq,beta,mu,integral", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method", kinds: "rrrri", args: "p,mq,beta,mu,integral", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_w_method", kinds: "rrri", args: "p,mq,mu,integral", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_w_method", kinds: "rrri", args: "p,mq,mu,integral", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau", kinds: "rrr", args: "p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau", kinds: "rrr", args: "p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau", kinds: "rrrr", args: "p,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau", kinds: "rrrr", args: "p,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau", kinds: "rrr", args: "p,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau", kinds: "rrr", args: "p,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i", kinds: "rrrrr", args: "q,p,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i", kinds: "rrrrr", args: "q,p,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i", kinds: "rrrr", args: "q,p,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i", kinds: "rrrr", args: "q,p,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i#r", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i#c", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i#p", kinds: "rprr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i#r", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i#c", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i#p", kinds: "rprr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i#r", kinds: "rrrrr", args: "q,om,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i#c", kinds: "rcrrr", args: "q,om,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i#p", kinds: "rprrr", args: "q,om,mq,beta,mu", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i#r", kinds: "rrrrr", args: "q,om,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i#c", kinds: "rcrrr", args: "q,om,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i#p", kinds: "rprrr", args: "q,om,mq,beta,mu", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a.r(0), a.p(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i#r", kinds: "rrrr", args: "q,om,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i#c", kinds: "rcrr", args: "q,om,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i#p", kinds: "rprr", args: "q,om,mq,mu", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i#r", kinds: "rrrr", args: "q,om,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i#c", kinds: "rcrr", args: "q,om,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i#p", kinds: "rprr", args: "q,om,mq,mu", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method#r", kinds: "rrri", args: "om,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method#c", kinds: "crri", args: "om,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method#p", kinds: "prri", args: "om,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(a.p(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method#r", kinds: "rrri", args: "om,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method#c", kinds: "crri", args: "om,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method#p", kinds: "prri", args: "om,m,beta,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(a.p(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method#r", kinds: "rrrri", args: "om,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method#c", kinds: "crrri", args: "om,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method#p", kinds: "prrri", args: "om,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(a.p(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method#r", kinds: "rrrri", args: "om,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(a.r(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method#c", kinds: "crrri", args: "om,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(a.c(0), a.r(2), a.r(3), a.r(4), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method#p", kinds: "prrri", args: "om,mq,beta,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(a.p(0), a.r(1), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method#r", kinds: "rrri", args: "om,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method#c", kinds: "crri", args: "om,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.c(0), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method#p", kinds: "prri", args: "om,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.p(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method#r", kinds: "rrri", args: "om,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method#c", kinds: "crri", args: "om,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.c(0), a.r(2), a.r(3), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method#p", kinds: "prri", args: "om,mq,mu,integral", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.p(0), a.r(1), a.r(2), a.i())) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau#r", kinds: "rrr", args: "om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau#c", kinds: "crr", args: "om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau#p", kinds: "prr", args: "om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau#r", kinds: "rrr", args: "om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau#c", kinds: "crr", args: "om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau#p", kinds: "prr", args: "om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau#r", kinds: "rrrr", args: "om,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau#c", kinds: "crrr", args: "om,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau#p", kinds: "prrr", args: "om,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau#r", kinds: "rrrr", args: "om,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau#c", kinds: "crrr", args: "om,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau#p", kinds: "prrr", args: "om,mq,beta,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau#r", kinds: "rrr", args: "om,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau#c", kinds: "crr", args: "om,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau#p", kinds: "prr", args: "om,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau#r", kinds: "rrr", args: "om,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau#c", kinds: "crr", args: "om,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau#p", kinds: "prr", args: "om,mq,mu", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i", kinds: "rrrrr", args: "q,om,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i", kinds: "rrrrr", args: "q,om,mq,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i", kinds: "rrrr", args: "q,om,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i", kinds: "rrrr", args: "q,om,mq,mu", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::tlog#rrr", kinds: "rrrrr", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::tlog#ccc", kinds: "rcrcc", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog(a.r(0), a.c(1), a.r(3), a.c(4), a.c(6))) },
    Op { name: "low_level::oneloop::thermal::tlog#crc", kinds: "rcrrc", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog(a.r(0), a.c(1), a.r(3), a.r(4), a.c(5))) },
    Op { name: "low_level::oneloop::thermal::tlog#rrc", kinds: "rrrrc", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog(a.r(0), a.r(1), a.r(2), a.r(3), a.c(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_same_mass#rrr", kinds: "rrrr", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_same_mass#ccc", kinds: "rccc", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a.r(0), a.c(1), a.c(3), a.c(5))) },
    Op { name: "low_level::oneloop::thermal::tlog_same_mass#crc", kinds: "rcrc", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a.r(0), a.c(1), a.r(3), a.c(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_same_mass#rrc", kinds: "rrrc", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a.r(0), a.r(1), a.r(2), a.c(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_zero_mass#r", kinds: "rrr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::tlog_zero_mass#c", kinds: "rcr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_zero_mass#p", kinds: "rpr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::tlog_l#rrr", kinds: "rrrrr", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_l#ccc", kinds: "rcrcc", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l(a.r(0), a.c(1), a.r(3), a.c(4), a.c(6))) },
    Op { name: "low_level::oneloop::thermal::tlog_l#crc", kinds: "rcrrc", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l(a.r(0), a.c(1), a.r(3), a.r(4), a.c(5))) },
    Op { name: "low_level::oneloop::thermal::tlog_l#rrc", kinds: "rrrrc", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l(a.r(0), a.r(1), a.r(2), a.r(3), a.c(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_l_same_mass#rr", kinds: "rrrr", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_l_same_mass#cc", kinds: "rcrc", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a.r(0), a.c(1), a.r(3), a.c(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_l_same_mass#cr", kinds: "rcrr", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_l_same_mass#pp", kinds: "rprp", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a.r(0), a.p(1), a.r(2), a.p(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_l_same_mass#rc", kinds: "rrrc", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a.r(0), a.r(1), a.r(2), a.c(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_l_zero_mass#r", kinds: "rrr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::tlog_l_zero_mass#c", kinds: "rcr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_l_zero_mass#p", kinds: "rpr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::tlog_t#rrr", kinds: "rrrrr", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_t#ccc", kinds: "rcrcc", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t(a.r(0), a.c(1), a.r(3), a.c(4), a.c(6))) },
    Op { name: "low_level::oneloop::thermal::tlog_t#crc", kinds: "rcrrc", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t(a.r(0), a.c(1), a.r(3), a.r(4), a.c(5))) },
    Op { name: "low_level::oneloop::thermal::tlog_t#rrc", kinds: "rrrrc", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t(a.r(0), a.r(1), a.r(2), a.r(3), a.c(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_t_same_mass#rr", kinds: "rrrr", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_t_same_mass#cc", kinds: "rcrc", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a.r(0), a.c(1), a.r(3), a.c(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_t_same_mass#cr", kinds: "rcrr", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::tlog_t_same_mass#pp", kinds: "rprp", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a.r(0), a.p(1), a.r(2), a.p(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_t_same_mass#rc", kinds: "rrrc", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a.r(0), a.r(1), a.r(2), a.c(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_t_zero_mass#r", kinds: "rrr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::tlog_t_zero_mass#c", kinds: "rcr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::tlog_t_zero_mass#p", kinds: "rpr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::j_m_i#r", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::j_m_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::j_m_i#c", kinds: "rcr", args: "q,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::j_m_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::j_m_i#p", kinds: "rpr", args: "q,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::j_m_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::j_0_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::j_0_i(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::j_m_l_i#r", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::j_m_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::j_m_l_i#c", kinds: "rcr", args: "q,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::j_m_l_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::j_m_l_i#p", kinds: "rpr", args: "q,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::j_m_l_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::j_0_l_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::j_0_l_i(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::j_m_t_i#r", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::j_m_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::j_m_t_i#c", kinds: "rcr", args: "q,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::j_m_t_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::j_m_t_i#p", kinds: "rpr", args: "q,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::j_m_t_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::j_0_t_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::j_0_t_i(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_i#rrr", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_i#ccc", kinds: "rcrccr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i(a.r(0), a.c(1), a.r(3), a.c(4), a.c(6), a.r(8))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_i#crc", kinds: "rcrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i(a.r(0), a.c(1), a.r(3), a.r(4), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_i#rrc", kinds: "rrrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_i_same_mass#rrr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_i_same_mass#ccc", kinds: "rcccr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_i_same_mass#crc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_i_same_mass#rrc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_i#rrr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_i#ccc", kinds: "rcccr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_i#crc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_i#rrc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_i#r", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_i#c", kinds: "rcrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_i#p", kinds: "rprr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_l_i#rrr", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_l_i#ccc", kinds: "rcrccr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a.r(0), a.c(1), a.r(3), a.c(4), a.c(6), a.r(8))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_l_i#crc", kinds: "rcrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a.r(0), a.c(1), a.r(3), a.r(4), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_l_i#rrc", kinds: "rrrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_l_i_same_mass#rrr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_l_i_same_mass#ccc", kinds: "rcccr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_l_i_same_mass#crc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_l_i_same_mass#rrc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_l_i#rrr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_l_i#ccc", kinds: "rcccr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_l_i#crc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_l_i#rrc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_l_i#rr", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_l_i#cc", kinds: "rccr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_l_i#cr", kinds: "rcrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_l_i#pp", kinds: "rppr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_l_i#rc", kinds: "rrcr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_t_i#rrr", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_t_i#ccc", kinds: "rcrccr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a.r(0), a.c(1), a.r(3), a.c(4), a.c(6), a.r(8))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_t_i#crc", kinds: "rcrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a.r(0), a.c(1), a.r(3), a.r(4), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_t_i#rrc", kinds: "rrrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_t_i_same_mass#rr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_t_i_same_mass#cc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_t_i_same_mass#cr", kinds: "rcrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_t_i_same_mass#pp", kinds: "rprpr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a.r(0), a.p(1), a.r(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_m_m_t_i_same_mass#rc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_t_i#rr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_t_i#cc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_t_i#cr", kinds: "rcrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_t_i#pp", kinds: "rprpr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a.r(0), a.p(1), a.r(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_m_0_t_i#rc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_t_i#r", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_t_i#c", kinds: "rcrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::i_0_0_t_i#p", kinds: "rprr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d_j_m_i#r", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d_j_m_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d_j_m_i#c", kinds: "rcr", args: "q,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_j_m_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d_j_m_i#p", kinds: "rpr", args: "q,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::d_j_m_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d_j_0_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d_j_0_i(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::d2_j_m_i#r", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d2_j_m_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d2_j_m_i#c", kinds: "rcr", args: "q,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d2_j_m_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d2_j_m_i#p", kinds: "rpr", args: "q,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::d2_j_m_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d2_j_0_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d2_j_0_i(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::d_j_m_l_i#r", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d_j_m_l_i#c", kinds: "rcr", args: "q,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d_j_m_l_i#p", kinds: "rpr", args: "q,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d_j_0_l_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d_j_0_l_i(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::d2_j_m_l_i#r", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d2_j_m_l_i#c", kinds: "rcr", args: "q,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d2_j_m_l_i#p", kinds: "rpr", args: "q,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d2_j_0_l_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d2_j_0_l_i(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::d_j_m_t_i#r", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d_j_m_t_i#c", kinds: "rcr", args: "q,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d_j_m_t_i#p", kinds: "rpr", args: "q,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d_j_0_t_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d_j_0_t_i(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::d2_j_m_t_i#r", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d2_j_m_t_i#c", kinds: "rcr", args: "q,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d2_j_m_t_i#p", kinds: "rpr", args: "q,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::d2_j_0_t_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::d2_j_0_t_i(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_i#rrr", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_i#ccc", kinds: "rcrccr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a.r(0), a.c(1), a.r(3), a.c(4), a.c(6), a.r(8))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_i#crc", kinds: "rcrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a.r(0), a.c(1), a.r(3), a.r(4), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_i#rrc", kinds: "rrrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_i_same_mass#rrr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_i_same_mass#ccc", kinds: "rcccr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_i_same_mass#crc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_i_same_mass#rrc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_i#rrr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_i#ccc", kinds: "rcccr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_i#crc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_i#rrc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_0_0_i#r", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d_i_0_0_i#c", kinds: "rcrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_0_0_i#p", kinds: "rprr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_l_i#rrr", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_l_i#ccc", kinds: "rcrccr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a.r(0), a.c(1), a.r(3), a.c(4), a.c(6), a.r(8))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_l_i#crc", kinds: "rcrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a.r(0), a.c(1), a.r(3), a.r(4), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_l_i#rrc", kinds: "rrrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_l_i_same_mass#rrr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_l_i_same_mass#ccc", kinds: "rcccr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_l_i_same_mass#crc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_l_i_same_mass#rrc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_l_i#rrr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_l_i#ccc", kinds: "rcccr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_l_i#crc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_l_i#rrc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_0_0_l_i#r", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d_i_0_0_l_i#c", kinds: "rcrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_0_0_l_i#p", kinds: "rprr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_t_i#rrr", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_t_i#ccc", kinds: "rcrccr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a.r(0), a.c(1), a.r(3), a.c(4), a.c(6), a.r(8))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_t_i#crc", kinds: "rcrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a.r(0), a.c(1), a.r(3), a.r(4), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_t_i#rrc", kinds: "rrrrcr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_t_i_same_mass#rr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_t_i_same_mass#cc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_t_i_same_mass#cr", kinds: "rcrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_t_i_same_mass#pp", kinds: "rprpr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a.r(0), a.p(1), a.r(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_m_t_i_same_mass#rc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_t_0_i#rr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_t_0_i#cc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_t_0_i#cr", kinds: "rcrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_t_0_i#pp", kinds: "rprpr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a.r(0), a.p(1), a.r(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_t_0_i#rc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_t_i#rr", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_t_i#cc", kinds: "rcrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_t_i#cr", kinds: "rcrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_t_i#pp", kinds: "rprpr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a.r(0), a.p(1), a.r(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_m_0_t_i#rc", kinds: "rrrcr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::d_i_0_0_t_i#r", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::d_i_0_0_t_i#c", kinds: "rcrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::d_i_0_0_t_i#p", kinds: "rprr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(a.r(0), a.p(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__tlog", kinds: "rrrrr", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__tlog(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__tlog_same_mass", kinds: "rrrr", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__tlog_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__tlog_zero_mass", kinds: "rrr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__tlog_zero_mass(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__tlog_l", kinds: "rrrrr", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__tlog_l(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__tlog_l_same_mass", kinds: "rrrr", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__tlog_l_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__tlog_l_zero_mass", kinds: "rrr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__tlog_l_zero_mass(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__tlog_t", kinds: "rrrrr", args: "q,om,p,en,delta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__tlog_t(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__tlog_t_same_mass", kinds: "rrrr", args: "q,om,p,en", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__tlog_t_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__tlog_t_zero_mass", kinds: "rrr", args: "q,om,p", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__tlog_t_zero_mass(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__j_m_i", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__j_m_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__j_0_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__j_0_i(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__j_m_l_i", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__j_m_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__j_0_l_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__j_0_l_i(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__j_m_t_i", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__j_m_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__j_0_t_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__j_0_t_i(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__i_m_m_i", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ffi::oneloop__i_m_m_i_same_mass", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__i_m_0_i", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__i_0_0_i", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_0_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__i_m_m_l_i", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ffi::oneloop__i_m_m_l_i_same_mass", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__i_m_0_l_i", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__i_0_0_l_i", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_0_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__i_m_m_t_i", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ffi::oneloop__i_m_m_t_i_same_mass", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__i_m_0_t_i", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__i_0_0_t_i", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__i_0_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__d_j_m_i", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d_j_m_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__d_j_0_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d_j_0_i(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__d2_j_m_i", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d2_j_m_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__d2_j_0_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d2_j_0_i(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__d_j_m_l_i", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d_j_m_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__d_j_0_l_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d_j_0_l_i(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__d2_j_m_l_i", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d2_j_m_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__d2_j_0_l_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d2_j_0_l_i(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__d_j_m_t_i", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d_j_m_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__d_j_0_t_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d_j_0_t_i(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__d2_j_m_t_i", kinds: "rrr", args: "q,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d2_j_m_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__d2_j_0_t_i", kinds: "rr", args: "q,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__d2_j_0_t_i(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__d_i_m_m_i", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ffi::oneloop__d_i_m_m_i_same_mass", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__d_i_m_0_i", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__d_i_0_0_i", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_0_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__d_i_m_m_l_i", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ffi::oneloop__d_i_m_m_l_i_same_mass", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__d_i_m_0_l_i", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__d_i_0_0_l_i", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_0_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__d_i_m_m_t_i", kinds: "rrrrrr", args: "q,om,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ffi::oneloop__d_i_m_m_t_i_same_mass", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__d_i_m_0_t_i", kinds: "rrrrr", args: "q,om,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__d_i_0_0_t_i", kinds: "rrrr", args: "q,om,p,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__d_i_0_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog#r", kinds: "rrr", args: "q,p,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog#c", kinds: "rrc", args: "q,p,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(a.r(0), a.r(1), a.c(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog#p", kinds: "rrp", args: "q,p,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(a.r(0), a.r(1), a.p(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog_same_mass", kinds: "rr", args: "q,p", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_same_mass(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass", kinds: "rr", args: "q,p", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog_t#r", kinds: "rrr", args: "q,p,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog_t#c", kinds: "rrc", args: "q,p,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(a.r(0), a.r(1), a.c(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog_t#p", kinds: "rrp", args: "q,p,delta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(a.r(0), a.r(1), a.p(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog_t_same_mass", kinds: "rr", args: "q,p", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_same_mass(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::tlog_t_zero_mass", kinds: "rr", args: "q,p", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_zero_mass(a.r(0), a.r(1))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_i#rr", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_i#cc", kinds: "rrccr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a.r(0), a.r(1), a.c(2), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_i#cr", kinds: "rrcrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a.r(0), a.r(1), a.c(2), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_i#pp", kinds: "rrppr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a.r(0), a.r(1), a.p(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_i#rc", kinds: "rrrcr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_0_i#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_0_i#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_0_i#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_0_0_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i#rr", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i#cc", kinds: "rrccr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a.r(0), a.r(1), a.c(2), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i#cr", kinds: "rrcrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a.r(0), a.r(1), a.c(2), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i#pp", kinds: "rrppr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a.r(0), a.r(1), a.p(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i#rc", kinds: "rrrcr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_0_0_l_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i#rr", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i#cc", kinds: "rrccr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a.r(0), a.r(1), a.c(2), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i#cr", kinds: "rrcrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a.r(0), a.r(1), a.c(2), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i#pp", kinds: "rrppr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a.r(0), a.r(1), a.p(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i#rc", kinds: "rrrcr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::i_0_0_t_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i#rr", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i#cc", kinds: "rrccr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a.r(0), a.r(1), a.c(2), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i#cr", kinds: "rrcrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a.r(0), a.r(1), a.c(2), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i#pp", kinds: "rrppr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a.r(0), a.r(1), a.p(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i#rc", kinds: "rrrcr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_0_0_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i#rr", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i#cc", kinds: "rrccr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a.r(0), a.r(1), a.c(2), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i#cr", kinds: "rrcrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a.r(0), a.r(1), a.c(2), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i#pp", kinds: "rrppr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a.r(0), a.r(1), a.p(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i#rc", kinds: "rrrcr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_0_0_l_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i#rr", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i#cc", kinds: "rrccr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a.r(0), a.r(1), a.c(2), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i#cr", kinds: "rrcrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a.r(0), a.r(1), a.c(2), a.r(4), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i#pp", kinds: "rrppr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a.r(0), a.r(1), a.p(2), a.p(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i#rc", kinds: "rrrcr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'P', f: |a| V::P(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i#r", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i#c", kinds: "rrcr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i#p", kinds: "rrpr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a.r(0), a.r(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_matsubara::d_i_0_0_t_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__tlog", kinds: "rrr", args: "q,p,delta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__tlog(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__tlog_same_mass", kinds: "rr", args: "q,p", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__tlog_same_mass(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__zero_matsubara__tlog_zero_mass", kinds: "rr", args: "q,p", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__tlog_zero_mass(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__zero_matsubara__tlog_t", kinds: "rrr", args: "q,p,delta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__tlog_t(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__tlog_t_same_mass", kinds: "rr", args: "q,p", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__tlog_t_same_mass(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__zero_matsubara__tlog_t_zero_mass", kinds: "rr", args: "q,p", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__tlog_t_zero_mass(a.r(0), a.r(1))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_m_m_i", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_m_m_i_same_mass", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_m_0_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_0_0_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_m_m_l_i", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_m_m_l_i_same_mass", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_m_0_l_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_0_0_l_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_m_m_t_i", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_m_m_t_i_same_mass", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_m_0_t_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__i_0_0_t_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_m_m_i", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_m_m_i_same_mass", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_m_0_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_0_0_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_m_m_l_i", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_m_m_l_i_same_mass", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_m_0_l_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_0_0_l_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_m_m_t_i", kinds: "rrrrr", args: "q,p,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_m_m_t_i_same_mass", kinds: "rrrr", args: "q,p,m,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_m_0_t_i", kinds: "rrrr", args: "q,p,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_matsubara__d_i_0_0_t_i", kinds: "rrr", args: "q,p,beta", ret: 'R', f: |a| V::R(qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_i#rrr", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_i#ccc", kinds: "rcccr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_i#crc", kinds: "rcrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_i#rrc", kinds: "rrrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_i#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_i#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_i#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_i#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_i#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_0_0_i#r", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_0_0_i#c", kinds: "rcr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_0_0_i#p", kinds: "rpr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_l_i#rrr", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_l_i#ccc", kinds: "rcccr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_l_i#crc", kinds: "rcrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_l_i#rrc", kinds: "rrrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_l_i#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_l_i#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_l_i#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_l_i#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_l_i#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_0_0_l_i#r", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_0_0_l_i#c", kinds: "rcr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_0_0_l_i#p", kinds: "rpr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_t_i#rrr", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_t_i#ccc", kinds: "rcccr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_t_i#crc", kinds: "rcrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_t_i#rrc", kinds: "rrrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_t_i#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_t_i#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_t_i#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_t_i#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_m_0_t_i#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_0_0_t_i#r", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_0_0_t_i#c", kinds: "rcr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::i_0_0_t_i#p", kinds: "rpr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_i#rrr", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_i#ccc", kinds: "rcccr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_i#crc", kinds: "rcrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_i#rrc", kinds: "rrrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_i#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_i#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_i#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_i#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_i#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_0_0_i#r", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_0_0_i#c", kinds: "rcr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_0_0_i#p", kinds: "rpr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i#rrr", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i#ccc", kinds: "rcccr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i#crc", kinds: "rcrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i#rrc", kinds: "rrrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i#r", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i#c", kinds: "rcr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i#p", kinds: "rpr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i#rrr", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i#ccc", kinds: "rcccr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.r(0), a.c(1), a.c(3), a.c(5), a.r(7))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i#crc", kinds: "rcrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.r(0), a.c(1), a.r(3), a.c(4), a.r(6))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i#rrc", kinds: "rrrcr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i#rr", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i#cc", kinds: "rccr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a.r(0), a.c(1), a.c(3), a.r(5))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i#cr", kinds: "rcrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a.r(0), a.c(1), a.r(3), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i#pp", kinds: "rppr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a.r(0), a.p(1), a.p(2), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i#rc", kinds: "rrcr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a.r(0), a.r(1), a.c(2), a.r(4))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i#r", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i#c", kinds: "rcr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a.r(0), a.c(1), a.r(3))) },
    Op { name: "low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i#p", kinds: "rpr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a.r(0), a.p(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_momentum__i_m_m_i", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_momentum__i_m_m_i_same_mass", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__i_m_0_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__i_0_0_i", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_0_0_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_momentum__i_m_m_l_i", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_momentum__i_m_m_l_i_same_mass", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__i_m_0_l_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__i_0_0_l_i", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_0_0_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_momentum__i_m_m_t_i", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_momentum__i_m_m_t_i_same_mass", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__i_m_0_t_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__i_0_0_t_i", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__i_0_0_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_m_m_i", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_m_m_i_same_mass", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_m_0_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_0_0_i", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_m_m_l_i", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_l_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_m_m_l_i_same_mass", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_l_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_m_0_l_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_l_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_0_0_l_i", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_l_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_m_m_t_i", kinds: "rrrrr", args: "q,om,m1,m2,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_t_i(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_m_m_t_i_same_mass", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_t_i_same_mass(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_m_0_t_i", kinds: "rrrr", args: "q,om,m,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_t_i(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::oneloop__zero_momentum__d_i_0_0_t_i", kinds: "rrr", args: "q,om,beta", ret: 'C', f: |a| V::C(qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_t_i(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::qcd__ghost__dressing_inv_landau", kinds: "rr", args: "s,g0", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__ghost__dressing_inv_landau(a.r(0), a.r(1))) },
    Op { name: "ffi::qcd__ghost__dressing_inv_landau__complex", kinds: "cr", args: "s,g0", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__ghost__dressing_inv_landau__complex(a.c(0), a.r(2))) },
    Op { name: "ffi::qcd__ghost__dressing_inv", kinds: "rrr", args: "s,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__ghost__dressing_inv(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::qcd__ghost__dressing_inv__complex", kinds: "crr", args: "s,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__ghost__dressing_inv__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__ghost__dressing_landau", kinds: "rr", args: "s,g0", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__ghost__dressing_landau(a.r(0), a.r(1))) },
    Op { name: "ffi::qcd__ghost__dressing_landau__complex", kinds: "cr", args: "s,g0", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__ghost__dressing_landau__complex(a.c(0), a.r(2))) },
    Op { name: "ffi::qcd__ghost__dressing", kinds: "rrr", args: "s,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__ghost__dressing(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::qcd__ghost__dressing__complex", kinds: "crr", args: "s,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__ghost__dressing__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_inv_landau#r", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_inv_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::dressing_inv_landau#c", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_inv_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_inv_landau#p", kinds: "prr", args: "s,mq,f0", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_inv_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::dressing_inv#r", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_inv(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_inv#c", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_inv(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::gluon::dressing_inv#p", kinds: "prrr", args: "s,mq,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_inv(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_landau#r", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::dressing_landau#c", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_landau#p", kinds: "prr", args: "s,mq,f0", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::dressing#r", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing#c", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::gluon::dressing#p", kinds: "prrr", args: "s,mq,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::propagator_landau#r", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::propagator_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::propagator_landau#c", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::propagator_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::propagator_landau#p", kinds: "prr", args: "s,mq,f0", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::propagator_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::propagator#r", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::propagator(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::propagator#c", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::propagator(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::gluon::propagator#p", kinds: "prrr", args: "s,mq,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::propagator(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_crossed_inv_landau#r", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_crossed_inv_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::dressing_crossed_inv_landau#c", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_crossed_inv_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_crossed_inv_landau#p", kinds: "prr", args: "s,mq,f0", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_crossed_inv_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::dressing_crossed_inv#r", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_crossed_inv(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_crossed_inv#c", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_crossed_inv(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::gluon::dressing_crossed_inv#p", kinds: "prrr", args: "s,mq,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_crossed_inv(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_crossed_landau#r", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_crossed_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::dressing_crossed_landau#c", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_crossed_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_crossed_landau#p", kinds: "prr", args: "s,mq,f0", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_crossed_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::dressing_crossed#r", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_crossed(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_crossed#c", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_crossed(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::gluon::dressing_crossed#p", kinds: "prrr", args: "s,mq,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_crossed(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::propagator_crossed_landau#r", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::propagator_crossed_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::propagator_crossed_landau#c", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::propagator_crossed_landau(a.c(0), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::propagator_crossed_landau#p", kinds: "prr", args: "s,mq,f0", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::propagator_crossed_landau(a.p(0), a.r(1), a.r(2))) },
    Op { name: "qcd::gluon::propagator_crossed#r", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::propagator_crossed(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::propagator_crossed#c", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::propagator_crossed(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::gluon::propagator_crossed#p", kinds: "prrr", args: "s,mq,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::propagator_crossed(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "qcd::gluon::dressing_inv_landau_w_field_config#r", kinds: "rrf", args: "s,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(a.r(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::dressing_inv_landau_w_field_config#c", kinds: "crf", args: "s,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(a.c(0), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_inv_landau_w_field_config#p", kinds: "prf", args: "s,f0,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(a.p(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::dressing_inv_w_field_config#r", kinds: "rrrf", args: "s,f0,xi,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_inv_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_inv_w_field_config#c", kinds: "crrf", args: "s,f0,xi,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_inv_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::gluon::dressing_inv_w_field_config#p", kinds: "prrf", args: "s,f0,xi,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_inv_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_landau_w_field_config#r", kinds: "rrf", args: "s,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_landau_w_field_config(a.r(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::dressing_landau_w_field_config#c", kinds: "crf", args: "s,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_landau_w_field_config(a.c(0), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_landau_w_field_config#p", kinds: "prf", args: "s,f0,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_landau_w_field_config(a.p(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::dressing_w_field_config#r", kinds: "rrrf", args: "s,f0,xi,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_w_field_config#c", kinds: "crrf", args: "s,f0,xi,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::gluon::dressing_w_field_config#p", kinds: "prrf", args: "s,f0,xi,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::propagator_landau_w_field_config#r", kinds: "rrf", args: "s,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::propagator_landau_w_field_config(a.r(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::propagator_landau_w_field_config#c", kinds: "crf", args: "s,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::propagator_landau_w_field_config(a.c(0), a.r(2), a.f())) },
    Op { name: "qcd::gluon::propagator_landau_w_field_config#p", kinds: "prf", args: "s,f0,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::propagator_landau_w_field_config(a.p(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::propagator_w_field_config#r", kinds: "rrrf", args: "s,f0,xi,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::propagator_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::propagator_w_field_config#c", kinds: "crrf", args: "s,f0,xi,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::propagator_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::gluon::propagator_w_field_config#p", kinds: "prrf", args: "s,f0,xi,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::propagator_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_inv_landau_w_field_config#r", kinds: "rrf", args: "s,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(a.r(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_inv_landau_w_field_config#c", kinds: "crf", args: "s,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(a.c(0), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_inv_landau_w_field_config#p", kinds: "prf", args: "s,f0,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(a.p(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_inv_w_field_config#r", kinds: "rrrf", args: "s,f0,xi,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_inv_w_field_config#c", kinds: "crrf", args: "s,f0,xi,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_inv_w_field_config#p", kinds: "prrf", args: "s,f0,xi,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_landau_w_field_config#r", kinds: "rrf", args: "s,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(a.r(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_landau_w_field_config#c", kinds: "crf", args: "s,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(a.c(0), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_landau_w_field_config#p", kinds: "prf", args: "s,f0,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(a.p(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_w_field_config#r", kinds: "rrrf", args: "s,f0,xi,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::dressing_crossed_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_w_field_config#c", kinds: "crrf", args: "s,f0,xi,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::dressing_crossed_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::gluon::dressing_crossed_w_field_config#p", kinds: "prrf", args: "s,f0,xi,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::dressing_crossed_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::propagator_crossed_landau_w_field_config#r", kinds: "rrf", args: "s,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(a.r(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::propagator_crossed_landau_w_field_config#c", kinds: "crf", args: "s,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(a.c(0), a.r(2), a.f())) },
    Op { name: "qcd::gluon::propagator_crossed_landau_w_field_config#p", kinds: "prf", args: "s,f0,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(a.p(0), a.r(1), a.f())) },
    Op { name: "qcd::gluon::propagator_crossed_w_field_config#r", kinds: "rrrf", args: "s,f0,xi,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::gluon::propagator_crossed_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::gluon::propagator_crossed_w_field_config#c", kinds: "crrf", args: "s,f0,xi,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::gluon::propagator_crossed_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::gluon::propagator_crossed_w_field_config#p", kinds: "prrf", args: "s,f0,xi,config", ret: 'P', f: |a| V::P(qcd_sme::qcd::gluon::propagator_crossed_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "ffi::qcd__gluon__dressing_inv_landau", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__dressing_inv_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::qcd__gluon__dressing_inv_landau__complex", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__dressing_inv_landau__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__dressing_inv", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__dressing_inv(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__dressing_inv__complex", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__dressing_inv__complex(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::qcd__gluon__dressing_landau", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__dressing_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::qcd__gluon__dressing_landau__complex", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__dressing_landau__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__dressing", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__dressing(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__dressing__complex", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__dressing__complex(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::qcd__gluon__propagator_landau", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__propagator_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::qcd__gluon__propagator_landau__complex", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__propagator_landau__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__propagator", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__propagator(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__propagator__complex", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__propagator__complex(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::qcd__gluon__dressing_crossed_inv_landau", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__dressing_crossed_inv_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::qcd__gluon__dressing_crossed_inv_landau__complex", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__dressing_crossed_inv_landau__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__dressing_crossed_inv", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__dressing_crossed_inv(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__dressing_crossed_inv__complex", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__dressing_crossed_inv__complex(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::qcd__gluon__dressing_crossed_landau", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__dressing_crossed_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::qcd__gluon__dressing_crossed_landau__complex", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__dressing_crossed_landau__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__dressing_crossed", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__dressing_crossed(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__dressing_crossed__complex", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__dressing_crossed__complex(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ffi::qcd__gluon__propagator_crossed_landau", kinds: "rrr", args: "s,mq,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__propagator_crossed_landau(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::qcd__gluon__propagator_crossed_landau__complex", kinds: "crr", args: "s,mq,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__propagator_crossed_landau__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__propagator_crossed", kinds: "rrrr", args: "s,mq,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::qcd__gluon__propagator_crossed(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ffi::qcd__gluon__propagator_crossed__complex", kinds: "crrr", args: "s,mq,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::qcd__gluon__propagator_crossed__complex(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_landau#r", kinds: "rrrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_landau#c", kinds: "crrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6), a.r(7))) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_landau#p", kinds: "prrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_landau#r", kinds: "rrrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_landau#c", kinds: "crrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6), a.r(7))) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_landau#p", kinds: "prrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_l_landau#r", kinds: "rrrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_l_landau#c", kinds: "crrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6), a.r(7))) },
    Op { name: "qcd::thermal::gluon::dressing_l_landau#p", kinds: "prrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_t_landau#r", kinds: "rrrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_t_landau#c", kinds: "crrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6), a.r(7))) },
    Op { name: "qcd::thermal::gluon::dressing_t_landau#p", kinds: "prrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::propagator_l_landau#r", kinds: "rrrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::propagator_l_landau#c", kinds: "crrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6), a.r(7))) },
    Op { name: "qcd::thermal::gluon::propagator_l_landau#p", kinds: "prrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::propagator_t_landau#r", kinds: "rrrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::propagator_t_landau#c", kinds: "crrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6), a.r(7))) },
    Op { name: "qcd::thermal::gluon::propagator_t_landau#p", kinds: "prrrrrr", args: "om,p,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_zero_temp_landau#r", kinds: "rrrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_zero_temp_landau#c", kinds: "crrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_zero_temp_landau#p", kinds: "prrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_zero_temp_landau#r", kinds: "rrrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_zero_temp_landau#c", kinds: "crrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_zero_temp_landau#p", kinds: "prrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::dressing_l_zero_temp_landau#r", kinds: "rrrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::dressing_l_zero_temp_landau#c", kinds: "crrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_l_zero_temp_landau#p", kinds: "prrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::dressing_t_zero_temp_landau#r", kinds: "rrrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::dressing_t_zero_temp_landau#c", kinds: "crrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::dressing_t_zero_temp_landau#p", kinds: "prrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::propagator_l_zero_temp_landau#r", kinds: "rrrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::propagator_l_zero_temp_landau#c", kinds: "crrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::propagator_l_zero_temp_landau#p", kinds: "prrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::propagator_t_zero_temp_landau#r", kinds: "rrrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::propagator_t_zero_temp_landau#c", kinds: "crrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::gluon::propagator_t_zero_temp_landau#p", kinds: "prrrrr", args: "om,p,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_landau_w_field_config#rr", kinds: "rrrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_landau_w_field_config#cc", kinds: "ccrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a.c(0), a.c(2), a.r(4), a.r(5), a.r(6), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_landau_w_field_config#cr", kinds: "crrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_landau_w_field_config#pp", kinds: "pprrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a.p(0), a.p(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_landau_w_field_config#rc", kinds: "rcrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_landau_w_field_config#r", kinds: "rrrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_landau_w_field_config#c", kinds: "crrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_landau_w_field_config#p", kinds: "prrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_landau_w_field_config#rr", kinds: "rrrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_landau_w_field_config#cc", kinds: "ccrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a.c(0), a.c(2), a.r(4), a.r(5), a.r(6), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_landau_w_field_config#cr", kinds: "crrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_landau_w_field_config#pp", kinds: "pprrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a.p(0), a.p(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_landau_w_field_config#rc", kinds: "rcrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_landau_w_field_config#r", kinds: "rrrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_landau_w_field_config#c", kinds: "crrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_landau_w_field_config#p", kinds: "prrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_landau_w_field_config#rr", kinds: "rrrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_landau_w_field_config#cc", kinds: "ccrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a.c(0), a.c(2), a.r(4), a.r(5), a.r(6), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_landau_w_field_config#cr", kinds: "crrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_landau_w_field_config#pp", kinds: "pprrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a.p(0), a.p(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_landau_w_field_config#rc", kinds: "rcrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a.r(0), a.c(1), a.r(3), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_t_landau_w_field_config#r", kinds: "rrrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_t_landau_w_field_config#c", kinds: "crrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_t_landau_w_field_config#p", kinds: "prrrrf", args: "om,p,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config#rr", kinds: "rrrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config#cc", kinds: "ccrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.c(0), a.c(2), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config#cr", kinds: "crrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config#pp", kinds: "pprrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.p(0), a.p(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config#rc", kinds: "rcrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.r(0), a.c(1), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config#r", kinds: "rrrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config#c", kinds: "crrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config#p", kinds: "prrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config#rr", kinds: "rrrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config#cc", kinds: "ccrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a.c(0), a.c(2), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config#cr", kinds: "crrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config#pp", kinds: "pprrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a.p(0), a.p(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config#rc", kinds: "rcrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a.r(0), a.c(1), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config#r", kinds: "rrrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config#c", kinds: "crrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config#p", kinds: "prrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config#rr", kinds: "rrrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config#cc", kinds: "ccrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a.c(0), a.c(2), a.r(4), a.r(5), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config#cr", kinds: "crrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config#pp", kinds: "pprrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a.p(0), a.p(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config#rc", kinds: "rcrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a.r(0), a.c(1), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config#r", kinds: "rrrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config#c", kinds: "crrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config#p", kinds: "prrrf", args: "om,p,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::quark::charge_density_with_method", kinds: "rrri", args: "m,beta,mu,integral", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::quark::charge_density_with_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "qcd::thermal::quark::charge_density", kinds: "rrr", args: "m,beta,mu", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::quark::charge_density(a.r(0), a.r(1), a.r(2))) },
    Op { name: "qcd::thermal::quark::charge_density_zero_temp", kinds: "rr", args: "m,mu", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::quark::charge_density_zero_temp(a.r(0), a.r(1))) },
    Op { name: "qcd::thermal::quark::chemical_potential_with_method", kinds: "rrri", args: "m,beta,n,integral", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::quark::chemical_potential_with_method(a.r(0), a.r(1), a.r(2), a.i())) },
    Op { name: "qcd::thermal::quark::chemical_potential", kinds: "rrr", args: "m,beta,n", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::quark::chemical_potential(a.r(0), a.r(1), a.r(2))) },
    Op { name: "qcd::thermal::quark::chemical_potential_zero_temp", kinds: "rr", args: "m,n", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::quark::chemical_potential_zero_temp(a.r(0), a.r(1))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau", kinds: "rrrrrr", args: "p,m,mq,beta,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau", kinds: "rrrrrr", args: "p,m,mq,beta,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_l_landau", kinds: "rrrrrr", args: "p,m,mq,beta,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_t_landau", kinds: "rrrrrr", args: "p,m,mq,beta,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::propagator_l_landau", kinds: "rrrrrr", args: "p,m,mq,beta,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::propagator_t_landau", kinds: "rrrrrr", args: "p,m,mq,beta,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau", kinds: "rrrrr", args: "p,m,mq,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau", kinds: "rrrrr", args: "p,m,mq,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau", kinds: "rrrrr", args: "p,m,mq,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau", kinds: "rrrrr", args: "p,m,mq,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau", kinds: "rrrrr", args: "p,m,mq,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau", kinds: "rrrrr", args: "p,m,mq,mu,f0", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config", kinds: "rrrrf", args: "p,beta,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config", kinds: "rrrrf", args: "p,beta,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_l_landau_w_field_config", kinds: "rrrrf", args: "p,beta,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_t_landau_w_field_config", kinds: "rrrrf", args: "p,beta,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::propagator_l_landau_w_field_config", kinds: "rrrrf", args: "p,beta,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::propagator_t_landau_w_field_config", kinds: "rrrrf", args: "p,beta,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config", kinds: "rrrf", args: "p,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config", kinds: "rrrf", args: "p,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau_w_field_config", kinds: "rrrf", args: "p,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau_w_field_config", kinds: "rrrf", args: "p,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau_w_field_config", kinds: "rrrf", args: "p,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau_w_field_config", kinds: "rrrf", args: "p,mu,f0,config", ret: 'R', f: |a| V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau#r", kinds: "rrrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau#c", kinds: "crrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau#p", kinds: "prrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau#r", kinds: "rrrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau#c", kinds: "crrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau#p", kinds: "prrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_landau#r", kinds: "rrrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_landau#c", kinds: "crrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_landau#p", kinds: "prrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_landau#r", kinds: "rrrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_landau#c", kinds: "crrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_landau#p", kinds: "prrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_landau#r", kinds: "rrrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_landau#c", kinds: "crrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_landau#p", kinds: "prrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_landau#r", kinds: "rrrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_landau#c", kinds: "crrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5), a.r(6))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_landau#p", kinds: "prrrrr", args: "om,m,mq,beta,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau#r", kinds: "rrrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau#c", kinds: "crrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau#p", kinds: "prrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau#r", kinds: "rrrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau#c", kinds: "crrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau#p", kinds: "prrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau#r", kinds: "rrrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau#c", kinds: "crrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau#p", kinds: "prrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau#r", kinds: "rrrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau#c", kinds: "crrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau#p", kinds: "prrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau#r", kinds: "rrrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau#c", kinds: "crrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau#p", kinds: "prrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau#r", kinds: "rrrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau#c", kinds: "crrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau#p", kinds: "prrrr", args: "om,m,mq,mu,f0", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config#r", kinds: "rrrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config#c", kinds: "crrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config#p", kinds: "prrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config#r", kinds: "rrrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config#c", kinds: "crrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config#p", kinds: "prrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config#r", kinds: "rrrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config#c", kinds: "crrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config#p", kinds: "prrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config#r", kinds: "rrrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config#c", kinds: "crrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config#p", kinds: "prrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config#r", kinds: "rrrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config#c", kinds: "crrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config#p", kinds: "prrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config#r", kinds: "rrrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config#c", kinds: "crrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.r(4), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config#p", kinds: "prrrf", args: "om,beta,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config#r", kinds: "rrrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config#c", kinds: "crrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config#p", kinds: "prrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config#r", kinds: "rrrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config#c", kinds: "crrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config#p", kinds: "prrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config#r", kinds: "rrrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config#c", kinds: "crrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config#p", kinds: "prrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config#r", kinds: "rrrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config#c", kinds: "crrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config#p", kinds: "prrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config#r", kinds: "rrrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config#c", kinds: "crrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config#p", kinds: "prrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config#r", kinds: "rrrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(a.r(0), a.r(1), a.r(2), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config#c", kinds: "crrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(a.c(0), a.r(2), a.r(3), a.f())) },
    Op { name: "qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config#p", kinds: "prrf", args: "om,mu,f0,config", ret: 'C', f: |a| V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(a.p(0), a.r(1), a.r(2), a.f())) },
    Op { name: "ym::ghost::dressing_inv_landau#r", kinds: "rr", args: "s,g0", ret: 'R', f: |a| V::R(qcd_sme::ym::ghost::dressing_inv_landau(a.r(0), a.r(1))) },
    Op { name: "ym::ghost::dressing_inv_landau#c", kinds: "cr", args: "s,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::ghost::dressing_inv_landau(a.c(0), a.r(2))) },
    Op { name: "ym::ghost::dressing_inv_landau#p", kinds: "pr", args: "s,g0", ret: 'P', f: |a| V::P(qcd_sme::ym::ghost::dressing_inv_landau(a.p(0), a.r(1))) },
    Op { name: "ym::ghost::dressing_inv#r", kinds: "rrr", args: "s,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::ym::ghost::dressing_inv(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ym::ghost::dressing_inv#c", kinds: "crr", args: "s,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::ym::ghost::dressing_inv(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ym::ghost::dressing_inv#p", kinds: "prr", args: "s,g0,xi", ret: 'P', f: |a| V::P(qcd_sme::ym::ghost::dressing_inv(a.p(0), a.r(1), a.r(2))) },
    Op { name: "ym::ghost::dressing_landau#r", kinds: "rr", args: "s,g0", ret: 'R', f: |a| V::R(qcd_sme::ym::ghost::dressing_landau(a.r(0), a.r(1))) },
    Op { name: "ym::ghost::dressing_landau#c", kinds: "cr", args: "s,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::ghost::dressing_landau(a.c(0), a.r(2))) },
    Op { name: "ym::ghost::dressing_landau#p", kinds: "pr", args: "s,g0", ret: 'P', f: |a| V::P(qcd_sme::ym::ghost::dressing_landau(a.p(0), a.r(1))) },
    Op { name: "ym::ghost::dressing#r", kinds: "rrr", args: "s,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::ym::ghost::dressing(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ym::ghost::dressing#c", kinds: "crr", args: "s,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::ym::ghost::dressing(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ym::ghost::dressing#p", kinds: "prr", args: "s,g0,xi", ret: 'P', f: |a| V::P(qcd_sme::ym::ghost::dressing(a.p(0), a.r(1), a.r(2))) },
    Op { name: "ym::ghost::propagator_landau#r", kinds: "rr", args: "s,g0", ret: 'R', f: |a| V::R(qcd_sme::ym::ghost::propagator_landau(a.r(0), a.r(1))) },
    Op { name: "ym::ghost::propagator_landau#c", kinds: "cr", args: "s,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::ghost::propagator_landau(a.c(0), a.r(2))) },
    Op { name: "ym::ghost::propagator_landau#p", kinds: "pr", args: "s,g0", ret: 'P', f: |a| V::P(qcd_sme::ym::ghost::propagator_landau(a.p(0), a.r(1))) },
    Op { name: "ym::ghost::propagator#r", kinds: "rrr", args: "s,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::ym::ghost::propagator(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ym::ghost::propagator#c", kinds: "crr", args: "s,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::ym::ghost::propagator(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ym::ghost::propagator#p", kinds: "prr", args: "s,g0,xi", ret: 'P', f: |a| V::P(qcd_sme::ym::ghost::propagator(a.p(0), a.r(1), a.r(2))) },
    Op { name: "ffi::ym__ghost__dressing_inv_landau", kinds: "rr", args: "s,g0", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__ghost__dressing_inv_landau(a.r(0), a.r(1))) },
    Op { name: "ffi::ym__ghost__dressing_inv_landau__complex", kinds: "cr", args: "s,g0", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__ghost__dressing_inv_landau__complex(a.c(0), a.r(2))) },
    Op { name: "ffi::ym__ghost__dressing_inv", kinds: "rrr", args: "s,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__ghost__dressing_inv(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::ym__ghost__dressing_inv__complex", kinds: "crr", args: "s,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__ghost__dressing_inv__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::ym__ghost__dressing_landau", kinds: "rr", args: "s,g0", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__ghost__dressing_landau(a.r(0), a.r(1))) },
    Op { name: "ffi::ym__ghost__dressing_landau__complex", kinds: "cr", args: "s,g0", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__ghost__dressing_landau__complex(a.c(0), a.r(2))) },
    Op { name: "ffi::ym__ghost__dressing", kinds: "rrr", args: "s,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__ghost__dressing(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::ym__ghost__dressing__complex", kinds: "crr", args: "s,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__ghost__dressing__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::ym__ghost__propagator_landau", kinds: "rr", args: "s,g0", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__ghost__propagator_landau(a.r(0), a.r(1))) },
    Op { name: "ffi::ym__ghost__propagator_landau__complex", kinds: "cr", args: "s,g0", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__ghost__propagator_landau__complex(a.c(0), a.r(2))) },
    Op { name: "ffi::ym__ghost__propagator", kinds: "rrr", args: "s,g0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__ghost__propagator(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::ym__ghost__propagator__complex", kinds: "crr", args: "s,g0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__ghost__propagator__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ym::gluon::dressing_inv_landau#r", kinds: "rr", args: "s,f0", ret: 'R', f: |a| V::R(qcd_sme::ym::gluon::dressing_inv_landau(a.r(0), a.r(1))) },
    Op { name: "ym::gluon::dressing_inv_landau#c", kinds: "cr", args: "s,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::gluon::dressing_inv_landau(a.c(0), a.r(2))) },
    Op { name: "ym::gluon::dressing_inv_landau#p", kinds: "pr", args: "s,f0", ret: 'P', f: |a| V::P(qcd_sme::ym::gluon::dressing_inv_landau(a.p(0), a.r(1))) },
    Op { name: "ym::gluon::dressing_inv#r", kinds: "rrr", args: "s,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ym::gluon::dressing_inv(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ym::gluon::dressing_inv#c", kinds: "crr", args: "s,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ym::gluon::dressing_inv(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ym::gluon::dressing_inv#p", kinds: "prr", args: "s,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::ym::gluon::dressing_inv(a.p(0), a.r(1), a.r(2))) },
    Op { name: "ym::gluon::dressing_landau#r", kinds: "rr", args: "s,f0", ret: 'R', f: |a| V::R(qcd_sme::ym::gluon::dressing_landau(a.r(0), a.r(1))) },
    Op { name: "ym::gluon::dressing_landau#c", kinds: "cr", args: "s,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::gluon::dressing_landau(a.c(0), a.r(2))) },
    Op { name: "ym::gluon::dressing_landau#p", kinds: "pr", args: "s,f0", ret: 'P', f: |a| V::P(qcd_sme::ym::gluon::dressing_landau(a.p(0), a.r(1))) },
    Op { name: "ym::gluon::dressing#r", kinds: "rrr", args: "s,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ym::gluon::dressing(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ym::gluon::dressing#c", kinds: "crr", args: "s,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ym::gluon::dressing(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ym::gluon::dressing#p", kinds: "prr", args: "s,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::ym::gluon::dressing(a.p(0), a.r(1), a.r(2))) },
    Op { name: "ym::gluon::propagator_landau#r", kinds: "rr", args: "s,f0", ret: 'R', f: |a| V::R(qcd_sme::ym::gluon::propagator_landau(a.r(0), a.r(1))) },
    Op { name: "ym::gluon::propagator_landau#c", kinds: "cr", args: "s,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::gluon::propagator_landau(a.c(0), a.r(2))) },
    Op { name: "ym::gluon::propagator_landau#p", kinds: "pr", args: "s,f0", ret: 'P', f: |a| V::P(qcd_sme::ym::gluon::propagator_landau(a.p(0), a.r(1))) },
    Op { name: "ym::gluon::propagator#r", kinds: "rrr", args: "s,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ym::gluon::propagator(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ym::gluon::propagator#c", kinds: "crr", args: "s,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ym::gluon::propagator(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ym::gluon::propagator#p", kinds: "prr", args: "s,f0,xi", ret: 'P', f: |a| V::P(qcd_sme::ym::gluon::propagator(a.p(0), a.r(1), a.r(2))) },
    Op { name: "ffi::ym__gluon__dressing_inv_landau", kinds: "rr", args: "s,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__gluon__dressing_inv_landau(a.r(0), a.r(1))) },
    Op { name: "ffi::ym__gluon__dressing_inv_landau__complex", kinds: "cr", args: "s,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__gluon__dressing_inv_landau__complex(a.c(0), a.r(2))) },
    Op { name: "ffi::ym__gluon__dressing_inv", kinds: "rrr", args: "s,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__gluon__dressing_inv(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::ym__gluon__dressing_inv__complex", kinds: "crr", args: "s,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__gluon__dressing_inv__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::ym__gluon__dressing_landau", kinds: "rr", args: "s,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__gluon__dressing_landau(a.r(0), a.r(1))) },
    Op { name: "ffi::ym__gluon__dressing_landau__complex", kinds: "cr", args: "s,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__gluon__dressing_landau__complex(a.c(0), a.r(2))) },
    Op { name: "ffi::ym__gluon__dressing", kinds: "rrr", args: "s,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__gluon__dressing(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::ym__gluon__dressing__complex", kinds: "crr", args: "s,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__gluon__dressing__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ffi::ym__gluon__propagator_landau", kinds: "rr", args: "s,f0", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__gluon__propagator_landau(a.r(0), a.r(1))) },
    Op { name: "ffi::ym__gluon__propagator_landau__complex", kinds: "cr", args: "s,f0", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__gluon__propagator_landau__complex(a.c(0), a.r(2))) },
    Op { name: "ffi::ym__gluon__propagator", kinds: "rrr", args: "s,f0,xi", ret: 'R', f: |a| V::R(qcd_sme::ffi::ym__gluon__propagator(a.r(0), a.r(1), a.r(2))) },
    Op { name: "ffi::ym__gluon__propagator__complex", kinds: "crr", args: "s,f0,xi", ret: 'C', f: |a| V::C(qcd_sme::ffi::ym__gluon__propagator__complex(a.c(0), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::ghost::dressing_inv_landau#r", kinds: "rrrrr", args: "om,p,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::ghost::dressing_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::ghost::dressing_inv_landau#c", kinds: "crrrr", args: "om,p,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::ghost::dressing_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ym::thermal::ghost::dressing_inv_landau#p", kinds: "prrrr", args: "om,p,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::ghost::dressing_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::ghost::dressing_landau", kinds: "rrrrr", args: "om,p,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::ghost::dressing_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::ghost::propagator_landau", kinds: "rrrrr", args: "om,p,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::ghost::propagator_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::dressing_l_inv_landau#r", kinds: "rrrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::dressing_l_inv_landau#c", kinds: "crrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ym::thermal::gluon::dressing_l_inv_landau#p", kinds: "prrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::dressing_t_inv_landau#r", kinds: "rrrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::dressing_t_inv_landau#c", kinds: "crrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ym::thermal::gluon::dressing_t_inv_landau#p", kinds: "prrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::dressing_l_landau#r", kinds: "rrrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_l_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::dressing_l_landau#c", kinds: "crrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_l_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ym::thermal::gluon::dressing_l_landau#p", kinds: "prrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_l_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::dressing_t_landau#r", kinds: "rrrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_t_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::dressing_t_landau#c", kinds: "crrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_t_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ym::thermal::gluon::dressing_t_landau#p", kinds: "prrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::dressing_t_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::propagator_l_landau#r", kinds: "rrrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::propagator_l_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::propagator_l_landau#c", kinds: "crrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::propagator_l_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ym::thermal::gluon::propagator_l_landau#p", kinds: "prrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::propagator_l_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::propagator_t_landau#r", kinds: "rrrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::propagator_t_landau(a.r(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::gluon::propagator_t_landau#c", kinds: "crrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::propagator_t_landau(a.c(0), a.r(2), a.r(3), a.r(4), a.r(5))) },
    Op { name: "ym::thermal::gluon::propagator_t_landau#p", kinds: "prrrr", args: "om,p,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::gluon::propagator_t_landau(a.p(0), a.r(1), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_matsubara::ghost::dressing_inv_landau", kinds: "rrrr", args: "p,m,beta,g0", ret: 'R', f: |a| V::R(qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_matsubara::ghost::dressing_landau", kinds: "rrrr", args: "p,m,beta,g0", ret: 'R', f: |a| V::R(qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_matsubara::ghost::propagator_landau", kinds: "rrrr", args: "p,m,beta,g0", ret: 'R', f: |a| V::R(qcd_sme::ym::thermal::zero_matsubara::ghost::propagator_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_matsubara::gluon::dressing_l_inv_landau", kinds: "rrrr", args: "p,m,beta,f0", ret: 'R', f: |a| V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_matsubara::gluon::dressing_t_inv_landau", kinds: "rrrr", args: "p,m,beta,f0", ret: 'R', f: |a| V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_matsubara::gluon::dressing_l_landau", kinds: "rrrr", args: "p,m,beta,f0", ret: 'R', f: |a| V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_matsubara::gluon::dressing_t_landau", kinds: "rrrr", args: "p,m,beta,f0", ret: 'R', f: |a| V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_matsubara::gluon::propagator_l_landau", kinds: "rrrr", args: "p,m,beta,f0", ret: 'R', f: |a| V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_l_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_matsubara::gluon::propagator_t_landau", kinds: "rrrr", args: "p,m,beta,f0", ret: 'R', f: |a| V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_t_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::ghost::dressing_inv_landau#r", kinds: "rrrr", args: "om,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::ghost::dressing_inv_landau#c", kinds: "crrr", args: "om,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_momentum::ghost::dressing_inv_landau#p", kinds: "prrr", args: "om,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::ghost::dressing_landau#r", kinds: "rrrr", args: "om,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::ghost::dressing_landau#c", kinds: "crrr", args: "om,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_momentum::ghost::dressing_landau#p", kinds: "prrr", args: "om,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::ghost::propagator_landau#r", kinds: "rrrr", args: "om,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::ghost::propagator_landau#c", kinds: "crrr", args: "om,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_momentum::ghost::propagator_landau#p", kinds: "prrr", args: "om,m,beta,g0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_l_inv_landau#r", kinds: "rrrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_l_inv_landau#c", kinds: "crrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_l_inv_landau#p", kinds: "prrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_t_inv_landau#r", kinds: "rrrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_t_inv_landau#c", kinds: "crrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_t_inv_landau#p", kinds: "prrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_l_landau#r", kinds: "rrrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_l_landau#c", kinds: "crrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_l_landau#p", kinds: "prrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_t_landau#r", kinds: "rrrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_t_landau#c", kinds: "crrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_momentum::gluon::dressing_t_landau#p", kinds: "prrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::propagator_l_landau#r", kinds: "rrrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::propagator_l_landau#c", kinds: "crrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_momentum::gluon::propagator_l_landau#p", kinds: "prrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::propagator_t_landau#r", kinds: "rrrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(a.r(0), a.r(1), a.r(2), a.r(3))) },
    Op { name: "ym::thermal::zero_momentum::gluon::propagator_t_landau#c", kinds: "crrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(a.c(0), a.r(2), a.r(3), a.r(4))) },
    Op { name: "ym::thermal::zero_momentum::gluon::propagator_t_landau#p", kinds: "prrr", args: "om,m,beta,f0", ret: 'C', f: |a| V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(a.p(0), a.r(1), a.r(2), a.r(3))) },
];
