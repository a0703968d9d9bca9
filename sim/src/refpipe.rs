//! Reference pipeline: an independent, sequential statement of what the
//! critical-temperature program must output for a configuration.  It trusts the
//! library's propagators and the optimiser, and nothing of the program itself.
//!
//! usage: refpipe tables <one|two> <momentum step scale> <temperature step scale>
//!        refpipe <scan|interp>[-first] mg om renpoint mq1 mq2 mq3 mqc1 mqc2 mqc3 f0 \
//!        <6 x (min max step): fewt moret manyt fewmu moremu manymu> <pmin pmax dp>
use peroxide::fuga::*;
use qcd_sme::qcd::thermal::gluon as g;
use qcd_sme::qcd::FieldConfig;

type Bound = Vec<(f64, f64)>;

fn grid(v: [f64; 3]) -> Vec<f64> {
    let n = ((v[1] - v[0]) / v[2]).round() as usize;
    let mut out = vec![];
    for k in 0..=n {
        out.push(v[0] + v[2] * (k as f64));
    }
    out
}

struct Ref {
    m: f64,
    om: f64,
    mu0: f64,
    pbase: f64,
    scan: bool,
    // the first temperature of a grid is taken at face value, not as zero
    first: bool,
    plain: (FieldConfig, f64),
    corr: (FieldConfig, f64),
    bound: Option<Bound>,
    // closest call among the decisions taken
    margin: f64,
}

impl Ref {
    fn near(&mut self, d: f64) {
        let d = d.abs();
        if d > 0. && d < self.margin {
            self.margin = d;
        }
    }
    fn deconfined(&mut self, mu: f64, t: f64) -> bool {
        let b = match &self.bound {
            None => return false,
            Some(b) => b.clone(),
        };
        assert!(!b.is_empty() && mu >= b[0].0, "outside the phase boundary");
        let last = b[b.len() - 1].0;
        if t == 0. {
            self.near(mu - last);
            return mu > last;
        }
        if self.scan && !(mu == 0. && b[0].0 == 0.) {
            // points sharing a boundary temperature are told apart by chemical potential
            for &(bm, bt) in &b {
                if bm == mu {
                    break;
                }
                if bt == t {
                    return mu > bm;
                }
                if bm > mu {
                    break;
                }
            }
        }
        if mu > last {
            self.near(mu - last);
            return true;
        }
        let i = b.iter().position(|x| x.0 >= mu).unwrap();
        let tc = if b[i].0 == mu {
            b[i].1
        } else {
            if self.scan && b[i].1 == t {
                return mu > b[i].0;
            }
            let ((m0, t0), (m1, t1)) = (b[i - 1], b[i]);
            t0 + (t1 - t0) * ((mu - m0) / (m1 - m0))
        };
        self.near(t - tc);
        t > tc
    }
    fn value(&mut self, long: bool, p: f64, mu: f64, t: f64) -> f64 {
        let d = self.deconfined(mu, t);
        let (fc, f0) = if d { &self.corr } else { &self.plain };
        let (om, m) = (self.om, self.m);
        let prop = |q: f64| {
            let v = if t == 0. {
                if long {
                    g::propagator_l_zero_temp_landau_w_field_config(om, q, mu, *f0, fc)
                } else {
                    g::propagator_t_zero_temp_landau_w_field_config(om, q, mu, *f0, fc)
                }
            } else {
                let beta = 1. / (t * m);
                if long {
                    g::propagator_l_landau_w_field_config(om, q, beta, mu, *f0, fc)
                } else {
                    g::propagator_t_landau_w_field_config(om, q, beta, mu, *f0, fc)
                }
            };
            v.re
        };
        // m^2 Delta(p), normalised to 1/p^2 at the renormalisation point
        prop(p * m) / (prop(self.mu0) * (self.mu0 * self.mu0 / (m * m)))
    }
    fn propagators(&mut self, name: &str, long: bool, ts: &[f64], mus: &[f64], ps: &[f64]) {
        let (kind, y, tr) = if long { ("glulongprop", "L", "") } else { ("glutransprop", "T", "_transverse") };
        for &mu in mus {
            let mut all = vec![];
            for (i, &t) in ts.iter().enumerate() {
                let t = if i == 0 && !self.first { 0. } else { t };
                let vals: Vec<f64> = ps.iter().map(|&p| self.value(long, p, mu, t)).collect();
                println!("F data/{name}_{kind}_t_{t:.4}_mu_{mu:.4}.out any any");
                for (p, v) in ps.iter().zip(&vals) {
                    println!("R {p:?} {v:?}");
                }
                all.push(vals);
            }
            println!("P {name}{tr}_mu_{mu:.4}.png");
            println!("X title $n_{{{{F}}}}=2+1$, $\\mu={mu:.4}$ GeV");
            println!("X xlabel $p/m$");
            println!("X ylabel $m^{{2}}\\,\\Delta_{{{y}}}(p)$");
            for (t, v) in ts.iter().zip(&all) {
                println!("S $T/m={t:.4}$ {ps:?} {v:?}");
            }
        }
    }
    fn against_t(&mut self, ts: &[f64], mu: f64) -> Vec<f64> {
        let (p, first) = (self.pbase, self.first);
        ts.iter().enumerate().map(|(i, &t)| self.value(true, p, mu, if i == 0 && !first { 0. } else { t })).collect()
    }
    fn diagram(&mut self, name: &str, ts: &[f64], mus: &[f64]) -> Bound {
        let mut b = vec![];
        for &mu in mus {
            let v = self.against_t(ts, mu);
            let mut best = 0;
            for i in 0..v.len() {
                if v[i] > v[best] {
                    best = i;
                }
            }
            for i in 0..v.len() {
                if i != best {
                    let d = (v[best] - v[i]) / v[best].abs();
                    self.near(d);
                }
            }
            b.push((mu, ts[best]));
        }
        let tcs: Vec<f64> = b.iter().map(|x| x.1).collect();
        println!("F tc_{name}.out 4 4");
        for (mu, tc) in &b {
            println!("R {mu:?} {tc:?}");
        }
        let h = 2. * (mus[1] - mus[0]);
        let mut d2 = vec![];
        println!("F tcd2_{name}.out any any");
        for i in 2..mus.len() - 2 {
            let d = ((b[i + 2].1 + b[i - 2].1) - 2. * b[i].1) / (h * h);
            d2.push(d);
            println!("R {:?} {d:?}", mus[i]);
        }
        println!("P tc_{name}.png");
        println!("X title $n_{{{{F}}}}=2+1$");
        println!("X xlabel $\\mu$ [GeV]");
        println!("X ylabel $T_{{c}}/m$");
        println!("S - {mus:?} {tcs:?}");
        println!("P tcd2_{name}.png");
        println!("X title $n_{{{{F}}}}=2+1$");
        println!("X xlabel $\\mu$ [GeV]");
        println!("X ylabel $\\partial^{{2}}(T_{{c}}/m)/\\partial \\mu^{{2}}$ [GeV$^{{-2}}$]");
        println!("S - {:?} {d2:?}", &mus[2..mus.len() - 2]);
        b
    }
}

fn poly(mu: AD, p: &[AD]) -> AD {
    let mut s = AD0(0.);
    for i in (1..p.len()).rev() {
        s = (s + p[i]) * mu;
    }
    s + p[0]
}

/// What the parameter-scan programs must output: table rows and figures.
fn tables(two: bool, scale_p: f64, scale_t: f64) {
    use qcd_sme::ym::gluon::propagator_landau as ym0;
    use qcd_sme::ym::thermal::gluon::propagator_l_landau as ymt;
    let (m, f0, om, mu0, nc) = (0.656, -0.876, 1e-5, 4., 3);
    let norm = mu0 * mu0 / (m * m);
    let upto = |lo: f64, hi: f64, d: f64| -> Vec<f64> {
        let n = ((hi - lo) / d).floor() as usize;
        (0..=n).map(|k| lo + d * (k as f64)).collect()
    };
    let ps = upto(0.01, 3., 0.01 * scale_p);
    let pbase = 0.01;
    let ts = upto(0.01, 0.2, 0.005 * scale_t);
    let mut with0 = vec![0.];
    with0.extend(&ts);
    let temps = [0., 0.05, 0.08, 0.12, 0.15, 0.18, 0.21];
    let masses: Vec<Vec<f64>> = if two {
        vec![vec![0.3, 0.4], vec![0.3, 0.6], vec![0.8, 1.], vec![0.3, 1.]]
    } else {
        vec![vec![0.08], vec![0.4], vec![0.8]]
    };
    let mus: Vec<f64> = (0..if two { 13 } else { 11 }).map(|k| (k as f64) / 10.).collect();
    // m^2 Delta(p), normalised to 1/p^2 at the renormalisation point
    let value = |fc: &Option<FieldConfig>, p: f64, t: f64, mu: f64| -> f64 {
        let prop = |q: f64| match (fc, t == 0.) {
            (None, true) => ym0((om * om + q * q) / (m * m), f0),
            (None, false) => ymt(om, q, m, 1. / (t * m), f0).re,
            (Some(c), true) => g::propagator_l_zero_temp_landau_w_field_config(om, q, mu, f0, c).re,
            (Some(c), false) => g::propagator_l_landau_w_field_config(om, q, 1. / (t * m), mu, f0, c).re,
        };
        prop(p * m) / (prop(mu0) * norm)
    };
    let label = |k: usize| if two { format!("^{{{{({k})}}}}") } else { String::new() };
    let names = |v: &[f64]| -> (String, String, String) {
        let (mut file, mut title, mut row) = (String::new(), String::new(), String::new());
        for (i, q) in v.iter().enumerate() {
            let k = if two { format!("{}", i + 1) } else { String::new() };
            file += &format!("_mq{k}_{q:.3}");
            title += &format!("$M_{{{{q}}}}{}={q:.3}$ GeV, ", label(i + 1));
            row += &format!("\t{q:.3}");
        }
        (file, title, row)
    };
    let critical = |v: &[f64]| {
        let (mut best, mut gap) = (0, f64::INFINITY);
        for i in 0..v.len() {
            if v[i] > v[best] {
                best = i;
            }
        }
        for i in 0..v.len() {
            if i != best {
                gap = f64::min(gap, (v[best] - v[i]).abs() / v[best].abs());
            }
        }
        (with0[best], gap)
    };
    let family = |name: &str, title: &str, fc: &Option<FieldConfig>, mu: f64| {
        println!("P {name}.png");
        println!("X title {title}");
        println!("X xlabel $p/m$");
        println!("X ylabel $m^{{2}}\\Delta_{{L}}(p)$");
        for (i, &t) in temps.iter().enumerate() {
            let v: Vec<f64> = ps.iter().map(|&p| value(fc, p, t, mu)).collect();
            let l = if i == 0 { "$T/m=0.00$".to_string() } else { format!("$T/m={t:.3}$") };
            println!("S {l} {ps:?} {v:?}");
        }
    };
    let na = if two { ("_mq1_NA_mq2_NA", "$M_{{q}}^{{(1)}}=$N/A GeV, $M_{{q}}^{{(2)}}=$N/A GeV, ") } else { ("_mq_NA", "$M_{{q}}=$N/A GeV, ") };
    let un = |s: &str| s.replace("{{", "{").replace("}}", "}");
    family(&format!("nf_0{}_mu_NA", na.0), &un(&format!("{}$n_{{{{F}}}}=0$, $\\mu=$N/A GeV", na.1)), &None, 0.);
    let v: Vec<f64> = with0.iter().map(|&t| value(&None, pbase, t, 0.)).collect();
    let (tc, gap) = critical(&v);
    println!("W {gap:?} 0{}\t0.000\t{tc:.3}", if two { "\t0.000\t0.000" } else { "\t0.000" });
    println!("P ir_nf_0{}.png", na.0);
    println!("X xlabel $T/m$");
    println!("S - {with0:?} {v:?}");
    for nf in if two { vec![1, 4] } else { vec![1, 2, 4, 6] } {
        for q in &masses {
            let fc = Some(FieldConfig::new(nc, m, q.iter().map(|&x| (nf, x)).collect()));
            let (file, title, row) = names(q);
            let title = un(&title);
            for &mu in &mus {
                family(&format!("nf_{nf}{file}_mu_{mu:.3}"), &format!("{title}$n_{{F}}={nf}$, $\\mu={mu:.3}$ GeV"), &fc, mu);
            }
            let mut tcs = vec![];
            println!("P ir_nf_{nf}{file}.png");
            println!("X title {title}$n_{{F}}={nf}$");
            println!("X xlabel $T/m$");
            println!("X ylabel $m^{{2}}\\Delta_{{L}}(p={pbase}\\,m)$");
            let mut rows = vec![];
            for &mu in &mus {
                let v: Vec<f64> = with0.iter().map(|&t| value(&fc, pbase, t, mu)).collect();
                let (tc, gap) = critical(&v);
                tcs.push(tc);
                println!("S $\\mu={mu:.3}$ GeV {with0:?} {v:?}");
                rows.push(format!("W {gap:?} {nf}{row}\t{mu:.3}\t{tc:.3}"));
            }
            println!("P tc_nf_{nf}{file}.png");
            println!("X title {title}$n_{{F}}={nf}$");
            println!("X xlabel $\\mu$ [GeV]");
            println!("X ylabel $T_{{c}}/m$");
            println!("S - {mus:?} {tcs:?}");
            rows.iter().for_each(|r| println!("{r}"));
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "tables" {
        return tables(a[2] == "two", a[3].parse().unwrap(), a[4].parse().unwrap());
    }
    let f: Vec<f64> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
    let (m, om, mu0) = (f[0], f[1], f[2]);
    let (q, qc, f0) = (&f[3..6], &f[6..9], f[9]);
    let t3 = |i: usize| grid([f[10 + 3 * i], f[11 + 3 * i], f[12 + 3 * i]]);
    let (fewt, moret, manyt, fewmu, moremu, manymu, ps) = (t3(0), t3(1), t3(2), t3(3), t3(4), t3(5), t3(6));
    let nc = 3;
    let k = 4. / (9. * nc as f64);
    let f0p = f0 + k * (2. * (m / q[0]).ln() + (m / q[1]).ln());
    let f0c = f0p + k * (2. * (q[0] / qc[0]).ln() + (q[1] / qc[1]).ln());
    let mut r = Ref {
        m,
        om,
        mu0,
        pbase: f[28],
        scan: a[1].starts_with("scan"),
        first: a[1].ends_with("-first"),
        plain: (FieldConfig::new(nc, m, vec![(2, q[0]), (1, q[1])]), f0p),
        corr: (FieldConfig::new(nc, m, vec![(2, qc[0]), (1, qc[1])]), f0c),
        bound: None,
        margin: f64::INFINITY,
    };
    let name = "nf_2+1";
    r.propagators(name, true, &fewt, &fewmu, &ps);
    r.propagators(name, false, &fewt, &fewmu, &ps);
    let ir: Vec<Vec<f64>> = moremu.iter().map(|&mu| r.against_t(&moret, mu)).collect();
    println!("P ir_{name}.png");
    println!("X title $n_{{{{F}}}}=2+1$");
    println!("X xlabel $T/m$");
    println!("X ylabel $m^{{2}}\\,\\Delta_{{L}}(p=0)$");
    for v in &ir {
        println!("S - {moret:?} {v:?}");
    }
    let b = r.diagram(name, &manyt, &manymu);
    let cut = b.iter().position(|x| x.1 == 0.).unwrap_or(b.len());
    let b: Bound = b[..cut].to_vec();
    r.bound = Some(b.clone());
    let name = "nf_2+1_corrected";
    r.diagram(name, &manyt, &manymu);

    let (x, y): (Vec<f64>, Vec<f64>) = b.iter().cloned().unzip();
    let p = Optimizer::new(peroxide::hstack!(x.clone(), y.clone()), |xs, p| {
        Some(xs.iter().map(|&v| poly(AD1(v, 0.), &p)).collect())
    })
    .set_init_param(vec![1.; 9])
    .set_max_iter(50)
    .set_method(LevenbergMarquardt)
    .set_lambda_init(1e-3)
    .set_lambda_max(1e+3)
    .optimize();
    let eval = |v: f64| p.iter().enumerate().map(|(i, c)| c * v.powi(i as i32)).sum::<f64>();
    let fit: Vec<f64> = x.iter().map(|&v| eval(v)).collect();
    println!("L tc_{name}_fit_parameters.out {p:?}");
    println!("P tc_{name}_fit.png");
    println!("S - {x:?} {y:?}");
    println!("S - {x:?} {fit:?}");
    r.propagators(name, true, &fewt, &fewmu, &ps);
    r.propagators(name, false, &fewt, &fewmu, &ps);
    println!("M {:?}", r.margin);
    println!("T {:?}", y);
}
