//! Problems with known solutions. The solutions themselves are in the
//! specification, not here.
use crate::json::J;
use crate::rng::Rng;
use crate::run::{code, stats, Alg, BUDGET};
use crate::scen::AlgK;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::prelude::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Known {
    pub fam: &'static str,
    pub n: usize,
    /// rates
    pub c: Vec<f64>,
    /// frequencies
    pub w: Vec<f64>,
    /// vector of the reflection that mixes the components
    pub v: Vec<f64>,
    pub u0: Vec<f64>,
    pub t0: f64,
    pub tf: f64,
}

fn reflect(v: &[f64], x: &[f64]) -> Vec<f64> {
    let s: f64 = v.iter().zip(x).map(|(a, b)| a * b).sum();
    x.iter().zip(v).map(|(x, v)| x - 2.0 * s * v).collect()
}

impl Known {
    /// Right-hand side of the unmixed problem.
    fn plain(&self, t: f64, u: &[f64]) -> Vec<f64> {
        let (c, w, n) = (&self.c, &self.w, self.n);
        (0..n)
            .map(|i| match self.fam {
                "decay" => -c[i] * u[i],
                "osc" => {
                    if i % 2 == 1 {
                        -c[i / 2] * u[i - 1]
                    } else if i + 1 < n {
                        c[i / 2] * u[i + 1]
                    } else {
                        0.0
                    }
                }
                "logistic" => c[i] * u[i] * (1.0 - u[i]),
                "trig" => w[i] * (w[i] * t).cos(),
                "follow" => -c[i] * (u[i] - (w[i] * t).cos()) - w[i] * (w[i] * t).sin(),
                "expsin" => c[i] * w[i] * (w[i] * t).cos() * u[i],
                "riccati" => -c[i] * u[i] * u[i],
                "kaps" => {
                    // pairs with rate c[i / 2]
                    let e = c[i / 2];
                    if i % 2 == 1 {
                        u[i - 1] - u[i] * (1.0 + u[i])
                    } else if i + 1 < n {
                        -(e + 2.0) * u[i] + e * u[i + 1] * u[i + 1]
                    } else {
                        -u[i]
                    }
                }
                _ => unreachable!(),
            })
            .collect()
    }
    /// Its Jacobian.
    fn plain_jac(&self, t: f64, u: &[f64]) -> Vec<f64> {
        let (c, w, n) = (&self.c, &self.w, self.n);
        let mut o = vec![0.0; n * n];
        for i in 0..n {
            match self.fam {
                "decay" | "follow" => o[i * n + i] = -c[i],
                "osc" => {
                    if i % 2 == 1 {
                        o[i * n + i - 1] = -c[i / 2]
                    } else if i + 1 < n {
                        o[i * n + i + 1] = c[i / 2]
                    }
                }
                "logistic" => o[i * n + i] = c[i] * (1.0 - 2.0 * u[i]),
                "trig" => {}
                "expsin" => o[i * n + i] = c[i] * w[i] * (w[i] * t).cos(),
                "riccati" => o[i * n + i] = -2.0 * c[i] * u[i],
                "kaps" => {
                    let e = c[i / 2];
                    if i % 2 == 1 {
                        o[i * n + i - 1] = 1.0;
                        o[i * n + i] = -(1.0 + 2.0 * u[i]);
                    } else if i + 1 < n {
                        o[i * n + i] = -(e + 2.0);
                        o[i * n + i + 1] = 2.0 * e * u[i + 1];
                    } else {
                        o[i * n + i] = -1.0;
                    }
                }
                _ => unreachable!(),
            }
        }
        o
    }
    pub fn f(&self, t: f64, u: &[f64]) -> Vec<f64> {
        if self.v.is_empty() {
            return self.plain(t, u);
        }
        reflect(&self.v, &self.plain(t, &reflect(&self.v, u)))
    }
    pub fn jac(&self, t: f64, u: &[f64]) -> Vec<f64> {
        if self.v.is_empty() {
            return self.plain_jac(t, u);
        }
        let n = self.n;
        let p = self.plain_jac(t, &reflect(&self.v, u));
        let mut o = vec![0.0; n * n];
        for k in 0..n {
            let mut e = vec![0.0; n];
            e[k] = 1.0;
            let e = reflect(&self.v, &e);
            let x: Vec<f64> = (0..n).map(|i| (0..n).map(|l| p[i * n + l] * e[l]).sum()).collect();
            let x = reflect(&self.v, &x);
            for i in 0..n {
                o[i * n + k] = x[i];
            }
        }
        o
    }
    pub fn json(&self, j: &mut J) {
        j.key("fam").str(self.fam).key("n").int(self.n as i64);
        j.key("c").vec(&self.c).key("w").vec(&self.w).key("v").vec(&self.v);
        j.key("u0").vec(&self.u0).key("t0").num(self.t0).key("tf").num(self.tf);
    }
}

pub struct Opt {
    pub reltol: f64,
    pub abstol: f64,
    pub dtstart: Option<f64>,
    pub exact: bool,
    pub modern: bool,
    pub ext: bool,
    pub dense: bool,
    pub hess: bool,
    pub max: usize,
}

fn run<A: Alg>(k: &Known, o: &Opt) -> (Vec<f64>, Vec<Vec<f64>>, &'static str, [usize; 7]) {
    let count = Cell::new(0usize);
    let f = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _: &()| {
        count.set(count.get() + 1);
        if count.get() > 300_000 {
            panic!("{}", BUDGET);
        }
        for (x, y) in du.iter_mut().zip(k.f(t, &u.to_vec())) {
            *x = y;
        }
    };
    let df = |mut m: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _: &()| {
        for (x, y) in m.iter_mut().zip(k.jac(t, &u.to_vec())) {
            *x = y;
        }
    };
    let mut b = OdeIntegratorBuilder::default(&f, Array1::from(k.u0.clone()), (k.t0, k.tf), A::make(), ())
        .reltol(o.reltol)
        .abstol(o.abstol)
        .max_steps(o.max)
        .modern_pred(o.modern)
        .use_ext_col(o.ext)
        .hess(o.hess)
        .dense(o.dense);
    if let Some(d) = o.dtstart {
        b = b.dtstart(d);
    }
    if o.exact {
        b = b.dfdu(&df);
    }
    let mut i = b.build();
    i.integrate();
    let us = i.sol.us.iter().map(|u| u.to_vec()).collect();
    (i.sol.ts.clone(), us, code(&i.sol.retcode), stats(&i.stats))
}

/// Runs a problem to its end and writes a selection of the recorded points.
fn solve(k: &Known, alg: AlgK, o: &Opt, j: &mut J) {
    let res = catch_unwind(AssertUnwindSafe(|| match alg {
        AlgK::Dp5 => run::<DormandPrince5>(k, o),
        AlgK::Radau => run::<Radau5>(k, o),
    }));
    j.obj().key("reltol").num(o.reltol).key("abstol").num(o.abstol);
    match res {
        Err(_) => {
            j.key("ret").str("panic").key("st").ints(&[0; 7]).key("t").arr().enda().key("u").arr().enda();
        }
        Ok((ts, us, ret, st)) => {
            j.key("ret").str(ret).key("st").ints(&st);
            let m = ts.len().min(us.len());
            let k = 24.min(m);
            let pick: Vec<usize> = (1..=k).map(|q| q * m / k - 1).collect();
            j.key("t").vec(pick.iter().map(|q| &ts[*q]));
            j.key("u").arr();
            for q in &pick {
                j.vec(&us[*q]);
            }
            j.enda();
        }
    }
    j.end();
}

fn unit(r: &mut Rng, n: usize) -> Vec<f64> {
    let v: Vec<f64> = (0..n).map(|_| r.range(-1.0, 1.0)).collect();
    let s = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    v.iter().map(|x| x / s).collect()
}

fn interval(r: &mut Rng, long: f64) -> (f64, f64, f64) {
    let len = r.log(0.3, long);
    let t0 = match r.below(4) {
        0 => 0.0,
        1 => r.range(-3.0, 3.0),
        2 => r.range(-30.0, 30.0),
        _ => -r.range(0.0, 2.0) * len,
    };
    let dir = if r.chance(0.4) { -1.0 } else { 1.0 };
    (t0, t0 + dir * len, dir)
}

/// A smooth problem, solved with tolerances from coarse to fine.
pub fn smooth(r: &mut Rng, id: String, alg: AlgK, j: &mut J) {
    let fam = *r.pick(&["decay", "osc", "logistic", "trig", "follow", "expsin", "riccati", "kaps"]);
    let many = if alg == AlgK::Dp5 { [40, 150] } else { [12, 25] };
    let n = if r.chance(0.05) { *r.pick(&many) } else { [1, 1, 2, 2, 3, 4, 6, 9][r.below(8)] };
    let n = if fam == "osc" || fam == "kaps" { n + n % 2 } else { n };
    let (t0, tf, dir) = interval(r, 10.0);
    // other units of time and, where the equations allow it, of the states
    let st = if fam != "kaps" && r.chance(0.3) { r.log(1e-5, 1e5) } else { 1.0 };
    let su = if ["decay", "osc", "expsin", "riccati"].contains(&fam) && r.chance(0.4) { r.log(1e-6, 1e6) } else { 1.0 };
    let (t0, tf) = (t0 * st, tf * st);
    let len = (tf - t0).abs();
    let c: Vec<f64> = (0..n)
        .map(|_| match fam {
            "decay" => dir * r.range(0.0, 4.0) / len,
            "osc" => r.range(-15.0, 15.0) / len,
            "logistic" => r.range(-3.0, 3.0) / len,
            "follow" => dir * r.range(0.0, 10.0) / len,
            "riccati" => dir * r.range(0.0, 3.0) / len / su,
            "kaps" => r.range(0.5, 4.0),
            _ => r.range(-1.0, 1.0),
        })
        .collect();
    let w: Vec<f64> = (0..n).map(|_| r.range(-12.0, 12.0) / len).collect();
    let (t0, tf) = if fam == "kaps" { (t0, t0 + r.range(0.3, 3.0)) } else { (t0, tf) };
    let mut u0: Vec<f64> = (0..n)
        .map(|i| match fam {
            "logistic" => r.range(0.2, 0.95),
            "riccati" => r.range(0.2, 2.0),
            "follow" => (w[i] * t0).cos(),
            "kaps" => 1.0,
            _ => r.range(-2.0, 2.0),
        } * su)
        .collect();
    let v = if n > 1 && r.chance(0.4) { unit(r, n) } else { vec![] };
    if !v.is_empty() {
        u0 = reflect(&v, &u0);
    }
    let k = Known { fam, n, c, w, v, u0, t0, tf };
    let ratio = if k.v.is_empty() { r.log(1e-3, 1.0) } else { 1.0 };
    let exact = r.chance(0.5);
    let start = if r.chance(0.4) { Some(len * r.log(1e-5, 0.3)) } else { None };
    let (modern, ext) = (r.chance(0.6), r.chance(0.6));
    let dense = r.chance(0.3);
    let hess = r.chance(0.2);
    j.obj().key("id").str(&id).key("kind").str("smooth").key("alg").str(if alg == AlgK::Dp5 { "dp5" } else { "radau" });
    j.key("what").str(&format!("{:?} exact {} modern {} ext {} ratio {} dtstart {:?}", k, exact, modern, ext, ratio, start));
    k.json(j);
    j.key("runs").arr();
    for e in 3..=10 {
        let reltol = 10f64.powi(-e) * r.range(0.5, 1.0);
        let o = Opt { reltol, abstol: reltol * ratio * su, dtstart: start, exact, modern, ext, dense, hess, max: 100_000 };
        solve(&k, alg, &o, j);
    }
    j.enda().key("end").str("ok").end();
}

/// A stiff problem with a smooth solution, for growing stiffness.
pub fn stiff(r: &mut Rng, id: String, j: &mut J) {
    let fam = *r.pick(&["follow", "follow", "kaps", "decay"]);
    let n = if r.chance(0.05) { *r.pick(&[10, 25]) } else { [1, 2, 2, 3, 4, 6][r.below(6)] };
    let n = if fam == "kaps" { n + n % 2 } else { n };
    let (t0, mut tf, mut dir) = interval(r, 10.0);
    // other units
    let st = if fam != "kaps" && r.chance(0.3) { r.log(1e-5, 1e5) } else { 1.0 };
    let su = if fam == "decay" && r.chance(0.5) { r.log(1e-6, 1e6) } else { 1.0 };
    let t0 = t0 * st;
    tf *= st;
    if fam == "kaps" {
        tf = t0 + r.range(0.5, 5.0);
        dir = 1.0;
    }
    let len = (tf - t0).abs();
    let w: Vec<f64> = (0..n).map(|_| r.range(-4.0, 4.0) / len).collect();
    // share of each component in the stiffness; the last one stays slow
    let share: Vec<f64> = (0..n).map(|i| if i > 0 && i + 1 == n { 0.0 } else { r.range(0.0, 1.0) }).collect();
    let share: Vec<f64> = share.iter().enumerate().map(|(i, x)| if i == 0 { 1.0 } else { *x }).collect();
    let base: Vec<f64> = (0..n).map(|_| r.range(0.5, 2.0) / len).collect();
    let mut u0: Vec<f64> = (0..n)
        .map(|i| match fam {
            "follow" => (w[i] * t0).cos(),
            "kaps" => 1.0,
            // stiff components at rest
            _ if share[i] > 0.0 => 0.0,
            _ => r.range(0.5, 2.0),
        } * su)
        .collect();
    let v = if n > 1 && r.chance(0.5) { unit(r, n) } else { vec![] };
    if !v.is_empty() {
        u0 = reflect(&v, &u0);
    }
    let reltol = r.log(1e-7, 1e-3);
    let o = Opt {
        reltol,
        abstol: reltol * su * r.log(1e-2, 1.0),
        dtstart: if r.chance(0.5) { Some(len * r.log(1e-6, 0.1)) } else { None },
        exact: r.chance(0.5),
        modern: r.chance(0.5),
        ext: r.chance(0.5),
        dense: r.chance(0.3),
        hess: r.chance(0.3),
        max: 100_000,
    };
    j.obj().key("id").str(&id).key("kind").str("stiff").key("alg").str("radau");
    let mut k = Known { fam, n, c: vec![], w, v, u0, t0, tf };
    j.key("what").str(&format!(
        "{:?} share {:?} reltol {:e} abstol {:e} exact {} modern {} ext {} hess {} dtstart {:?}",
        k, share, o.reltol, o.abstol, o.exact, o.modern, o.ext, o.hess, o.dtstart
    ));
    k.json(j);
    j.key("runs").arr();
    for e in 0..=9 {
        let top = 10f64.powi(e) * 3.0 / len;
        k.c = (0..n)
            .map(|i| {
                let s = if share[i] > 0.0 { base[i] * (top / base[i]).powf(share[i]) } else { base[i] };
                if fam == "kaps" { s } else { dir * s }
            })
            .collect();
        solve(&k, AlgK::Radau, &o, j);
        // the rates of this run
        j.0.pop();
        j.key("c").vec(&k.c).end();
    }
    j.enda().key("end").str("ok").end();
}
