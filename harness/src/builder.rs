//! Integrators built with a given sequence of setters.
use crate::json::J;
use crate::prob::{Fam, Prob};
use crate::rng::Rng;
use crate::run::{apply, opts_json, panic_text, snap, Alg, Prm};
use crate::scen::{AlgK, Cb, JacK, Scen, Via};
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::prelude::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const FLOATS: &[&str] = &[
    "reltol", "abstol", "dtstart", "dtmax", "safe", "facr", "facl", "quot1", "quot2", "beta", "fnewt",
];
const INTS: &[&str] = &["max_steps", "max_newt_iter", "max_stiff"];
const BOOLS: &[&str] = &["dense", "modern_pred", "use_ext_col", "hess"];

/// `line`: the algorithm and name=value pairs.
pub fn build(r: &mut Rng, id: String, line: &str, j: &mut J) {
    let mut w = line.split_whitespace();
    let alg = if w.next() == Some("dp5") { AlgK::Dp5 } else { AlgK::Radau };
    let sets: Vec<(&str, &str)> = w.map(|x| x.split_once('=').unwrap()).collect();
    let n = 1 + r.below(3);
    let t0 = r.range(-5.0, 5.0);
    let tf = if r.chance(0.5) { t0 + r.range(0.1, 9.0) } else { t0 - r.range(0.1, 9.0) };
    let s = Scen {
        id,
        alg,
        prob: Prob { fam: Fam::Logistic, n, c: vec![], mirror: false, su: 1.0, st: 1.0 },
        k: r.range(0.1, 3.0),
        u0: (0..n).map(|_| r.range(-2.0, 2.0)).collect(),
        t0,
        tf,
        jac: if r.chance(0.5) { JacK::Fd } else { JacK::Exact },
        cb: Cb::None,
        via: Via::Step,
        theta: None,
        fo: vec![],
        uo: vec![],
        bo: vec![],
        cap: 0,
        budget: 1000,
    };
    match alg {
        AlgK::Dp5 => one::<DormandPrince5>(&s, line, &sets, j),
        AlgK::Radau => one::<Radau5>(&s, line, &sets, j),
    }
}

fn one<A: Alg>(s: &Scen, line: &str, sets: &[(&str, &str)], j: &mut J) {
    let dudt = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Prm| {
        let o = s.prob.f(t, &u.to_vec(), p.k);
        for i in 0..o.len() {
            du[i] = o[i];
        }
    };
    let dfdu = |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &Prm| {
        let o = s.prob.jac(t, &u.to_vec(), p.k);
        let n = s.prob.n;
        for i in 0..n * n {
            df[[i / n, i % n]] = o[i];
        }
    };
    j.obj().key("id").str(&s.id).key("what").str(line);
    j.key("alg").str(if s.alg == AlgK::Dp5 { "dp5" } else { "radau" });
    j.key("t0").num(s.t0).key("tf").num(s.tf).key("u0").vec(&s.u0).key("k").num(s.k);
    j.key("dir").int(if s.tf > s.t0 { 1 } else { -1 });
    j.key("sets").arr();
    let mut one_by_one = vec![];
    for (k, v) in sets {
        let mut q = s.clone();
        j.arr().str(k);
        if let Some(k) = FLOATS.iter().find(|x| *x == k) {
            let x: f64 = v.parse().unwrap();
            j.num(x);
            q.set(k, x);
        } else if let Some(k) = INTS.iter().find(|x| *x == k) {
            let x: usize = v.parse().unwrap();
            j.int(x as i64);
            q.setu(k, x);
        } else if let Some(k) = BOOLS.iter().find(|x| *x == k) {
            let x: bool = v.parse().unwrap();
            j.bool(x);
            q.setb(k, x);
        } else {
            panic!("unknown setter {}", k);
        }
        j.enda();
        one_by_one.push(q);
    }
    j.enda();
    let built = catch_unwind(AssertUnwindSafe(|| {
        let mut b = OdeIntegratorBuilder::default(
            &dudt,
            Array1::from(s.u0.clone()),
            (s.t0, s.tf),
            A::make(),
            Prm { k: s.k },
        );
        if s.jac == JacK::Exact {
            b = b.dfdu(&dfdu);
        }
        for q in &one_by_one {
            b = apply(b, q);
        }
        b.build()
    }));
    match built {
        Err(e) => {
            j.key("end").str("panic").key("msg").str(&panic_text(e));
        }
        Ok(it) => {
            j.key("o");
            opts_json(j, &it.opts);
            j.key("x");
            snap(&it).json(j);
            j.key("tdir").num(it.tdir).key("tfinal").num(it.tfinal);
            j.key("end").str("ok");
        }
    }
    j.end();
}
