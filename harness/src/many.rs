//! Runs of very many steps of one size, of which only the end is recorded.
use crate::json::J;
use crate::rng::Rng;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn go<A: OdeAlgorithm>(alg: A, tf: f64, h: f64, limit: Option<usize>, user: bool, calls: &Cell<usize>, j: &mut J) {
    let f = |mut du: ArrayViewMut1<f64>, _: ArrayView1<f64>, _: f64, _: &()| {
        calls.set(calls.get() + 1);
        du.fill(0.0);
    };
    let jac = |mut df: ArrayViewMut2<f64>, _: ArrayView1<f64>, _: f64, _: &()| df.fill(0.0);
    let mut b = OdeIntegratorBuilder::default(&f, array![1.0], (0.0, tf), alg, ()).dtstart(h).dtmax(h);
    if let Some(m) = limit {
        b = b.max_steps(m);
    }
    if user {
        b = b.dfdu(&jac);
    }
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut i = b.build();
        calls.set(0);
        i.integrate();
        let s = &i.stats;
        (format!("{:?}", i.sol.retcode), i.sol.ts.len(), i.t, [s.steps, s.function_evals, s.accepts, s.rejects])
    }));
    let (ret, points, t, st) = res.unwrap_or_else(|_| ("panic".to_string(), 0, 0.0, [0; 4]));
    j.key("ret").str(&ret).key("points").int(points as i64);
    j.key("t").num(t).key("evals").int(calls.get() as i64).key("st").ints(&st);
}

pub fn cases(r: &mut Rng, id: String, j: &mut J) {
    j.obj().key("id").str(&id).key("kind").str("many").key("what").str("many steps").key("cases").arr();
    for _ in 0..8 {
        let dp5 = r.chance(0.5);
        // The limit that is set, or none: then the default one applies.
        let limit = match r.below(4) {
            0 => None,
            1 => Some(*r.pick(&[255usize, 256, 32767, 32768, 65535, 65536, 131072])),
            _ => Some(r.log(1.0, 1.5e5) as usize + 1),
        };
        let l = limit.unwrap_or(100000);
        let n = match r.below(4) {
            0 => l + 1,
            1 => (l.max(2)) - 1,
            2 => l + r.log(1.0, 3e4) as usize,
            _ => 1 + r.below(l),
        };
        // A power of two: the times are exact.
        let h = 2f64.powi(r.below(40) as i32 - 20) * if r.chance(0.3) { -1.0 } else { 1.0 };
        let user = r.chance(0.7);
        let calls = Cell::new(0);
        let tf = n as f64 * h;
        j.obj().key("alg").str(if dp5 { "dp5" } else { "radau" }).key("n").int(n as i64).key("limit").int(l as i64);
        j.key("h").num(h).key("user").bool(user);
        if dp5 {
            go(DormandPrince5, tf, h.abs(), limit, user, &calls, j);
        } else {
            go(Radau5, tf, h.abs(), limit, user, &calls, j);
        }
        j.end();
    }
    j.enda().key("end").str("ok").end();
}
