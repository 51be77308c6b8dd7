//! Finite-difference derivatives of quadratic functions.
use crate::json::J;
use crate::rng::Rng;

#[cfg(not(verif_hooks))]
pub fn cases(_: &mut Rng, _: String, _: &mut J) {}

#[cfg(verif_hooks)]
pub fn cases(r: &mut Rng, id: String, j: &mut J) {
    use cyphus_diffeq::verif_hooks as h;
    use ndarray::prelude::*;
    use std::cell::RefCell;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    j.obj().key("id").str(&id).key("kind").str("fd").key("what").str("finite differences").key("cases").arr();
    for _ in 0..24 {
        let n = if r.chance(0.1) { 6 + r.below(10) } else { 1 + r.below(5) };
        let coef = |r: &mut Rng| match r.below(5) {
            0 => 0.0,
            1 => r.range(-1.0, 1.0) * r.log(1e-3, 1e3),
            _ => r.range(-2.0, 2.0),
        };
        let vec = |r: &mut Rng, k: usize| -> Vec<f64> { (0..k).map(|_| coef(r)).collect() };
        let (a, b) = (vec(r, n * n), vec(r, n * n));
        let (c, q, d, e) = (vec(r, n), vec(r, n), vec(r, n), vec(r, n));
        let mag = |r: &mut Rng| match r.below(6) {
            0 => 0.0,
            1 => -r.log(1e-8, 1e8),
            2 => r.log(1e-8, 1e8),
            3 => -1.0,
            _ => r.range(-3.0, 3.0),
        };
        let u: Vec<f64> = (0..n).map(|_| mag(r)).collect();
        let t = mag(r);
        let calls: RefCell<Vec<(f64, Vec<f64>)>> = RefCell::new(vec![]);
        let f = |mut du: ArrayViewMut1<f64>, x: ArrayView1<f64>, t: f64, _: &()| {
            for i in 0..n {
                let mut s = c[i] + q[i] * x[0] * x[n - 1] + d[i] * t + e[i] * t * t;
                for k in 0..n {
                    s += (a[i * n + k] + b[i * n + k] * x[k]) * x[k];
                }
                du[i] = s;
            }
            calls.borrow_mut().push((t, x.to_vec()));
        };
        let ju: Vec<f64> = (0..n * n).map(|_| r.range(-5.0, 5.0)).collect();
        let jt: Vec<f64> = (0..n).map(|_| r.range(-5.0, 5.0)).collect();
        let own = RefCell::new(vec![]);
        let dfdu = |mut df: ArrayViewMut2<f64>, x: ArrayView1<f64>, t: f64, _: &()| {
            for i in 0..n * n {
                df[[i / n, i % n]] = ju[i];
            }
            own.borrow_mut().push((t, x.to_vec()));
        };
        let dfdt = |mut df: ArrayViewMut1<f64>, x: ArrayView1<f64>, t: f64, _: &()| {
            for i in 0..n {
                df[i] = jt[i];
            }
            own.borrow_mut().push((t, x.to_vec()));
        };
        let time = r.chance(0.4);
        let user = r.chance(0.2);
        let x = Array1::from(u.clone());
        let res = catch_unwind(AssertUnwindSafe(|| {
            if time {
                let mut df = Array1::from_elem(n, 9.5);
                h::jacobian_t(&f, if user { Some(&dfdt) } else { None }, df.view_mut(), x.view(), t);
                df.to_vec()
            } else {
                let mut df = Array2::from_elem((n, n), 9.5);
                h::jacobian_u(&f, if user { Some(&dfdu) } else { None }, df.view_mut(), x.view(), t);
                df.iter().cloned().collect()
            }
        }));
        j.obj().key("n").int(n as i64).key("t").num(t).key("u").vec(&u);
        j.key("time").bool(time).key("user").bool(user);
        j.key("a").vec(&a).key("b").vec(&b).key("c").vec(&c).key("q").vec(&q).key("d").vec(&d).key("e").vec(&e);
        j.key("given").vec(if time { &jt } else { &ju });
        for (k, v) in [("calls", &calls), ("own", &own)] {
            j.key(k).arr();
            for (t, x) in v.borrow().iter() {
                j.obj().key("t").num(*t).key("u").vec(x).end();
            }
            j.enda();
        }
        match res {
            Ok(v) => {
                j.key("ier").int(0).key("df").vec(&v).key("x").vec(&x);
            }
            Err(_) => {
                j.key("ier").int(-1);
            }
        }
        j.end();
    }
    j.enda().key("end").str("ok").end();
}
