//! Drives integrators by given sequences of operations and runs pairs of
//! related scenarios.
use crate::json::J;
use crate::rng::Rng;
use crate::run::{self, act, apply, snap, user_jac, Alg, Log, Prm, State};
use crate::prob::Fam;
use crate::scen::{self, AlgK, Cb, JacK, Scen};
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::integrator::{OdeIntegratorIterator, OdeIntegratorMutIterator};
use cyphus_diffeq::prelude::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// What is being done right now, for the record of a scenario that hangs.
pub static PHASE: Mutex<&'static str> = Mutex::new("");
pub fn phase(p: &'static str) {
    *PHASE.lock().unwrap() = p;
}

type It<A> = OdeIntegrator<'static, Prm, A>;
enum Hold<A: Alg + 'static> {
    Direct(It<A>),
    Own(OdeIntegratorIterator<'static, Prm, A>),
    Borrow(OdeIntegratorMutIterator<'static, Prm, A>),
    Gone,
}

/// An integrator in whatever way it is held.
pub trait Drv {
    fn snap(&mut self) -> State;
    fn opts(&mut self, j: &mut J);
    /// Result of `step` (-1: nothing) and the pair yielded by `next`.
    fn op(&mut self, op: char) -> (i64, Option<(f64, Vec<f64>)>);
    /// The recorded pairs: the vectors, then the non-consuming iterator.
    fn look(&mut self) -> (Vec<f64>, Vec<Vec<f64>>, Vec<(f64, Vec<f64>)>);
    /// Takes the solution out and iterates over it.
    fn eat(&mut self) -> Vec<(f64, Vec<f64>)>;
    fn mode(&self) -> char;
}

impl<A: Alg + 'static> Hold<A> {
    fn it(&mut self) -> &mut It<A> {
        match self {
            Hold::Direct(i) => i,
            Hold::Own(w) => &mut w.integrator,
            Hold::Borrow(w) => w.integrator,
            Hold::Gone => unreachable!(),
        }
    }
}

impl<A: Alg + 'static> Drv for Hold<A> {
    fn snap(&mut self) -> State {
        snap(self.it())
    }
    fn opts(&mut self, j: &mut J) {
        run::opts_json(j, &self.it().opts)
    }
    fn op(&mut self, op: char) -> (i64, Option<(f64, Vec<f64>)>) {
        match op {
            's' => return (self.it().step().map(|x| x as i64).unwrap_or(-1), None),
            'i' => self.it().integrate(),
            'n' => {
                let y = match self {
                    Hold::Own(w) => w.next(),
                    Hold::Borrow(w) => w.next(),
                    _ => unreachable!(),
                };
                return (-1, y.map(|(t, u)| (t, u.to_vec())));
            }
            'o' | 'f' | 'b' => {
                *self = match std::mem::replace(self, Hold::Gone) {
                    Hold::Direct(i) if op == 'o' => Hold::Own(i.into_iter()),
                    Hold::Direct(i) => Hold::Borrow(Box::leak(Box::new(i)).into_iter()),
                    Hold::Own(w) => Hold::Direct(w.integrator),
                    _ => unreachable!(),
                }
            }
            _ => {}
        }
        (-1, None)
    }
    fn look(&mut self) -> (Vec<f64>, Vec<Vec<f64>>, Vec<(f64, Vec<f64>)>) {
        let sol = &mut self.it().sol;
        let ts = sol.ts.clone();
        let us = sol.us.iter().map(|u| u.to_vec()).collect();
        let it = sol.into_iter().map(|(t, u)| (*t, u.to_vec())).collect();
        (ts, us, it)
    }
    fn eat(&mut self) -> Vec<(f64, Vec<f64>)> {
        let sol = std::mem::replace(&mut self.it().sol, OdeSolution::new());
        sol.into_iter().map(|(t, u)| (t, u.to_vec())).collect()
    }
    fn mode(&self) -> char {
        match self {
            Hold::Direct(_) => 'd',
            Hold::Own(_) => 'o',
            Hold::Borrow(_) => 'b',
            Hold::Gone => 'g',
        }
    }
}

/// Builds an integrator whose functions live for ever. `log` counts calls.
fn make<A: Alg + 'static>(s: &Scen, log: &'static Log) -> Box<dyn Drv> {
    let s: &'static Scen = Box::leak(Box::new(s.clone()));
    log.keep.set(false);
    let dudt = Box::leak(Box::new(
        move |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Prm| {
            let o = s.prob.f(t, &u.to_vec(), p.k);
            for i in 0..o.len() {
                du[i] = o[i];
            }
            log.push(false, t, u, o);
        },
    ));
    let dfdu = Box::leak(Box::new(
        move |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &Prm| {
            let o = user_jac(s, t, &u.to_vec(), p.k);
            let n = s.prob.n;
            for i in 0..n {
                for k in 0..n {
                    df[[i, k]] = o[i * n + k];
                }
            }
            log.push(true, t, u, o);
        },
    ));
    let ncb = Cell::new(0usize);
    let cb = Box::leak(Box::new(move |it: &mut It<A>| {
        act(s.cb, it, ncb.get());
        ncb.set(ncb.get() + 1);
        log.cbs.set(ncb.get());
    }));
    let mut b = OdeIntegratorBuilder::default(
        dudt,
        Array1::from(s.u0.clone()),
        (s.t0, s.tf),
        A::make(),
        Prm { k: s.k },
    );
    if A::KIND == AlgK::Radau && s.jac != JacK::Fd {
        b = b.dfdu(dfdu);
    }
    if s.cb != Cb::None {
        b = b.callback(cb);
    }
    let mut it = apply(b, s).build();
    if let Some(t) = s.theta {
        it.opts.theta = t;
    }
    Box::new(Hold::Direct(it))
}

fn logged(s: &Scen) -> (Box<dyn Drv>, &'static Log) {
    let log: &'static Log = Box::leak(Box::new(Log::new(s.budget)));
    let d = match s.alg {
        AlgK::Dp5 => make::<DormandPrince5>(s, log),
        AlgK::Radau => make::<Radau5>(s, log),
    };
    (d, log)
}

pub fn integrator(s: &Scen) -> Box<dyn Drv> {
    logged(s).0
}

fn pairs(j: &mut J, ps: &[(f64, Vec<f64>)]) {
    j.arr();
    for (t, u) in ps {
        j.obj().key("t").num(*t).key("u").vec(u).end();
    }
    j.enda();
}

/// A run step by step: its states (if it ends within the cap).
pub fn steps(s: &Scen, cap: usize) -> Option<(Box<dyn Drv>, Vec<State>)> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut d = integrator(s);
        let mut v = vec![d.snap()];
        while v.last().unwrap().ret == "Continue" {
            if v.len() > cap {
                return None;
            }
            d.op('s');
            v.push(d.snap());
        }
        Some((d, v))
    }));
    r.unwrap_or(None)
}

/// Scenarios for driving: mostly few steps.
pub fn scenario(r: &mut Rng, id: String, alg: AlgK) -> Scen {
    let mut s = scen::random(r, id, alg, 0.25, 0.4);
    match r.below(10) {
        0 => s.setu("max_steps", 300),
        1 => s.setu("max_steps", 3000),
        2 | 3 => s.setu("max_steps", 40),
        _ => s.setu("max_steps", 1 + r.below(5)),
    }
    s.budget = 100_000;
    s
}

const KEEP: usize = 8;

/// One sequence of operations, written like "1s2o2n", as one JSON object.
pub fn drive(r: &mut Rng, id: String, ops: &str, j: &mut J) {
    let two = ops.contains('2');
    let mut ss = vec![];
    for w in 0..(if two { 2 } else { 1 }) {
        let alg = if r.chance(0.5) { AlgK::Dp5 } else { AlgK::Radau };
        ss.push(scenario(r, format!("{}-{}", id, w), alg));
    }
    if two && r.chance(0.3) {
        ss[1] = ss[0].clone();
    }
    let ops: Vec<char> = ops.chars().collect();
    j.obj().key("id").str(&id);
    j.key("what").str(&format!("{:?} {:?}", ops.iter().collect::<String>(), ss));
    phase("ref");
    let refs: Vec<_> = ss.iter().map(|s| steps(s, 3500)).collect();
    if refs.iter().any(|r| r.is_none()) {
        j.key("ref").arr().enda().key("ops").arr().enda().key("end").str("skip").end();
        return;
    }
    j.key("ref").arr();
    let mut ds = vec![];
    for q in refs {
        let (mut d, v) = q.unwrap();
        j.obj().key("len").int(v.len() as i64 - 1);
        j.key("n").ints(&v.iter().map(|x| x.n).collect::<Vec<_>>());
        j.key("x").arr();
        for x in v.iter().take(KEEP + 1) {
            x.json(j);
        }
        j.enda().key("last");
        v.last().unwrap().json(j);
        let (ts, us, _) = d.look();
        j.key("sol");
        pairs(j, &ts.iter().cloned().zip(us.iter().cloned()).collect::<Vec<_>>());
        // The states as left by the callback, which is what iterators yield.
        j.key("yt").vec(v.iter().map(|x| &x.t));
        j.key("yu").arr();
        for x in &v {
            j.vec(&x.u);
        }
        j.enda();
        j.key("cb").bool(ss[0].cb != Cb::None).end();
        ds.push(ss.remove(0));
    }
    j.enda();
    phase("ops");
    let (mut ds, logs): (Vec<_>, Vec<_>) = ds.iter().map(logged).unzip();
    j.key("ops").arr();
    let mut end = "ok";
    let mut todo: Vec<(usize, char)> = ops.chunks(2).map(|c| (c[0] as usize - '1' as usize, c[1])).collect();
    // Finish: drain the iterators, integrate what is held directly.
    for w in 0..ds.len() {
        todo.push((w, 'E'));
        todo.push((w, 'L'));
    }
    for (w, op) in todo {
        let d = &mut ds[w];
        let calls = logs[w].count.get();
        j.obj().key("w").int(w as i64 + 1).key("op").str(&op.to_string());
        let done = catch_unwind(AssertUnwindSafe(|| {
            let mut ys = vec![];
            let mut r = -1;
            match op {
                'E' if d.mode() == 'd' => drop(d.op('i')),
                'E' => {
                    while let (_, Some(y)) = d.op('n') {
                        ys.push(y);
                        if ys.len() > 5000 {
                            break;
                        }
                    }
                }
                'l' | 'L' => {}
                _ => {
                    let (a, y) = d.op(op);
                    r = a;
                    ys.extend(y);
                }
            }
            (r, ys)
        }));
        let (r, ys) = match done {
            Ok(x) => x,
            Err(_) => {
                j.key("r").int(-2).key("mode").str("g").end();
                end = "panic";
                break;
            }
        };
        j.key("r").int(r).key("mode").str(&d.mode().to_string()).key("y");
        pairs(j, &ys);
        j.key("c").int((logs[w].count.get() - calls) as i64);
        j.key("cb").int(logs[w].cbs.get() as i64);
        j.key("x");
        d.snap().json(j);
        if op == 'l' || op == 'L' {
            let (_, _, it) = d.look();
            j.key("it");
            pairs(j, &it);
            if op == 'L' {
                j.key("eat");
                let e = d.eat();
                pairs(j, &e);
            }
        }
        j.end();
    }
    j.enda().key("end").str(end).end();
}

/// A pair of runs that must correspond.
pub fn pair(r: &mut Rng, id: String, alg: AlgK, kind: &str, j: &mut J) {
    let mut a = match kind {
        "observe" => scen::random(r, id.clone(), alg, 0.3, 0.0),
        "dense" => scen::random(r, id.clone(), alg, 0.2, 0.2),
        "jac" => scen::random(r, id.clone(), alg, 0.0, 0.0),
        "units" => loop {
            let s = scen::random(r, id.clone(), alg, 0.2, 0.2);
            if s.prob.fam != Fam::Huge {
                break s;
            }
        },
        _ => scen::random(r, id.clone(), alg, 0.2, 0.2),
    };
    a.budget = 100_000;
    if a.uo.iter().any(|x| x.0 == "max_steps" && x.1 > 100) {
        a.setu("max_steps", 100);
    }
    let mut b = a.clone();
    match kind {
        "mirror" => b = a.mirrored(),
        "units" => {
            if a.jac == JacK::Fd {
                a.jac = JacK::Exact;
            }
            let exp = |r: &mut Rng| match r.below(4) {
                0 => 0,
                1 => 2 * r.below(4) as i32 - 4,
                _ => 2 * r.below(41) as i32 - 40,
            };
            let p = |k: i32| 2.0f64.powi(k);
            let (x, y) = (exp(r), exp(r));
            b = a.scaled(p(x), p(y));
        }
        "observe" => b.cb = Cb::Observe,
        "jac" => {
            // Plain controls, and tolerances fit for the problem: with others
            // small differences may decide whether the run gets stuck.
            a.fo.retain(|x| ["dtstart", "dtmax"].contains(&x.0));
            a.uo.clear();
            a.theta = None;
            let rt = r.log(1e-8, 1e-4);
            a.set("reltol", rt);
            a.set("abstol", rt * r.log(1e-4, 1e-2));
            if a.prob.fam == Fam::Robertson {
                a.set("abstol", rt * 1e-5);
            }
            a.setu("max_steps", 2000);
            b = a.clone();
            a.jac = JacK::Exact;
            b.jac = JacK::Fd;
        }
        "dense" => {
            a.setb("dense", false);
            b.setb("dense", true);
        }
        _ => {}
    }
    j.obj().key("id").str(&id).key("kind").str(kind);
    j.key("what").str(&format!("{:?}", a));
    j.key("su").num(b.prob.su).key("st").num(b.prob.st);
    phase("a");
    let x = steps(&a, 4000);
    phase("b");
    let y = steps(&b, 4000);
    j.key("ends").arr().bool(x.is_some()).bool(y.is_some()).enda();
    // Derivatives that are not numbers are never the same again.
    let fin = |v: &Vec<State>| {
        v.iter()
            .take_while(|q| a.prob.f(q.t, &q.u, a.k).iter().all(|o| o.is_finite()))
            .count()
    };
    j.key("fin").int(x.as_ref().map_or(0, |q| fin(&q.1)) as i64);
    for (k, q) in [("a", x), ("b", y)] {
        j.key(k).obj().key("x").arr();
        if let Some((mut d, v)) = q {
            for (i, s) in v.iter().enumerate() {
                if kind != "jac" || i + 1 == v.len() {
                    s.json(j);
                }
            }
            j.enda().key("o");
            d.opts(j);
            let (ts, us, _) = d.look();
            j.key("ts").vec(&ts).key("us").arr();
            for u in &us {
                j.vec(u);
            }
            j.enda();
        } else {
            j.enda();
        }
        j.end();
    }
    j.key("end").str("ok").end();
}
