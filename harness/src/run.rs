//! Runs a scenario through the public API and records what happens.
use crate::json::J;
use crate::script::Script;
use crate::scen::{AlgK, Cb, JacK, Scen, Via};
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::integrator::OdeIntegratorMutIterator;
use cyphus_diffeq::prelude::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Prm {
    pub k: f64,
}

#[derive(Clone)]
pub struct Call {
    pub jac: bool,
    pub t: f64,
    pub u: Vec<f64>,
    pub o: Vec<f64>,
}

/// Public state of an integrator.
#[derive(Clone)]
pub struct State {
    pub t: f64,
    pub dt: f64,
    pub u: Vec<f64>,
    pub tp: f64,
    pub dtp: f64,
    pub up: Vec<f64>,
    pub ret: &'static str,
    pub st: [usize; 7],
    pub n: usize,
    pub m: usize,
    pub lt: f64,
    pub lu: Vec<f64>,
    pub k: f64,
    pub tf: f64,
}

impl State {
    /// Has nothing happened in between?
    fn same(&self, o: &State) -> bool {
        self.ret == o.ret && self.n == o.n && self.st == o.st && self.t == o.t
    }
}

pub fn code(c: &OdeRetCode) -> &'static str {
    #[allow(unreachable_patterns)]
    match c {
        OdeRetCode::Continue => "Continue",
        OdeRetCode::Success => "Success",
        OdeRetCode::MaxIters => "MaxIters",
        OdeRetCode::DtLessThanMin => "DtLessThanMin",
        OdeRetCode::Stiff => "Stiff",
        OdeRetCode::SingularMatrix => "SingularMatrix",
        OdeRetCode::Failure => "Failure",
        _ => "Other",
    }
}

pub fn stats(s: &OdeStatistics) -> [usize; 7] {
    [
        s.steps,
        s.function_evals,
        s.jacobian_evals,
        s.decompositions,
        s.linear_solves,
        s.accepts,
        s.rejects,
    ]
}

pub fn snap<A: OdeAlgorithm>(i: &OdeIntegrator<Prm, A>) -> State {
    State {
        t: i.t,
        dt: i.dt,
        u: i.u.to_vec(),
        tp: i.tprev,
        dtp: i.dtprev,
        up: i.uprev.to_vec(),
        ret: code(&i.sol.retcode),
        st: stats(&i.stats),
        n: i.sol.ts.len(),
        m: i.sol.us.len(),
        lt: *i.sol.ts.last().unwrap_or(&f64::NAN),
        lu: i.sol.us.last().map(|u| u.to_vec()).unwrap_or_default(),
        k: i.params.k,
        tf: i.tfinal,
    }
}

impl State {
    pub fn json(&self, j: &mut J) {
        j.obj().key("t").num(self.t).key("dt").num(self.dt);
        j.key("u").vec(&self.u).key("tp").num(self.tp);
        j.key("dtp").num(self.dtp).key("up").vec(&self.up);
        j.key("ret").str(self.ret).key("st").ints(&self.st);
        j.key("n").int(self.n as i64).key("m").int(self.m as i64);
        j.key("lt").num(self.lt).key("lu").vec(&self.lu);
        j.key("k").num(self.k).key("tf").num(self.tf);
        j.end();
    }
}

fn calls_json(j: &mut J, cs: &[Call]) {
    j.arr();
    for c in cs {
        j.obj().key("k").str(if c.jac { "j" } else { "f" });
        j.key("t").num(c.t).key("u").vec(&c.u).key("o").vec(&c.o).end();
    }
    j.enda();
}

pub fn opts_json(j: &mut J, o: &OdeIntegratorOpts) {
    j.obj();
    for (k, v) in [
        ("reltol", o.reltol),
        ("abstol", o.abstol),
        ("dtstart", o.dtstart),
        ("dtmax", o.dtmax),
        ("safe", o.safe),
        ("facr", o.facr),
        ("facl", o.facl),
        ("quot1", o.quot1),
        ("quot2", o.quot2),
        ("beta", o.beta),
        ("fnewt", o.fnewt),
        ("theta", o.theta),
    ] {
        j.key(k).num(v);
    }
    for (k, v) in [
        ("max_steps", o.max_steps),
        ("max_newt_iter", o.max_newt_iter),
        ("max_stiff", o.max_stiff),
    ] {
        j.key(k).int(v as i64);
    }
    for (k, v) in [
        ("dense", o.dense),
        ("modern_pred", o.modern_pred),
        ("use_ext_col", o.use_ext_col),
        ("hess", o.hess),
    ] {
        j.key(k).bool(v);
    }
    j.end();
}

/// Logs calls of the user functions and enforces the call budget.
pub struct Log {
    pub calls: RefCell<Vec<Call>>,
    pub keep: Cell<bool>,
    pub count: Cell<usize>,
    /// calls of the callback
    pub cbs: Cell<usize>,
    pub budget: usize,
}

pub const BUDGET: &str = "VH-BUDGET";

impl Log {
    pub fn new(budget: usize) -> Log {
        Log {
            calls: RefCell::new(vec![]),
            keep: Cell::new(true),
            count: Cell::new(0),
            cbs: Cell::new(0),
            budget,
        }
    }
    pub fn push(&self, jac: bool, t: f64, u: ArrayView1<f64>, o: Vec<f64>) {
        self.count.set(self.count.get() + 1);
        if self.count.get() > self.budget {
            panic!("{}", BUDGET);
        }
        if self.keep.get() {
            self.calls.borrow_mut().push(Call { jac, t, u: u.to_vec(), o });
        }
    }
    pub fn take(&self) -> Vec<Call> {
        std::mem::take(&mut *self.calls.borrow_mut())
    }
}

pub fn apply<'a, A: OdeAlgorithm>(
    mut b: OdeIntegratorBuilder<'a, Prm, A>,
    s: &Scen,
) -> OdeIntegratorBuilder<'a, Prm, A> {
    for (k, v) in &s.fo {
        b = match *k {
            "reltol" => b.reltol(*v),
            "abstol" => b.abstol(*v),
            "dtstart" => b.dtstart(*v),
            "dtmax" => b.dtmax(*v),
            "safe" => b.safe(*v),
            "facr" => b.facr(*v),
            "facl" => b.facl(*v),
            "quot1" => b.quot1(*v),
            "quot2" => b.quot2(*v),
            "beta" => b.beta(*v),
            "fnewt" => b.fnewt(*v),
            _ => unreachable!(),
        }
    }
    for (k, v) in &s.uo {
        b = match *k {
            "max_steps" => b.max_steps(*v),
            "max_newt_iter" => b.max_newt_iter(*v),
            "max_stiff" => b.max_stiff(*v),
            _ => unreachable!(),
        }
    }
    for (k, v) in &s.bo {
        b = match *k {
            "dense" => b.dense(*v),
            "modern_pred" => b.modern_pred(*v),
            "use_ext_col" => b.use_ext_col(*v),
            "hess" => b.hess(*v),
            _ => unreachable!(),
        }
    }
    b
}

/// The Jacobian handed to Radau5.
pub fn user_jac(s: &Scen, t: f64, u: &[f64], k: f64) -> Vec<f64> {
    let n = s.prob.n;
    match s.jac {
        JacK::Zero => vec![0.0; n * n],
        JacK::Wrong => {
            let mut m = s.prob.jac(t, u, k);
            let c = if s.prob.mirror { -0.3 } else { 0.3 } / s.prob.st;
            for (i, x) in m.iter_mut().enumerate() {
                *x = *x * 0.5 + c * (i as f64);
            }
            m
        }
        _ => s.prob.jac(t, u, k),
    }
}

pub fn act<A: OdeAlgorithm>(cb: Cb, it: &mut OdeIntegrator<Prm, A>, step: usize) {
    match cb {
        Cb::None | Cb::Observe => {}
        Cb::Kick(m, f) => {
            if step == m {
                it.u.iter_mut().for_each(|x| *x *= f);
            }
        }
        Cb::Param(f) => it.params.k *= f,
        Cb::Stop(m, c) => {
            if step == m {
                it.sol.retcode = match c {
                    0 => OdeRetCode::Success,
                    1 => OdeRetCode::Failure,
                    2 => OdeRetCode::Stiff,
                    _ => OdeRetCode::MaxIters,
                };
            }
        }
        Cb::Dt(m, f) => {
            if step % m == 0 {
                it.dt *= f;
            }
        }
        Cb::Rest(m, f) => {
            if step == m {
                it.dt = (it.tfinal - it.t) * f;
            }
        }
        Cb::Final(m, f) => {
            if step == m && it.sol.retcode == OdeRetCode::Continue {
                it.tfinal = it.t + (it.tfinal - it.t) * f;
            }
        }
        Cb::Damp(f) => it.u.iter_mut().for_each(|x| *x *= f),
    }
}

const C1: f64 = 0.15505102572168219018;
const C2: f64 = 0.64494897427831780982;

fn radau_a() -> [[f64; 3]; 3] {
    let q = 6f64.sqrt();
    [
        [(88.0 - 7.0 * q) / 360.0, (296.0 - 169.0 * q) / 1800.0, (-2.0 + 3.0 * q) / 225.0],
        [(296.0 + 169.0 * q) / 1800.0, (88.0 + 7.0 * q) / 360.0, (-2.0 - 3.0 * q) / 225.0],
        [(16.0 - q) / 36.0, (16.0 + q) / 36.0, 1.0 / 9.0],
    ]
}

pub fn gauss(a: &mut Vec<Vec<f64>>, b: &mut Vec<f64>) -> bool {
    let n = b.len();
    for k in 0..n {
        let p = (k..n)
            .max_by(|x, y| a[*x][k].abs().partial_cmp(&a[*y][k].abs()).unwrap_or(std::cmp::Ordering::Equal))
            .unwrap();
        if !(a[p][k].abs() > 0.0) {
            return false;
        }
        a.swap(k, p);
        b.swap(k, p);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            if f != 0.0 {
                for j in k..n {
                    a[i][j] -= f * a[k][j];
                }
                b[i] -= f * b[k];
            }
        }
    }
    for k in (0..n).rev() {
        for j in k + 1..n {
            b[k] -= a[k][j] * b[j];
        }
        b[k] /= a[k][k];
    }
    true
}

/// Solves the Radau IIA collocation system with full Newton from the given
/// stage values. The result is only a witness; the specification checks it.
fn collocation(s: &Scen, t: f64, u: &[f64], h: f64, k: f64, start: Option<[Vec<f64>; 3]>) -> Option<Vec<Vec<f64>>> {
    let n = u.len();
    let a = radau_a();
    let cs = [C1, C2, 1.0];
    let mut z: Vec<Vec<f64>> = match start {
        Some(st) => st
            .iter()
            .map(|x| x.iter().zip(u).map(|(p, q)| p - q).collect())
            .collect(),
        None => vec![vec![0.0; n]; 3],
    };
    for it in 0..30 {
        let us: Vec<Vec<f64>> = z.iter().map(|zi| zi.iter().zip(u).map(|(p, q)| p + q).collect()).collect();
        let fs: Vec<Vec<f64>> = (0..3).map(|i| s.prob.f(t + cs[i] * h, &us[i], k)).collect();
        let js: Vec<Vec<f64>> = (0..3).map(|i| s.prob.jac(t + cs[i] * h, &us[i], k)).collect();
        let w = 3 * n;
        let mut m = vec![vec![0.0; w]; w];
        let mut b = vec![0.0; w];
        for p in 0..3 {
            for i in 0..n {
                m[p * n + i][p * n + i] += 1.0;
                b[p * n + i] = -z[p][i];
                for q in 0..3 {
                    b[p * n + i] += h * a[p][q] * fs[q][i];
                    for l in 0..n {
                        m[p * n + i][q * n + l] -= h * a[p][q] * js[q][i * n + l];
                    }
                }
            }
        }
        if !b.iter().all(|x| x.is_finite()) || !gauss(&mut m, &mut b) {
            return None;
        }
        let mut small = true;
        for p in 0..3 {
            for i in 0..n {
                z[p][i] += b[p * n + i];
                if b[p * n + i].abs() > 1e-13 * (u[i].abs() + z[p][i].abs()) + 1e-300 {
                    small = false;
                }
            }
        }
        if small || it == 29 {
            let us: Vec<Vec<f64>> = z.iter().map(|zi| zi.iter().zip(u).map(|(p, q)| p + q).collect()).collect();
            let fs: Vec<Vec<f64>> = (0..3).map(|i| s.prob.f(t + cs[i] * h, &us[i], k)).collect();
            let mut r = z.clone();
            r.extend(fs);
            if r.iter().all(|v| v.iter().all(|x| x.is_finite())) {
                return Some(r);
            }
            return None;
        }
    }
    None
}

/// Arguments of the last Newton iteration before an accepted step.
fn last_stages(calls: &[Call], t: f64, h: f64) -> Option<[Vec<f64>; 3]> {
    let f: Vec<&Call> = calls.iter().filter(|c| !c.jac).collect();
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * h.abs() + 4.0 * f64::EPSILON * a.abs();
    for i in (2..f.len()).rev() {
        if near(f[i].t, t + h) && near(f[i - 1].t, t + C2 * h) && near(f[i - 2].t, t + C1 * h) {
            return Some([f[i - 2].u.clone(), f[i - 1].u.clone(), f[i].u.clone()]);
        }
    }
    None
}

/// Hook access that differs between the algorithms.
pub trait Alg: OdeAlgorithm + Sized {
    const KIND: AlgK;
    fn make() -> Self;
    fn dense(i: &mut OdeIntegrator<Prm, Self>, t: f64) -> Option<Vec<f64>>;
}
impl Alg for DormandPrince5 {
    const KIND: AlgK = AlgK::Dp5;
    fn make() -> Self {
        DormandPrince5
    }
    #[cfg(verif_hooks)]
    fn dense(i: &mut OdeIntegrator<Prm, Self>, t: f64) -> Option<Vec<f64>> {
        Some(cyphus_diffeq::verif_hooks::dp5_dense(i, t).to_vec())
    }
    #[cfg(not(verif_hooks))]
    fn dense(_i: &mut OdeIntegrator<Prm, Self>, _t: f64) -> Option<Vec<f64>> {
        None
    }
}
impl Alg for Radau5 {
    const KIND: AlgK = AlgK::Radau;
    fn make() -> Self {
        Radau5
    }
    #[cfg(verif_hooks)]
    fn dense(i: &mut OdeIntegrator<Prm, Self>, t: f64) -> Option<Vec<f64>> {
        Some(cyphus_diffeq::verif_hooks::radau_dense(i, t).to_vec())
    }
    #[cfg(not(verif_hooks))]
    fn dense(_i: &mut OdeIntegrator<Prm, Self>, _t: f64) -> Option<Vec<f64>> {
        None
    }
}

pub fn head_json(j: &mut J, s: &Scen, script: &str) {
    j.key("id").str(&s.id);
    j.key("alg").str(if s.alg == AlgK::Dp5 { "dp5" } else { "radau" });
    j.key("what").str(&format!("{:?} {}", s, script));
    j.key("dim").int(s.prob.n as i64);
    j.key("t0").num(s.t0).key("tf").num(s.tf);
    j.key("dir").int(if s.tf > s.t0 { 1 } else { -1 });
    j.key("u0").vec(&s.u0);
    j.key("cb").bool(s.cb != Cb::None);
    j.key("pure").bool(true);
    j.key("jac").str(match (s.alg, s.jac) {
        (AlgK::Dp5, _) => "none",
        (_, JacK::Fd) => "fd",
        (_, JacK::Exact) => "exact",
        (_, JacK::Wrong) => "wrong",
        (_, JacK::Zero) => "zero",
    });
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

pub const DENSE_AT: [f64; 7] = [0.0, 1.0, C1, C2, 0.5, 0.25, 0.9];

enum Held<'a, A: Alg> {
    Plain(OdeIntegrator<'a, Prm, A>),
    Borrowed(OdeIntegratorMutIterator<'a, Prm, A>),
    Gone,
}

impl<'a, A: Alg> Held<'a, A> {
    fn it(&mut self) -> &mut OdeIntegrator<'a, Prm, A> {
        match self {
            Held::Plain(i) => i,
            Held::Borrowed(w) => w.integrator,
            Held::Gone => unreachable!(),
        }
    }
}

/// What is known about one step.
struct Rec {
    pre: State,
    post: State,
    calls: Vec<Call>,
    /// States before and after each call of the callback.
    cbs: Vec<(State, State)>,
    /// Value of `step`, if that was called.
    r: i64,
    via: Via,
    yields: Option<(f64, Vec<f64>)>,
}

fn step_json(j: &mut J, s: &Scen, alg: AlgK, scripted: bool, r: &Rec, dense: &[(f64, Vec<f64>)], k1: &[f64]) {
    let (e, y) = match r.cbs.first() {
        // Should the callback be called more than once, what the last one left counts.
        Some((e, _)) => (e, &r.cbs[r.cbs.len() - 1].1),
        None => (&r.post, &r.post),
    };
    j.obj().key("c");
    // Very long retry sequences are cut in the middle of nowhere otherwise;
    // the count stays exact.
    let long = r.calls.len() > 1500;
    calls_json(j, if long { &[] } else { &r.calls });
    j.key("nc").int(r.calls.len() as i64);
    j.key("long").bool(long);
    j.key("broken").bool(false);
    j.key("cbn").int(r.cbs.len() as i64);
    j.key("via").str(match r.via {
        Via::Step => "step",
        Via::Next | Via::Borrow => "next",
        Via::Integrate => "integrate",
    });
    j.key("r").int(r.r);
    if let Some((t, u)) = &r.yields {
        j.key("yt").num(*t).key("yu").vec(u);
    }
    j.key("e");
    e.json(j);
    if !r.cbs.is_empty() {
        j.key("y");
        y.json(j);
    }
    j.key("x");
    r.post.json(j);
    let acc = e.n > r.pre.n && r.pre.ret == "Continue";
    if acc && alg == AlgK::Radau && !scripted && s.prob.fam != crate::prob::Fam::Noise {
        let st = last_stages(&r.calls, r.pre.t, e.dtp);
        if let Some(w) = collocation(s, r.pre.t, &r.pre.u, e.dtp, r.pre.k, st) {
            use crate::prob::Fam::*;
            j.key("lin").bool(matches!(s.prob.fam, Linear | Osc | Poly | Const | Jump | Prothero | Chain));
            j.key("w").arr();
            for v in &w {
                j.vec(v);
            }
            j.enda();
        }
    }
    if !dense.is_empty() {
        j.key("d").arr();
        for (t, v) in dense {
            j.obj().key("t").num(*t).key("v").vec(v).end();
        }
        j.enda();
    }
    j.key("k1").vec(k1);
    j.end();
}

const CUT: &str = "verif: enough steps";

/// Runs one scenario step by step and appends its record as one JSON object.
pub fn trace<A: Alg>(s: &Scen, script: Option<&RefCell<Script>>, j: &mut J) {
    let log = Log::new(s.budget);
    let s1 = s.clone();
    let dudt = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Prm| {
        let o = match script {
            Some(x) => x.borrow_mut().f(t, &u.to_vec()),
            None => s1.prob.f(t, &u.to_vec(), p.k),
        };
        for i in 0..o.len() {
            du[i] = o[i];
        }
        log.push(false, t, u, o);
    };
    let dfdu = |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &Prm| {
        let o = match script {
            Some(x) => x.borrow_mut().jac(t),
            None => user_jac(&s1, t, &u.to_vec(), p.k),
        };
        let n = s1.prob.n;
        for i in 0..n {
            for k in 0..n {
                df[[i, k]] = o[i * n + k];
            }
        }
        log.push(true, t, u, o);
    };
    let entries: RefCell<Vec<(State, State, Vec<Call>)>> = RefCell::new(vec![]);
    let whole = Cell::new(false);
    let ncb = Cell::new(0usize);
    let cb = |it: &mut OdeIntegrator<Prm, A>| {
        let before = snap(it);
        act(s1.cb, it, ncb.get());
        if let Some(x) = script {
            if let Some((ret, dt, change)) = x.borrow_mut().callback() {
                if it.sol.retcode == OdeRetCode::Continue {
                    it.dt = it.tdir * dt;
                    if ret == "Failure" {
                        it.sol.retcode = OdeRetCode::Failure;
                    }
                }
                if change {
                    it.u.iter_mut().for_each(|x| *x = *x * 1.25 + 0.5);
                }
            }
        }
        let calls = if whole.get() { log.take() } else { vec![] };
        entries.borrow_mut().push((before, snap(it), calls));
        ncb.set(ncb.get() + 1);
        if whole.get() && ncb.get() >= s1.cap {
            panic!("{}", CUT);
        }
    };

    j.obj();
    head_json(j, s, &script.map(|x| x.borrow().text.clone()).unwrap_or_default());
    let built = catch_unwind(AssertUnwindSafe(|| {
        let mut b = OdeIntegratorBuilder::default(
            &dudt,
            Array1::from(s.u0.clone()),
            (s.t0, s.tf),
            A::make(),
            Prm { k: s.k },
        );
        if A::KIND == AlgK::Radau && s.jac != JacK::Fd {
            b = b.dfdu(&dfdu);
        }
        if s.cb != Cb::None {
            b = b.callback(&cb);
        }
        let mut it = apply(b, s).build();
        if let Some(t) = s.theta {
            it.opts.theta = t;
        }
        it
    }));
    let it = match built {
        Ok(it) => it,
        Err(e) => {
            j.key("end").str("buildpanic").key("msg").str(&panic_text(e));
            j.end();
            return;
        }
    };
    j.key("o");
    opts_json(j, &it.opts);
    j.key("b");
    calls_json(j, &log.take());
    j.key("init");
    snap(&it).json(j);
    let k1 = |x: &State| match script {
        Some(x) => x.borrow().here(),
        None => s.prob.f(x.t, &x.u, x.k),
    };
    if let Some(x) = script {
        let mut x = x.borrow_mut();
        let o = &it.opts;
        x.abstol = o.abstol;
        x.reltol = o.reltol;
        x.safe = o.safe;
        x.beta = o.beta;
        x.nit = o.max_newt_iter;
        x.fnewt = o.fnewt;
        x.ext = o.use_ext_col;
    }
    j.key("k1").vec(&k1(&snap(&it)));
    j.key("steps").arr();
    let mut end = "ok";
    let mut msg = String::new();
    let mut count = 0;
    let mut after = 0;
    let mut held = Held::Plain(it);
    if s.via == Via::Borrow {
        if let Held::Plain(i) = std::mem::replace(&mut held, Held::Gone) {
            held = Held::Borrowed(Box::leak(Box::new(i)).into_iter());
        }
    }
    loop {
        let pre = snap(held.it());
        let via = if after > 0 || pre.ret != "Continue" { Via::Step } else { s.via };
        if pre.ret != "Continue" {
            after += 1;
            if after > 3 {
                break;
            }
        } else if count >= s.cap {
            end = "cut";
            break;
        }
        count += 1;
        if let Some(x) = script {
            let i = held.it();
            x.borrow_mut().begin(i.t, &i.u.to_vec(), i.dt, i.tfinal);
        }
        whole.set(via == Via::Integrate);
        let r = match via {
            Via::Next => {
                // The consuming iterator gives the integrator back.
                let i = match std::mem::replace(&mut held, Held::Gone) {
                    Held::Plain(i) => i,
                    _ => unreachable!(),
                };
                let mut w = i.into_iter();
                let r = catch_unwind(AssertUnwindSafe(|| w.next()));
                held = Held::Plain(w.integrator);
                r.map(|y| (-1, y.map(|(t, u)| (t, u.to_vec()))))
            }
            Via::Borrow => {
                let w = match &mut held {
                    Held::Borrowed(w) => w,
                    _ => unreachable!(),
                };
                let r = catch_unwind(AssertUnwindSafe(|| w.next()));
                r.map(|y| (-1, y.map(|(t, u)| (t, u.to_vec()))))
            }
            _ => {
                let i = held.it();
                catch_unwind(AssertUnwindSafe(|| {
                    if after == 2 || via == Via::Integrate {
                        i.integrate();
                        (-1, None)
                    } else {
                        (i.step().map(|x| x as i64).unwrap_or(-1), None)
                    }
                }))
            }
        };
        let calls = log.take();
        let cbs: Vec<_> = std::mem::take(&mut *entries.borrow_mut());
        if via == Via::Integrate {
            // One record for each call of the callback that saw evaluations.
            let mut rs: Vec<Rec> = vec![];
            let mut pre = pre;
            for (before, left, cs) in cbs {
                if cs.is_empty() && !rs.is_empty() && before.same(&pre) {
                    let q = rs.last_mut().unwrap();
                    q.cbs.push((before, left.clone()));
                    q.post = left.clone();
                } else {
                    rs.push(Rec { pre, post: left.clone(), calls: cs, cbs: vec![(before, left.clone())], r: -1, via, yields: None });
                }
                pre = left;
            }
            if r.is_ok() {
                let post = snap(held.it());
                match rs.last_mut() {
                    Some(q) if calls.is_empty() => q.post = post,
                    _ => rs.push(Rec { pre, post, calls, cbs: vec![], r: -1, via, yields: None }),
                }
            }
            for q in &rs {
                step_json(j, s, A::KIND, false, q, &[], &k1(&q.post));
            }
            if let Err(e) = r {
                msg = panic_text(e);
                if msg.contains(CUT) {
                    msg.clear();
                    end = "cut";
                } else {
                    end = if msg.contains(BUDGET) { "budget" } else { "panic" };
                    j.obj().key("c").arr().enda().key("broken").bool(true).end();
                }
                break;
            }
            continue;
        }
        match r {
            Err(e) => {
                msg = panic_text(e);
                end = if msg.contains(BUDGET) { "budget" } else { "panic" };
                j.obj().key("c").arr().enda().key("nc").int(calls.len() as i64);
                j.key("broken").bool(true).end();
                break;
            }
            Ok((r, yields)) => {
                let i = held.it();
                let post = snap(i);
                if let Some(x) = script {
                    x.borrow_mut().end(post.n > pre.n);
                }
                let cbs = cbs.into_iter().map(|(a, b, _)| (a, b)).collect();
                let acc = post.n > pre.n && pre.ret == "Continue";
                let mut vs = vec![];
                if acc && i.opts.dense && s.cb == Cb::None {
                    let (a, h) = (i.tprev, i.dtprev);
                    for th in DENSE_AT {
                        let t = if th == 1.0 { i.t } else { a + th * h };
                        let q = catch_unwind(AssertUnwindSafe(|| A::dense(i, t)));
                        match q {
                            Ok(Some(v)) => vs.push((t, v)),
                            Ok(None) => {}
                            // Nothing for a panic.
                            Err(_) => vs.push((t, vec![])),
                        }
                    }
                }
                let q = Rec { pre, post, calls, cbs, r, via, yields };
                step_json(j, s, A::KIND, script.is_some(), &q, &vs, &k1(&q.post));
            }
        }
    }
    let it = held.it();
    j.enda();
    j.key("end").str(end).key("msg").str(&msg);
    if let Some(x) = script {
        j.key("kept").bool(x.borrow().kept);
    }
    j.key("ts").vec(&it.sol.ts);
    j.key("us").arr();
    for u in &it.sol.us {
        j.vec(u);
    }
    j.enda();
    j.end();
}
