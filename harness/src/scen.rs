//! Scenarios: a problem, options and a callback, and their random generation.
use crate::prob::{Fam, Prob};
use crate::rng::Rng;
use crate::script::{parse, Act, Script};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum AlgK {
    Dp5,
    Radau,
}

/// How Radau5 gets its Jacobian.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum JacK {
    Fd,
    Exact,
    Wrong,
    Zero,
}

/// What the callback does.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cb {
    None,
    Observe,
    /// multiply the state by a factor at the given step
    Kick(usize, f64),
    /// multiply the parameter by a factor after each step
    Param(f64),
    /// end the integration with a code at the given step
    Stop(usize, u8),
    /// multiply dt by a factor every given number of steps
    Dt(usize, f64),
    /// damp the state a little after each step
    Damp(f64),
    /// at the given step set dt to a multiple of what is left
    Rest(usize, f64),
    /// at the given step multiply the distance of the final time by a factor
    Final(usize, f64),
}

/// How the integrator is driven up to its end.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Via {
    Step,
    Next,
    Borrow,
    /// In one call; the callback separates the steps.
    Integrate,
}

#[derive(Clone, Debug)]
pub struct Scen {
    pub id: String,
    pub alg: AlgK,
    pub prob: Prob,
    pub k: f64,
    pub u0: Vec<f64>,
    pub t0: f64,
    pub tf: f64,
    pub jac: JacK,
    pub cb: Cb,
    pub via: Via,
    pub theta: Option<f64>,
    pub fo: Vec<(&'static str, f64)>,
    pub uo: Vec<(&'static str, usize)>,
    pub bo: Vec<(&'static str, bool)>,
    /// steps to record
    pub cap: usize,
    /// right-hand-side calls allowed before the run counts as endless
    pub budget: usize,
}

impl Scen {
    pub fn f(&self, name: &str) -> Option<f64> {
        self.fo.iter().find(|x| x.0 == name).map(|x| x.1)
    }
    pub fn set(&mut self, name: &'static str, v: f64) {
        self.fo.retain(|x| x.0 != name);
        self.fo.push((name, v));
    }
    pub fn setu(&mut self, name: &'static str, v: usize) {
        self.uo.retain(|x| x.0 != name);
        self.uo.push((name, v));
    }
    pub fn setb(&mut self, name: &'static str, v: bool) {
        self.bo.retain(|x| x.0 != name);
        self.bo.push((name, v));
    }
    pub fn mirrored(&self) -> Scen {
        let mut s = self.clone();
        s.id = format!("{}m", s.id);
        s.t0 = -s.t0;
        s.tf = -s.tf;
        s.prob.mirror = !s.prob.mirror;
        s
    }
    fn get(&self, name: &str, default: f64) -> f64 {
        self.fo.iter().rev().find(|x| x.0 == name).map_or(default, |x| x.1)
    }
    /// The same problem in other units of the states and of time.
    pub fn scaled(&self, su: f64, st: f64) -> Scen {
        let mut s = self.clone();
        s.id = format!("{}u", s.id);
        s.u0.iter_mut().for_each(|x| *x *= su);
        s.t0 *= st;
        s.tf *= st;
        s.prob.su *= su;
        s.prob.st *= st;
        s.set("abstol", su * self.get("abstol", 1e-7));
        s.set("dtstart", st * self.get("dtstart", 1e-6));
        if self.fo.iter().any(|x| x.0 == "dtmax") {
            s.set("dtmax", st * self.get("dtmax", 0.0));
        }
        s
    }
}

pub fn prob(r: &mut Rng, fam: Fam, n: usize, t0: f64, tf: f64) -> (Prob, Vec<f64>) {
    let n = match fam {
        Fam::Vdp => 2,
        Fam::Robertson => 3,
        _ => n,
    };
    let len = (tf - t0).abs();
    let (a, b) = (t0.min(tf), t0.max(tf));
    let mut u0: Vec<f64> = (0..n)
        .map(|_| match r.below(6) {
            0 => 0.0,
            1 => -r.log(1e-3, 1e2),
            2 => r.log(1e-3, 1e2),
            3 => 1.0,
            _ => r.range(-2.0, 2.0),
        })
        .collect();
    let c: Vec<f64> = match fam {
        Fam::Linear => {
            let mut c: Vec<f64> = (0..n * n).map(|_| r.range(-2.0, 2.0)).collect();
            for i in 0..n {
                c[i * n + i] -= if n > 6 { (n as f64).sqrt() } else { 2.0 };
            }
            for _ in 0..n {
                c.push(r.range(-1.0, 1.0));
            }
            c.push(r.range(0.1, 5.0));
            c
        }
        Fam::Osc => (0..n).map(|_| r.log(0.1, 20.0) / len.max(1.0)).collect(),
        Fam::Vdp => vec![r.log(0.1, 1e5)],
        Fam::Poly => (0..1 + r.below(7)).map(|_| r.range(-1.0, 1.0)).collect(),
        Fam::Const => (0..n)
            .map(|_| if r.chance(0.3) { 0.0 } else { r.range(-2.0, 2.0) })
            .collect(),
        Fam::Blowup => (0..n).map(|_| r.range(0.5, 2.0)).collect(),
        Fam::Jump => vec![r.range(0.5, 3.0), r.log(0.5, 30.0) / len],
        Fam::Noise => vec![r.log(1e-6, 1e3), if r.chance(0.5) { 0.0 } else { r.range(0.1, 3.0) }],
        Fam::NanWindow | Fam::InfWindow | Fam::Huge => {
            let m = if r.chance(0.15) { a - 1.0 } else { r.range(a, b) };
            let w = if r.chance(0.4) { 2.0 * len } else { r.log(1e-6, 0.3) * len };
            vec![m, m + w, if r.chance(0.5) { 1.0 } else { 0.0 }]
        }
        Fam::Prothero => {
            let mut c: Vec<f64> = (0..n).map(|_| -r.log(1.0, 1e8)).collect();
            for _ in 0..n {
                c.push(r.range(0.2, 2.0) / len.max(1.0));
            }
            if r.chance(0.7) {
                for i in 0..n {
                    u0[i] = (c[n + i] * t0).cos();
                }
            }
            c
        }
        Fam::Robertson => {
            u0 = vec![1.0, 0.0, 0.0];
            vec![]
        }
        Fam::Sqrt => {
            u0 = (0..n).map(|_| r.range(0.1, 3.0)).collect();
            vec![]
        }
        Fam::Chain => {
            let mut c: Vec<f64> = (0..n).map(|_| r.log(0.1, 1e4)).collect();
            c.push(r.range(0.2, 3.0) / len.max(1.0));
            c
        }
        Fam::Logistic => vec![],
    };
    if fam == Fam::Logistic {
        for x in u0.iter_mut() {
            *x = x.abs().min(3.0);
        }
    }
    (Prob { fam, n, c, mirror: false, su: 1.0, st: 1.0 }, u0)
}

pub const SMOOTH: &[Fam] = &[
    Fam::Linear, Fam::Linear, Fam::Osc, Fam::Osc, Fam::Logistic, Fam::Vdp, Fam::Poly, Fam::Const,
    Fam::Prothero, Fam::Chain,
];
pub const STIFF: &[Fam] = &[
    Fam::Prothero, Fam::Chain, Fam::Vdp, Fam::Robertson, Fam::Linear, Fam::Osc, Fam::Logistic,
    Fam::Poly, Fam::Const,
];
pub const ROUGH: &[Fam] = &[
    Fam::Blowup, Fam::Jump, Fam::Noise, Fam::NanWindow, Fam::InfWindow, Fam::Sqrt, Fam::Huge,
];

/// A random scenario. `rough` is the share of badly behaved problems, `cbs`
/// the share with a callback.
pub fn random(r: &mut Rng, id: String, alg: AlgK, rough: f64, cbs: f64) -> Scen {
    sized(r, id, alg, rough, cbs, &[1, 1, 2, 2, 3, 4, 5, 6])
}

fn sized(r: &mut Rng, id: String, alg: AlgK, rough: f64, cbs: f64, dims: &[usize]) -> Scen {
    let n = *r.pick(dims);
    let t0 = match r.below(6) {
        0 | 1 => 0.0,
        2 => r.range(-3.0, 3.0),
        3 => r.range(-100.0, 100.0),
        4 => 1.0,
        _ => -r.log(0.01, 10.0),
    };
    let len = r.log(0.05, 20.0);
    let tf = if r.chance(0.35) { t0 - len } else { t0 + len };
    let back = tf < t0;
    let is_rough = r.chance(rough);
    let fam = *if is_rough {
        r.pick(ROUGH)
    } else if alg == AlgK::Radau {
        r.pick(STIFF)
    } else {
        r.pick(SMOOTH)
    };
    let (mut prob, u0) = prob(r, fam, n, t0, tf);
    let mut k = if r.chance(0.5) { 1.0 } else { r.range(0.3, 2.0) };
    if back && !is_rough {
        // Keep the problem decaying in the direction of integration.
        match fam {
            Fam::Linear | Fam::Prothero | Fam::Chain | Fam::Osc | Fam::Logistic => k = -k,
            Fam::Vdp => {
                prob.c[0] = prob.c[0].min(20.0);
            }
            _ => {}
        }
    }
    if alg == AlgK::Dp5 {
        // Keep the number of steps moderate.
        let m = 60.0 / len;
        match fam {
            Fam::Prothero => (0..prob.n).for_each(|i| prob.c[i] = prob.c[i].max(-m)),
            Fam::Chain => (0..prob.n).for_each(|i| prob.c[i] = prob.c[i].min(m)),
            Fam::Vdp => prob.c[0] = prob.c[0].min(m),
            _ => {}
        }
    }
    let mut s = Scen {
        id,
        alg,
        prob,
        k,
        u0,
        t0,
        tf,
        jac: match r.below(10) {
            0 | 1 | 2 => JacK::Fd,
            9 => JacK::Wrong,
            8 => JacK::Zero,
            _ => JacK::Exact,
        },
        cb: Cb::None,
        via: Via::Step,
        theta: None,
        fo: vec![],
        uo: vec![],
        bo: vec![],
        cap: 60,
        budget: 400_000,
    };
    if s.jac == JacK::Wrong && r.chance(0.7) {
        s.jac = JacK::Exact;
    }
    let e = r.range(-9.0, -2.0);
    let rt = (10f64).powf(e);
    s.set("reltol", rt);
    s.set("abstol", rt * r.log(1e-4, 10.0));
    match r.below(5) {
        0 => s.set("dtstart", len * r.log(1e-4, 5.0)),
        1 => s.set("dtstart", len * 0.9),
        2 => s.set("dtstart", len * r.log(1e-6, 0.1) * if r.chance(0.3) { -1.0 } else { 1.0 }),
        _ => {}
    }
    if r.chance(0.3) {
        s.set("dtmax", len * r.log(0.02, 3.0));
    }
    if r.chance(0.3) {
        s.setu("max_steps", 1 + r.below(30));
    } else {
        s.setu("max_steps", 2000);
    }
    if r.chance(0.3) {
        s.setu("max_stiff", *r.pick(&[1, 2, 3, 7]));
    }
    if r.chance(0.5) {
        s.setb("dense", true);
    }
    if r.chance(0.25) {
        s.set("safe", r.range(0.5, 0.98));
    }
    if alg == AlgK::Dp5 {
        if r.chance(0.3) {
            s.set("beta", *r.pick(&[0.0, 0.02, 0.08, 0.1]));
        }
        if r.chance(0.25) {
            s.set("facl", r.range(0.1, 0.9));
            s.set("facr", r.range(1.05, 20.0));
        }
    } else {
        if r.chance(0.25) {
            s.set("facl", r.range(1.1, 10.0));
            s.set("facr", r.range(0.05, 0.95));
        }
        if r.chance(0.3) {
            s.setb("modern_pred", false);
        }
        if r.chance(0.3) {
            s.setb("use_ext_col", false);
        }
        if r.chance(0.15) {
            s.setb("hess", true);
        }
        if r.chance(0.2) {
            s.set("quot1", r.range(0.8, 1.0));
            s.set("quot2", r.range(1.05, 2.5));
        }
        if r.chance(0.2) {
            s.setu("max_newt_iter", 1 + r.below(12));
        }
        if r.chance(0.2) {
            s.set("fnewt", r.log(1e-5, 1e-1));
        }
        if r.chance(0.2) {
            s.theta = Some(*r.pick(&[-1.0, 0.0, 0.01, 0.2, 0.9]));
        }
    }
    if r.chance(cbs) {
        let m = r.below(8);
        s.cb = match r.below(10) {
            0 => Cb::Observe,
            1 => Cb::Kick(m, -0.5),
            2 => Cb::Kick(m, r.range(1.1, 3.0)),
            3 => Cb::Param(r.range(0.8, 1.2)),
            4 => Cb::Stop(m, r.below(4) as u8),
            5 => Cb::Dt(1 + r.below(3), r.range(0.2, 0.9)),
            6 => Cb::Dt(1 + r.below(3), r.range(1.1, 2.0)),
            7 => Cb::Final(m, r.range(0.05, 0.9)),
            8 => Cb::Final(m, r.range(1.1, 2.5)),
            _ => Cb::Damp(0.999),
        };
    }
    s
}

/// Random scenarios with a special emphasis.
pub fn profile(r: &mut Rng, id: String, alg: AlgK, name: &str) -> Scen {
    let (rough, cbs) = match name {
        "rough" => (0.9, 0.15),
        "smooth" => (0.0, 0.0),
        "cb" => (0.15, 1.0),
        "dense" => (0.1, 0.0),
        "limits" => (0.35, 0.15),
        "ends" => (0.05, 0.2),
        "tiny" => (1.0, 0.15),
        "long" => (0.15, 0.6),
        _ => (0.3, 0.3),
    };
    let mut s = if name == "wide" {
        let dims: &[usize] = match alg {
            AlgK::Dp5 => &[7, 7, 8, 8, 9, 9, 12, 12, 16, 17, 20, 33, 70, 130],
            AlgK::Radau => &[7, 7, 8, 8, 9, 9, 12, 12, 16, 17, 20, 33],
        };
        sized(r, id, alg, rough, cbs, dims)
    } else {
        random(r, id, alg, rough, cbs)
    };
    match name {
        "dense" => s.setb("dense", true),
        "limits" => {
            s.setu("max_steps", 1 + r.below(12));
        }
        "ends" => ends(r, &mut s),
        "tiny" => tiny(r, &mut s),
        "long" => long(r, &mut s),
        // step sizes and matrices that may be kept
        "keep" => {
            s.theta = Some(r.log(0.01, 0.9));
            s.set("quot1", if r.chance(0.3) { 1.0 } else { r.range(0.6, 1.0) });
            s.set("quot2", if r.chance(0.5) { r.range(1.0, 1.3) } else { r.range(1.0, 4.0) });
        }
        // other orders of magnitude
        "span" => {
            let su = if r.chance(0.3) { 1.0 } else { r.log(1e-8, 1e8) };
            let st = if r.chance(0.3) { 1.0 } else { r.log(1e-8, 1e8) };
            let id = s.id.clone();
            s = s.scaled(su, st);
            s.id = id;
            if r.chance(0.3) {
                let by = (s.tf - s.t0) * r.log(1e2, 1e7) * if r.chance(0.5) { 1.0 } else { -1.0 };
                s.t0 += by;
                s.tf += by;
            }
        }
        _ => {}
    }
    s
}

/// Step sizes that just reach, just miss or just pass the end.
fn ends(r: &mut Rng, s: &mut Scen) {
    let len = (s.tf - s.t0).abs();
    let a = *r.pick(&[1e-15, 1e-9, 1e-5, 9e-5, 1.1e-4, 1e-3, 0.005, 0.0095, 0.0099, 0.0105, 0.02]);
    let f = if r.chance(0.6) { 1.0 - a } else { 1.0 + a };
    s.setu("max_steps", 400);
    // large steps must pass the error test
    let rt = r.log(1e-3, 1e-1);
    s.set("reltol", rt);
    s.set("abstol", rt);
    s.fo.retain(|x| x.0 != "dtmax" && x.0 != "dtstart");
    match r.below(4) {
        0 => s.set("dtstart", len * f),
        1 | 2 => {
            let m = (1 + r.below(6)) as f64;
            s.set("dtstart", len / m * f);
            s.set("dtmax", len / m * f);
        }
        _ => s.cb = Cb::Rest(r.below(4), f),
    }
}

/// Hundreds of steps.
fn long(r: &mut Rng, s: &mut Scen) {
    let len = (s.tf - s.t0).abs();
    s.cap = 1500;
    s.setu("max_steps", if r.chance(0.3) { 100 + r.below(700) } else { 100_000 });
    if r.chance(0.7) {
        s.set("dtmax", len / r.log(130.0, 1400.0));
    } else {
        let rt = r.log(1e-13, 1e-9);
        s.set("reltol", rt);
        s.set("abstol", rt);
    }
    let far = 60 + r.below(200);
    s.cb = match s.cb {
        Cb::Kick(_, f) => Cb::Kick(far, f),
        Cb::Stop(_, c) => Cb::Stop(far, c),
        Cb::Final(_, f) => Cb::Final(far, f),
        Cb::Dt(m, f) => Cb::Dt(m * 20, f),
        Cb::Param(_) => Cb::Param(r.range(0.99, 1.01)),
        c => c,
    };
}

/// Problems that force the step size below the resolution of the time.
fn tiny(r: &mut Rng, s: &mut Scen) {
    let len = (s.tf - s.t0).abs();
    let dir = (s.tf - s.t0).signum();
    s.t0 = match r.below(4) {
        0 if s.alg == AlgK::Dp5 => 0.0,
        1 => r.range(0.01, 3.0) * len,
        2 => -dir * r.range(0.1, 0.9) * len,
        _ => -r.range(0.01, 3.0) * len,
    };
    s.tf = s.t0 + dir * len;
    let (fam, c) = if r.chance(0.8) {
        let m = if r.chance(0.3) { s.t0 - dir * len } else { s.t0 + dir * len * r.range(0.0, 0.9) };
        let e = s.tf + dir * len;
        (if r.chance(0.7) { Fam::NanWindow } else { Fam::InfWindow }, vec![m.min(e), m.max(e), r.below(2) as f64])
    } else {
        let fam = if r.chance(0.5) { Fam::Sqrt } else { Fam::Blowup };
        let (p, u) = prob(r, fam, s.prob.n, s.t0, s.tf);
        s.u0 = u;
        (fam, p.c)
    };
    s.prob = Prob { fam, n: s.u0.len(), c, mirror: false, su: 1.0, st: 1.0 };
    s.setu("max_steps", if r.chance(0.8) { 350 } else { 20 + r.below(60) });
    if s.alg == AlgK::Radau {
        s.set("facl", r.range(2.0, 10.0));
    }
}

/// A scenario whose outcomes are prescribed.
pub fn scripted(r: &mut Rng, id: String, alg: AlgK, line: &str) -> (Scen, Script) {
    let (dir, dist, d0, max, cb, acts) = parse(line);
    let sing = acts.iter().any(|a| *a == Act::S);
    let small = acts.iter().any(|a| matches!(a, Act::R(_, _, d) | Act::F(_, d) if *d == 0.0));
    let n = [1, 1, 2, 3][r.below(4)];
    let unit = *r.pick(&[0.25, 1.0, 0.015625, 0.1, 3.7]);
    let t0 = match r.below(4) {
        0 if alg == AlgK::Dp5 || !small => 0.0,
        1 => -r.range(0.1, 30.0) * unit,
        2 => -dir * dist * unit * r.range(0.2, 0.8),
        _ => r.range(0.1, 30.0) * unit,
    };
    let u0: Vec<f64> = (0..n).map(|_| r.range(-2.0, 2.0)).collect();
    let mut s = Scen {
        id,
        alg,
        prob: Prob { fam: Fam::Const, n, c: vec![0.0; n], mirror: false, su: 1.0, st: 1.0 },
        k: 1.0,
        u0,
        t0,
        tf: t0 + dir * dist * unit,
        jac: if !sing && r.chance(0.4) { JacK::Fd } else { JacK::Wrong },
        cb: if cb { Cb::Observe } else { Cb::None },
        via: Via::Step,
        theta: None,
        fo: vec![],
        uo: vec![],
        bo: vec![],
        cap: 60,
        budget: 400_000,
    };
    s.set("dtstart", d0 * unit);
    s.set("dtmax", 1e3 * unit);
    s.set("safe", 0.9);
    if r.chance(0.3) {
        s.setb("dense", true);
    }
    if alg == AlgK::Dp5 {
        s.set("reltol", 1e-9);
        s.set("abstol", 1e-3);
        s.set("beta", if r.chance(0.7) { 0.0 } else { 0.04 });
        s.set("facl", if small { 1e-250 } else { 1e-3 });
        s.set("facr", 50.0);
        s.setu("max_steps", max);
    } else {
        s.set("reltol", 1e-6);
        s.set("abstol", 1e-3);
        s.set("facl", 1e3);
        s.set("facr", 1e-3);
        s.setu("max_steps", if small { 2000 } else { max });
        s.setb("modern_pred", r.chance(0.3));
        s.setb("use_ext_col", r.chance(0.6));
        s.setu("max_newt_iter", *r.pick(&[7, 7, 7, 10, 5, 2]));
        if r.chance(0.2) {
            s.theta = Some(*r.pick(&[0.1, -1.0, 0.9]));
        }
        if r.chance(0.3) {
            s.set("quot1", 0.99);
            s.set("quot2", 1.5);
        }
    }
    let x = Script::new(alg == AlgK::Radau, acts, unit, line, &s.u0, s.t0, r);
    (s, x)
}
