//! Right-hand sides that answer so that each attempt of an integrator has a
//! prescribed outcome. The prescriptions come from the control models.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// accept: iterations, with refined estimate, next step size
    A(usize, bool, f64),
    /// reject by the error estimate; size 0: NaN until the end
    R(usize, bool, f64),
    /// Newton failure; size 0: until the end
    F(usize, f64),
    /// singular matrix
    S,
    /// callback: code, step size, change of the state
    C(String, f64, bool),
}

#[derive(Clone, Debug)]
pub struct Script {
    pub radau: bool,
    pub acts: Vec<Act>,
    pub unit: f64,
    pub text: String,
    next: usize,
    // options of the integrator
    pub abstol: f64,
    pub reltol: f64,
    pub safe: f64,
    pub beta: f64,
    pub nit: usize,
    pub fnewt: f64,
    pub ext: bool,
    // where the integrator is
    t: f64,
    u: Vec<f64>,
    base: Vec<f64>,
    /// derivative at the end of the running attempt
    cand: Vec<f64>,
    /// slope of the last accepted step
    slope: Vec<f64>,
    first: bool,
    facold: f64,
    err: f64,
    // running attempt
    cur: Option<Act>,
    pos: usize,
    iter: usize,
    t1: f64,
    t3: f64,
    /// values of the iterations of the running attempt
    plan: Vec<Vec<f64>>,
    refined: Vec<f64>,
    /// evaluations since the last iteration
    fd: bool,
    /// size of the next attempt, where it is known exactly
    pub pend: Option<f64>,
    rng: u64,
    /// a singular matrix was asked for and has not shown yet
    sing: bool,
    /// every outcome so far was the prescribed one
    pub kept: bool,
}

const C1: f64 = 0.15505102572168219018;
const U1: f64 = 3.637834252744496;
const ALPHA: f64 = 2.681082873627752;
const BETA: f64 = 3.050430199247411;
const TI: [[f64; 3]; 3] = [
    [4.3255798900631553510, 0.33919925181580986954, 0.54177053993587487119],
    [-4.1787185915519047273, -0.32768282076106238708, 0.47662355450055045196],
    [-0.50287263494578687595, 2.5719269498556054292, -0.59603920482822492497],
];

/// Parses a line of the form
/// `dir dist d0 max cb act act ...`.
pub fn parse(line: &str) -> (f64, f64, f64, usize, bool, Vec<Act>) {
    let w: Vec<&str> = line.split_whitespace().collect();
    let num = |s: &str| s.parse::<f64>().unwrap();
    let acts = w[5..]
        .iter()
        .map(|x| {
            let p: Vec<&str> = x.split(':').collect();
            match p[0] {
                "A" => Act::A(p[1].parse().unwrap(), p[2] == "1", num(p[3])),
                "R" => Act::R(p[1].parse().unwrap(), p[2] == "1", num(p[3])),
                "F" => Act::F(p[1].parse().unwrap(), num(p[2])),
                "S" => Act::S,
                "C" => Act::C(p[1].to_string(), num(p[2]), p[3] == "1"),
                _ => unreachable!(),
            }
        })
        .collect();
    (num(w[0]), num(w[1]), num(w[2]), w[3].parse().unwrap(), w[4] == "1", acts)
}

impl Script {
    pub fn new(radau: bool, acts: Vec<Act>, unit: f64, text: &str, u: &[f64], t: f64, r: &mut Rng) -> Script {
        let base: Vec<f64> = u.iter().map(|_| r.range(-1.0, 1.0)).collect();
        Script {
            radau,
            acts,
            unit,
            text: text.to_string(),
            next: 0,
            abstol: 1e-3,
            reltol: 1e-9,
            safe: 0.9,
            beta: 0.0,
            nit: 7,
            fnewt: 0.01,
            ext: true,
            t,
            u: u.to_vec(),
            cand: base.clone(),
            slope: vec![0.0; u.len()],
            base,
            first: true,
            facold: 1e-4,
            err: 0.0,
            cur: None,
            pos: 0,
            iter: 0,
            t1: t,
            t3: t,
            plan: vec![],
            refined: vec![],
            fd: false,
            pend: None,
            rng: r.next(),
            sing: false,
            kept: true,
        }
    }
    fn rnd(&mut self) -> f64 {
        self.rng = crate::rng::mix(self.rng.wrapping_add(0x9e3779b97f4a7c15));
        (self.rng >> 11) as f64 / (1u64 << 53) as f64
    }
    /// The derivative at the current point.
    pub fn here(&self) -> Vec<f64> {
        self.base.clone()
    }
    /// A step begins.
    pub fn begin(&mut self, t: f64, u: &[f64], dt: f64, tf: f64) {
        self.t = t;
        self.u = u.to_vec();
        self.pos = 0;
        self.iter = 0;
        self.cur = None;
        self.t3 = f64::NAN;
        self.fd = false;
        let dir = (tf - t).signum();
        self.pend = Some(if (t + 1.0001 * dt - tf) * dir >= 0.0 { tf - t } else { dt });
    }
    /// A step has ended, before the callback.
    pub fn end(&mut self, moved: bool) {
        match self.cur {
            Some(Act::A(..)) if !moved => self.kept = false,
            Some(Act::R(..)) | Some(Act::F(..)) if moved => self.kept = false,
            _ => {}
        }
        if moved {
            self.base = self.cand.clone();
            self.facold = self.err.max(1e-4);
            if let Some(p) = self.plan.get(self.iter.max(1) - 1) {
                self.slope = p.clone();
            }
            self.first = false;
        }
        self.cur = None;
    }
    /// What the callback is to do.
    pub fn callback(&mut self) -> Option<(String, f64, bool)> {
        match self.acts.get(self.next) {
            Some(Act::C(r, d, c)) => {
                // Radau5 factors its matrices before it looks at the step size
                let d = if *d == 0.0 && self.radau { 1e-20 } else { *d };
                let x = (r.clone(), d * self.unit, *c);
                self.next += 1;
                Some(x)
            }
            _ => None,
        }
    }
    fn take(&mut self) -> Act {
        if let Some(Act::A(..)) = self.cur {
            self.kept = false; // tried again after what was to be accepted
        }
        if let Some(Act::R(_, _, d)) | Some(Act::F(_, d)) = &self.cur {
            if *d == 0.0 {
                return self.cur.clone().unwrap();
            }
        }
        while let Some(Act::S) = self.acts.get(self.next) {
            self.next += 1; // the matrix could not be made singular
            self.kept = false;
        }
        match self.acts.get(self.next) {
            None | Some(Act::C(..)) => {
                if self.next < self.acts.len() {
                    self.kept = false;
                }
                Act::A(2, false, 0.0)
            }
            Some(a) => {
                self.next += 1;
                a.clone()
            }
        }
    }
    pub fn f(&mut self, t: f64, u: &[f64]) -> Vec<f64> {
        if self.radau {
            self.radau(t, u)
        } else {
            self.dp5(t, u)
        }
    }
    fn dp5(&mut self, t: f64, u: &[f64]) -> Vec<f64> {
        if self.pos == 0 {
            if t == self.t {
                return self.base.clone();
            }
            self.cur = Some(self.take());
            self.iter = (self.rnd() * 6.0) as usize;
        }
        self.pos += 1;
        let bad = matches!(self.cur, Some(Act::R(_, _, d)) if d == 0.0);
        if self.pos < 6 {
            return if bad && self.pos == self.iter { vec![f64::NAN; u.len()] } else { self.base.clone() };
        }
        self.pos = 0;
        let h = (t - self.t).abs();
        let expo = 0.2 - 0.75 * self.beta;
        let e = match self.cur.clone().unwrap() {
            Act::A(_, _, d) => {
                let d = if d > 0.0 { d * self.unit } else { 1.5 * h };
                (self.safe * h / d * self.facold.powf(self.beta)).powf(1.0 / expo).min(0.999)
            }
            Act::R(_, _, d) if d > 0.0 => (self.safe * h / (d * self.unit)).powf(1.0 / expo).max(1.001),
            _ => f64::NAN,
        };
        self.err = e;
        let sign = if self.rnd() < 0.5 { -1.0 } else { 1.0 };
        self.cand = (0..u.len())
            .map(|i| {
                let sk = self.abstol + self.reltol * self.u[i].abs().max(u[i].abs());
                self.base[i] + sign * 40.0 * e * sk / h
            })
            .collect();
        self.cand.clone()
    }
    /// Scaled norm of a change of the slope by one unit of scal / h.
    fn unit_norm() -> f64 {
        let c = [C1, 0.64494897427831780982, 1.0];
        let mut s = 0.0;
        for r in TI {
            let w: f64 = (0..3).map(|i| r[i] * c[i]).sum();
            s += w * w;
        }
        (s / 3.0).sqrt()
    }
    fn radau_plan(&mut self, h: f64) {
        let n = self.u.len();
        let scal: Vec<f64> = self.u.iter().map(|x| self.abstol + self.reltol * x.abs()).collect();
        let sign = if self.rnd() < 0.5 { -1.0 } else { 1.0 };
        let p = if self.first || !self.ext { vec![0.0; n] } else { self.slope.clone() };
        // slope differing from x by the given estimate or norm
        let off = |x: &[f64], e: f64| -> Vec<f64> { (0..n).map(|i| x[i] + e * scal[i] / h).collect() };
        let fac = |k: usize| self.safe.min(self.safe * (1 + 2 * self.nit) as f64 / (k + 2 * self.nit) as f64);
        let hh = h.abs();
        let act = self.cur.clone().unwrap();
        self.refined = self.base.clone();
        match act {
            Act::A(k, est, d) | Act::R(k, est, d) => {
                let ok = matches!(act, Act::A(..));
                let d = if d > 0.0 { d * self.unit } else if ok { 1.5 * hh } else { 0.0 };
                if d == 0.0 {
                    self.plan = vec![vec![f64::NAN; n]];
                    return;
                }
                let e = (fac(k) * hh / d).powi(4);
                let e = if ok { e.max(1e-9).min(0.97) } else { e.max(1.03) };
                self.err = e;
                let first = if est { 1.5 + 3.0 * self.rnd() } else { e };
                let c = off(&self.base, sign * first * U1);
                if est {
                    self.refined = off(&c, -sign * e * U1);
                }
                // iterations whose changes shrink so that the last one is the
                // first to be small enough
                let w = Script::unit_norm();
                let dist = w * ((0..n).map(|i| ((c[i] - p[i]) * h / scal[i]).powi(2)).sum::<f64>() / n as f64).sqrt();
                let r2 = ((if k > 2 { 3.0 } else { 0.5 }) * self.fnewt / dist).sqrt().min(0.5);
                let r2 = if self.nit == 2 { (0.3 * self.fnewt / dist).min(0.5) } else { r2 };
                let mut part = vec![1.0];
                for i in 2..=k {
                    let q = if i == 2 { r2 } else { r2 * 0.1 };
                    part.push(part[i - 2] * q);
                }
                let sum: f64 = part.iter().sum();
                let mut x = 0.0;
                self.plan = vec![];
                for i in 0..k {
                    x += part[i] / sum;
                    self.plan.push(if i + 1 == k { c.clone() } else { (0..n).map(|l| p[l] + (c[l] - p[l]) * x).collect() });
                }
            }
            Act::F(k, d) => {
                let w = Script::unit_norm();
                let slow = d > 0.0 && (d * self.unit / hh - 0.5).abs() > 1e-6;
                self.plan = vec![];
                if self.rnd() < 0.2 {
                    self.plan = vec![vec![f64::NAN; n]];
                } else if slow && k == 2 && self.nit > 3 {
                    let x = (4 + self.nit - 3) as f64;
                    let q = (0.8 * hh / (d * self.unit)).powf(x).max(1.01).min(20.0);
                    let dy2 = q * self.fnewt / 0.5f64.powi(self.nit as i32 - 3);
                    let a = off(&p, sign * 2.0 * dy2 / w);
                    self.plan.push(a.clone());
                    self.plan.push(off(&a, sign * dy2 / w));
                } else {
                    // shrinking first, then growing
                    let mut y = 3.0 / w;
                    let mut a = off(&p, sign * y);
                    self.plan.push(a.clone());
                    for i in 2..=k.max(2) {
                        y *= if i < k.max(2) { self.fnewt.sqrt() } else { 4.0 / self.fnewt.sqrt() };
                        a = off(&a, sign * y);
                        self.plan.push(a.clone());
                    }
                }
                // keep growing if that was not enough
                for _ in 0..8 {
                    let l = self.plan.last().unwrap().iter().map(|x| 5.0 * x + 1.0).collect();
                    self.plan.push(l);
                }
            }
            _ => unreachable!(),
        }
    }
    fn radau(&mut self, t: f64, u: &[f64]) -> Vec<f64> {
        if self.pos == 0 {
            if t == self.t {
                if u == &self.u[..] {
                    self.fd = true;
                    return self.base.clone();
                }
                return if self.fd { self.base.clone() } else { self.refined.clone() };
            }
            if t == self.t3 {
                // the new point
                if !self.fd {
                    self.fd = true;
                    self.cand = match self.acts.get(self.next) {
                        // so that one iteration is enough
                        Some(Act::A(1, _, d)) => {
                            let hh = *d * self.unit;
                            let c = self.plan.last().unwrap().clone();
                            let e = self.safe.powi(4);
                            c.iter().zip(u).map(|(c, u)| c - e * U1 * (self.abstol + self.reltol * u.abs()) / hh).collect()
                        }
                        _ => (0..u.len()).map(|_| 2.0 * self.rnd() - 1.0).collect(),
                    };
                }
                return self.cand.clone();
            }
            let h = (t - self.t) / C1;
            if self.cur.is_none() || (t - self.t1).abs() > 1e-9 * h.abs() {
                self.track();
                self.cur = Some(self.take());
                self.t1 = t;
                self.radau_plan(h);
                self.iter = 0;
            }
            if self.sing {
                self.sing = false;
                self.kept = false;
            }
            self.fd = false;
            self.iter += 1;
        }
        self.pos += 1;
        if self.pos == 3 {
            self.pos = 0;
            self.t3 = t;
        }
        let i = self.iter.min(self.plan.len());
        self.plan[i - 1].clone()
    }
    /// The running attempt has failed: follow the step size.
    fn track(&mut self) {
        match &self.cur {
            Some(Act::R(..)) => self.pend = if self.first { self.pend.map(|x| x * 0.1) } else { None },
            Some(Act::F(..)) => self.pend = self.pend.map(|x| x * 0.5),
            _ => {}
        }
    }
    /// The Jacobian that makes the next attempt singular or, normally, zero.
    pub fn jac(&mut self, t: f64) -> Vec<f64> {
        let n = self.u.len();
        let mut o = vec![0.0; n * n];
        let same = t == self.t;
        self.sing = false;
        if same && self.pos == 0 && self.acts.get(self.next) == Some(&Act::S) {
            self.track();
            if self.cur.is_some() {
                self.cur = None;
                self.t1 = self.t;
            }
            if let Some(p) = self.pend {
                self.next += 1;
                self.sing = true;
                self.pend = Some(p * 0.5);
                let m = (self.rnd() * n as f64) as usize;
                if n > 1 && self.rnd() < 0.4 {
                    // only the complex matrix
                    let l = (m + 1) % n;
                    o[m * n + m] = ALPHA / p;
                    o[l * n + l] = ALPHA / p;
                    o[m * n + l] = BETA / p;
                    o[l * n + m] = -BETA / p;
                } else {
                    for i in 0..n {
                        if i == m || self.rnd() < 0.3 {
                            o[i * n + i] = U1 / p;
                        }
                    }
                }
            }
        }
        o
    }
}
