//! Families of right-hand sides, pure functions of (t, u, k).
use crate::rng::mix;
use std::ops::{Add, Div, Mul, Neg, Sub};

/// Forward-mode derivative numbers, used for exact Jacobians.
#[derive(Clone, Copy)]
pub struct Dual {
    pub v: f64,
    pub d: f64,
}
pub trait Num:
    Copy
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Neg<Output = Self>
{
    fn c(v: f64) -> Self;
    fn val(self) -> f64;
    fn sin(self) -> Self;
    fn cos(self) -> Self;
    fn sqrt(self) -> Self;
}
impl Num for f64 {
    fn c(v: f64) -> f64 {
        v
    }
    fn val(self) -> f64 {
        self
    }
    fn sin(self) -> f64 {
        f64::sin(self)
    }
    fn cos(self) -> f64 {
        f64::cos(self)
    }
    fn sqrt(self) -> f64 {
        f64::sqrt(self)
    }
}
impl Add for Dual {
    type Output = Dual;
    fn add(self, o: Dual) -> Dual {
        Dual { v: self.v + o.v, d: self.d + o.d }
    }
}
impl Sub for Dual {
    type Output = Dual;
    fn sub(self, o: Dual) -> Dual {
        Dual { v: self.v - o.v, d: self.d - o.d }
    }
}
impl Mul for Dual {
    type Output = Dual;
    fn mul(self, o: Dual) -> Dual {
        Dual { v: self.v * o.v, d: self.d * o.v + self.v * o.d }
    }
}
impl Div for Dual {
    type Output = Dual;
    fn div(self, o: Dual) -> Dual {
        Dual { v: self.v / o.v, d: (self.d * o.v - self.v * o.d) / (o.v * o.v) }
    }
}
impl Neg for Dual {
    type Output = Dual;
    fn neg(self) -> Dual {
        Dual { v: -self.v, d: -self.d }
    }
}
impl Num for Dual {
    fn c(v: f64) -> Dual {
        Dual { v, d: 0.0 }
    }
    fn val(self) -> f64 {
        self.v
    }
    fn sin(self) -> Dual {
        Dual { v: self.v.sin(), d: self.d * self.v.cos() }
    }
    fn cos(self) -> Dual {
        Dual { v: self.v.cos(), d: -self.d * self.v.sin() }
    }
    fn sqrt(self) -> Dual {
        let s = self.v.sqrt();
        Dual { v: s, d: 0.5 * self.d / s }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam {
    /// k A u + b cos(w t)
    Linear,
    /// independent oscillators, frequency k c_i
    Osc,
    /// k u (1 - u) + 0.1 sin of the neighbour
    Logistic,
    /// van der Pol with stiffness c_0
    Vdp,
    /// polynomial in t only
    Poly,
    /// constant
    Const,
    /// k u^2: blows up in finite time
    Blowup,
    /// -u + c_0 * sign(sin(w t))
    Jump,
    /// hash noise of (t, u)
    Noise,
    /// -k u, NaN for t in a window
    NanWindow,
    /// -k u, infinite for t in a window
    InfWindow,
    /// Prothero-Robinson lambda (u - phi) + phi'
    Prothero,
    /// Robertson kinetics, n = 3
    Robertson,
    /// -k sqrt(u): NaN for u < 0
    Sqrt,
    /// chain u_i' = c_i (u_{i-1} - u_i), stiff when the rates differ
    Chain,
    /// huge finite values
    Huge,
}

#[derive(Clone, Debug)]
pub struct Prob {
    pub fam: Fam,
    pub n: usize,
    pub c: Vec<f64>,
    /// Evaluate the time reflection: -f(-t, u).
    pub mirror: bool,
    /// Powers of two: units of the states and of time.
    pub su: f64,
    pub st: f64,
}

impl Prob {
    fn g<T: Num>(&self, t: f64, u: &[T], k: f64) -> Vec<T> {
        let n = self.n;
        let c = &self.c;
        let kk = T::c(k);
        let mut o = vec![T::c(0.0); n];
        match self.fam {
            Fam::Linear => {
                // c: n*n matrix, n amplitudes, frequency
                for i in 0..n {
                    let mut s = T::c(0.0);
                    for j in 0..n {
                        s = s + T::c(c[i * n + j]) * u[j];
                    }
                    o[i] = kk * s + T::c(c[n * n + i] * (c[n * n + n] * t).cos());
                }
            }
            Fam::Osc => {
                for i in (0..n).step_by(2) {
                    if i + 1 < n {
                        o[i] = kk * T::c(c[i]) * u[i + 1];
                        o[i + 1] = -(kk * T::c(c[i]) * u[i]);
                    } else {
                        o[i] = -(kk * T::c(c[i]) * u[i]);
                    }
                }
            }
            Fam::Logistic => {
                for i in 0..n {
                    o[i] = kk * u[i] * (T::c(1.0) - u[i]) + T::c(0.1) * u[(i + 1) % n].sin();
                }
            }
            Fam::Vdp => {
                o[0] = u[1];
                o[1] = ((T::c(1.0) - u[0] * u[0]) * u[1] - u[0]) * T::c(c[0]) * kk;
            }
            Fam::Poly => {
                for i in 0..n {
                    let mut s = 0.0;
                    for j in (0..c.len()).rev() {
                        s = s * t + c[j];
                    }
                    o[i] = kk * T::c(s * (1.0 + i as f64));
                }
            }
            Fam::Const => {
                for i in 0..n {
                    o[i] = kk * T::c(c[i]);
                }
            }
            Fam::Blowup => {
                for i in 0..n {
                    o[i] = kk * u[i] * u[i] * T::c(c[i]);
                }
            }
            Fam::Jump => {
                let s = if (c[1] * t).sin() > 0.0 { c[0] } else { -c[0] };
                for i in 0..n {
                    o[i] = T::c(s * (1.0 + i as f64)) - kk * u[i];
                }
            }
            Fam::Noise => {
                for i in 0..n {
                    let h = mix(t.to_bits() ^ mix(u[i].val().to_bits() ^ (i as u64)));
                    let r = (h >> 11) as f64 / (1u64 << 52) as f64 - 1.0;
                    o[i] = T::c(c[0] * r) - T::c(c[1]) * u[i];
                }
            }
            Fam::NanWindow | Fam::InfWindow | Fam::Huge => {
                let bad = match self.fam {
                    Fam::NanWindow => f64::NAN,
                    Fam::InfWindow => f64::INFINITY,
                    _ => 1e300,
                };
                for i in 0..n {
                    o[i] = if t > c[0] && t < c[1] && (i == 0 || c[2] > 0.0) {
                        T::c(bad)
                    } else {
                        -(kk * u[i])
                    };
                }
            }
            Fam::Prothero => {
                for i in 0..n {
                    let (w, l) = (c[n + i], c[i]);
                    o[i] = T::c(l) * kk * (u[i] - T::c((w * t).cos()))
                        - T::c(w * (w * t).sin())
                        + T::c(if i > 0 { 0.1 } else { 0.0 })
                            * (u[i] - T::c((w * t).cos()))
                            * (u[(i + n - 1) % n] - T::c((c[n + (i + n - 1) % n] * t).cos()));
                }
            }
            Fam::Robertson => {
                let r1 = T::c(0.04) * kk * u[0];
                let r2 = T::c(1e4) * u[1] * u[2];
                let r3 = T::c(3e7) * u[1] * u[1];
                o[0] = r2 - r1;
                o[1] = r1 - r2 - r3;
                o[2] = r3;
            }
            Fam::Sqrt => {
                for i in 0..n {
                    o[i] = -(kk * u[i].sqrt());
                }
            }
            Fam::Chain => {
                for i in 0..n {
                    let p = if i == 0 { T::c((c[n] * t).sin()) } else { u[i - 1] };
                    o[i] = kk * T::c(c[i]) * (p - u[i]);
                }
            }
        }
        o
    }
    pub fn f(&self, t: f64, u: &[f64], k: f64) -> Vec<f64> {
        let (tt, s) = self.time(t);
        let v: Vec<f64> = u.iter().map(|x| x / self.su).collect();
        self.g(tt, &v, k).iter().map(|x| s * self.su * x).collect()
    }
    /// The time of the original problem and the factor of its derivatives.
    fn time(&self, t: f64) -> (f64, f64) {
        let s = if self.mirror { -1.0 } else { 1.0 };
        (s * t / self.st, s / self.st)
    }
    /// Exact Jacobian, row-major.
    pub fn jac(&self, t: f64, u: &[f64], k: f64) -> Vec<f64> {
        let n = self.n;
        let mut r = vec![0.0; n * n];
        let (tt, s) = self.time(t);
        for j in 0..n {
            let d: Vec<Dual> = (0..n)
                .map(|i| Dual { v: u[i] / self.su, d: if i == j { 1.0 } else { 0.0 } })
                .collect();
            let o = self.g(tt, &d, k);
            for i in 0..n {
                r[i * n + j] = s * o[i].d;
            }
        }
        r
    }
}
