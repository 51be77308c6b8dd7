//! Runs the factorization routines on small integer and on random matrices.
#![cfg_attr(not(verif_hooks), allow(dead_code))]
use crate::json::J;
use crate::rng::Rng;

/// A system in the given shape; `ai`, `bi` are zero for real routines.
pub struct Sys {
    pub n: usize,
    pub lb: usize,
    pub ub: usize,
    pub ar: Vec<f64>,
    pub ai: Vec<f64>,
    pub br: Vec<f64>,
    pub bi: Vec<f64>,
}

#[cfg(verif_hooks)]
mod real {
    use super::*;
    use cyphus_diffeq::verif_hooks as h;
    use ndarray::prelude::*;

    fn full(s: &Sys, v: &[f64]) -> Array2<f64> {
        Array2::from_shape_fn((s.n, s.n), |(i, k)| v[i * s.n + k])
    }
    /// Band storage with something in the cells kept free for fill-in.
    fn band(s: &Sys, v: &[f64]) -> Array2<f64> {
        let md = s.lb + s.ub;
        let mut a = Array2::from_elem((2 * s.lb + s.ub + 1, s.n), 7.25);
        for i in 0..s.n {
            for k in 0..s.n {
                if i <= k + s.lb && k <= i + s.ub {
                    a[[i + md - k, k]] = v[i * s.n + k];
                }
            }
        }
        a
    }

    /// Index of the singular stage and the solution.
    pub fn run(kind: &str, s: &Sys) -> (usize, Vec<f64>, Vec<f64>) {
        let n = s.n;
        let mut ip = Array1::<i32>::zeros(n);
        let mut br = Array1::from(s.br.clone());
        let mut bi = Array1::from(s.bi.clone());
        let banded = kind == "decb" || kind == "decbc";
        let (mut ar, mut ai) = if banded {
            (band(s, &s.ar), band(s, &s.ai))
        } else {
            (full(s, &s.ar), full(s, &s.ai))
        };
        let ier = match kind {
            "dec" => h::dec(n, ar.view_mut(), ip.view_mut()),
            "dech" => h::dech(n, ar.view_mut(), s.lb, ip.view_mut()),
            "decc" => h::decc(n, ar.view_mut(), ai.view_mut(), ip.view_mut()),
            "dechc" => h::dechc(n, ar.view_mut(), ai.view_mut(), s.lb, ip.view_mut()),
            "decb" => h::decb(n, ar.view_mut(), s.lb, s.ub, ip.view_mut()),
            "decbc" => h::decbc(n, ar.view_mut(), ai.view_mut(), s.lb, s.ub, ip.view_mut()),
            _ => panic!("unknown routine"),
        };
        if ier == 0 {
            let (a, c) = (ar.view(), ai.view());
            match kind {
                "dec" => h::sol(n, a, br.view_mut(), ip.view()),
                "dech" => h::solh(n, a, s.lb, br.view_mut(), ip.view()),
                "decc" => h::solc(n, a, c, br.view_mut(), bi.view_mut(), ip.view()),
                "dechc" => h::solhc(n, a, c, s.lb, br.view_mut(), bi.view_mut(), ip.view()),
                "decb" => h::solb(n, a, s.lb, s.ub, br.view_mut(), ip.view()),
                _ => h::solbc(n, a, c, s.lb, s.ub, br.view_mut(), bi.view_mut(), ip.view()),
            }
        }
        (ier, br.to_vec(), bi.to_vec())
    }

    pub fn hess(n: usize, low: usize, igh: usize, a: &[f64]) -> (Vec<f64>, Vec<i32>) {
        let mut m = Array2::from_shape_fn((n, n), |(i, k)| a[i * n + k]);
        let mut inter = Array1::from_elem(n, -1);
        h::elmhes(n, low, igh, m.view_mut(), inter.view_mut());
        (m.iter().cloned().collect(), inter.to_vec())
    }
}

fn complex(kind: &str) -> bool {
    kind.ends_with('c') && kind != "dec"
}

fn inside(s: &Sys, i: usize, k: usize) -> bool {
    i <= k + s.lb && k <= i + s.ub
}

fn bands(r: &mut Rng, kind: &str, n: usize) -> (usize, usize) {
    match kind {
        "dech" | "dechc" => (r.below(n), n - 1),
        "decb" | "decbc" => (r.below(n), r.below(n)),
        _ => (n - 1, n - 1),
    }
}

const CASES: usize = 64;

/// Small integers: part number `i` of the enumerated matrices, random ones
/// behind them.
#[cfg(verif_hooks)]
pub fn ints(r: &mut Rng, id: String, kind: &str, i: usize, j: &mut J) {
    let cx = complex(kind);
    // Enumerations: size, bandwidths, largest part of an entry.
    let mut doms: Vec<(usize, usize, usize, i64)> = vec![];
    match kind {
        "dec" => doms.extend([(1, 0, 0, 2), (2, 1, 1, 2), (3, 2, 2, 1)]),
        "decc" => doms.extend([(1, 0, 0, 2), (2, 1, 1, 1)]),
        "dech" => doms.extend([(1, 0, 0, 2), (2, 0, 1, 2), (2, 1, 1, 2), (3, 0, 2, 1), (3, 1, 2, 1), (4, 0, 3, 1)]),
        "dechc" => doms.extend([(1, 0, 0, 2), (2, 0, 1, 1), (2, 1, 1, 1)]),
        "decb" => doms.extend([
            (1, 0, 0, 2), (2, 0, 0, 2), (2, 0, 1, 2), (2, 1, 0, 2), (3, 0, 1, 1), (3, 1, 0, 1), (3, 1, 1, 1),
            (3, 1, 2, 1), (3, 2, 0, 1), (3, 2, 1, 1), (4, 1, 0, 1), (4, 0, 1, 1), (5, 0, 0, 1), (4, 2, 0, 1),
        ]),
        _ => doms.extend([(1, 0, 0, 2), (2, 0, 0, 1), (2, 0, 1, 1), (2, 1, 0, 1), (2, 1, 1, 1)]),
    }
    let cells = |n: usize, lb: usize, ub: usize| {
        (0..n * n).filter(|c| c / n <= c % n + lb && c % n <= c / n + ub).count() as u32
    };
    let size = |d: &(usize, usize, usize, i64)| {
        ((2 * d.3 + 1) as u64).pow(cells(d.0, d.1, d.2) * if cx { 2 } else { 1 })
    };
    let total: u64 = doms.iter().map(size).sum();
    j.obj().key("id").str(&id).key("kind").str(kind).key("what").str(&format!("{} integer matrices", kind));
    j.key("cases").arr();
    for c in 0..CASES {
        let mut ix = (i * CASES + c) as u64;
        let mut dom = None;
        if ix < total {
            for d in &doms {
                if ix < size(d) {
                    dom = Some(*d);
                    break;
                }
                ix -= size(d);
            }
        }
        let listed = dom.is_some();
        let (n, lb, ub, m) = dom.unwrap_or_else(|| {
            let n = 2 + r.below(3);
            let (lb, ub) = bands(r, kind, n);
            (n, lb, ub, if n == 4 && cx { 1 } else { 1 + r.below(2) as i64 })
        });
        let mut s = Sys { n, lb, ub, ar: vec![0.0; n * n], ai: vec![0.0; n * n], br: vec![0.0; n], bi: vec![0.0; n] };
        let w = (2 * m + 1) as u64;
        let mut digit = |r: &mut Rng| {
            if listed {
                let d = ix % w;
                ix /= w;
                (d as i64 - m) as f64
            } else if r.chance(0.3) {
                0.0
            } else {
                (r.below(w as usize) as i64 - m) as f64
            }
        };
        for p in 0..n {
            for q in 0..n {
                if inside(&s, p, q) {
                    s.ar[p * n + q] = digit(r);
                    if cx {
                        s.ai[p * n + q] = digit(r);
                    }
                }
            }
        }
        if !listed && r.chance(0.3) && n > 1 {
            // Make singular matrices more frequent: repeat a row.
            let (p, q) = (r.below(n), r.below(n));
            for k in 0..n {
                if inside(&s, q, k) {
                    s.ar[q * n + k] = s.ar[p * n + k];
                    s.ai[q * n + k] = s.ai[p * n + k];
                }
            }
        }
        for p in 0..n {
            s.br[p] = r.below(7) as f64 - 3.0;
            if cx {
                s.bi[p] = r.below(7) as f64 - 3.0;
            }
        }
        case(kind, &s, true, j);
    }
    j.enda().key("end").str("ok").end();
}

#[cfg(verif_hooks)]
fn case(kind: &str, s: &Sys, whole: bool, j: &mut J) {
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real::run(kind, s)));
    j.obj().key("n").int(s.n as i64).key("lb").int(s.lb as i64).key("ub").int(s.ub as i64);
    if whole {
        j.key("a").arr();
        for i in 0..s.n {
            j.arr();
            for k in 0..s.n {
                j.arr().int(s.ar[i * s.n + k] as i64).int(s.ai[i * s.n + k] as i64).enda();
            }
            j.enda();
        }
        j.enda().key("b").arr();
        for i in 0..s.n {
            j.arr().int(s.br[i] as i64).int(s.bi[i] as i64).enda();
        }
        j.enda();
    } else {
        j.key("ar").vec(&s.ar).key("ai").vec(&s.ai).key("br").vec(&s.br).key("bi").vec(&s.bi);
    }
    match res {
        Ok((ier, xr, xi)) => {
            j.key("ier").int(ier as i64).key("xr").vec(&xr).key("xi").vec(&xi);
        }
        Err(_) => {
            j.key("ier").int(-1);
        }
    }
    j.end();
}

/// Random real or complex systems; some with a column of zeros.
#[cfg(verif_hooks)]
pub fn floats(r: &mut Rng, id: String, kind: &str, j: &mut J) {
    let cx = complex(kind);
    j.obj().key("id").str(&id).key("kind").str(kind).key("what").str(&format!("{} random matrices", kind));
    j.key("cases").arr();
    for _ in 0..32 {
        let n = if r.chance(0.1) { 10 + r.below(16) } else { 1 + r.below(9) };
        let (lb, ub) = bands(r, kind, n);
        let mut s = Sys { n, lb, ub, ar: vec![0.0; n * n], ai: vec![0.0; n * n], br: vec![0.0; n], bi: vec![0.0; n] };
        // Without entries on both sides of the diagonal, a tiny entry would
        // make the matrix singular to working precision.
        let style = r.below(if lb > 0 && ub > 0 && n > 1 { 4 } else { 3 });
        let rows: Vec<f64> = (0..n).map(|_| r.log(1e-6, 1e6)).collect();
        // other orders of magnitude of the matrix and of the right-hand side
        let scale = if r.chance(0.3) { r.log(1e-120, 1e120) } else { 1.0 };
        let right = if r.chance(0.3) { r.log(1e-30, 1e30) } else { 1.0 };
        let mut entry = |r: &mut Rng, i: usize, k: usize| {
            let x = scale * r.range(-1.0, 1.0);
            match style {
                0 => x,
                1 => x * r.log(1e-4, 1e4),
                2 => x * rows[i],
                // a tiny first entry needs pivoting
                _ => {
                    if i == 0 && k == 0 {
                        x * 1e-14
                    } else {
                        x
                    }
                }
            }
        };
        for i in 0..n {
            for k in 0..n {
                if inside(&s, i, k) {
                    s.ar[i * n + k] = entry(r, i, k);
                    if cx && r.chance(0.8) {
                        s.ai[i * n + k] = entry(r, i, k);
                    }
                    if s.ai[i * n + k] != 0.0 && r.chance(0.1) {
                        s.ar[i * n + k] = 0.0;
                    }
                }
            }
            s.br[i] = right * r.range(-2.0, 2.0);
            if cx {
                s.bi[i] = right * r.range(-2.0, 2.0);
            }
        }
        let zero = if r.chance(0.2) { 1 + r.below(n) } else { 0 };
        if zero > 0 {
            for i in 0..n {
                s.ar[i * n + zero - 1] = 0.0;
                s.ai[i * n + zero - 1] = 0.0;
            }
        }
        case(kind, &s, false, j);
    }
    j.enda().key("end").str("ok").end();
}

/// Reductions to Hessenberg form.
#[cfg(verif_hooks)]
pub fn hess(r: &mut Rng, id: String, j: &mut J) {
    j.obj().key("id").str(&id).key("kind").str("elmhes").key("what").str("elmhes");
    j.key("cases").arr();
    for _ in 0..32 {
        let n = if r.chance(0.1) { 9 + r.below(8) } else { 1 + r.below(8) };
        let scale = if r.chance(0.3) { r.log(1e-100, 1e100) } else { 1.0 };
        // Mostly the whole matrix; else a block, outside of which the matrix
        // is triangular already.
        let (low, igh) = if r.chance(0.7) || n < 3 {
            (0, n)
        } else {
            let low = r.below(n - 1);
            (low, low + 1 + r.below(n - low))
        };
        let ints = r.chance(0.4);
        let mut a = vec![0.0; n * n];
        for i in 0..n {
            for k in 0..n {
                let block = i >= low && i < igh && k >= low && k < igh;
                if block || i <= k {
                    a[i * n + k] = scale * if r.chance(0.15) {
                        0.0
                    } else if ints {
                        r.below(5) as f64 - 2.0
                    } else if r.chance(0.2) {
                        r.range(-1.0, 1.0) * r.log(1e-3, 1e3)
                    } else {
                        r.range(-1.0, 1.0)
                    };
                }
            }
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real::hess(n, low, igh, &a)));
        j.obj().key("n").int(n as i64).key("low").int(low as i64).key("igh").int(igh as i64).key("a").vec(&a);
        match res {
            Ok((h, inter)) => {
                j.key("ier").int(0).key("h").vec(&h).key("p").arr();
                for x in inter {
                    j.int(x as i64);
                }
                j.enda();
            }
            Err(_) => {
                j.key("ier").int(-1);
            }
        }
        j.end();
    }
    j.enda().key("end").str("ok").end();
}

#[cfg(not(verif_hooks))]
pub fn ints(_: &mut Rng, _: String, _: &str, _: usize, _: &mut J) {}
#[cfg(not(verif_hooks))]
pub fn floats(_: &mut Rng, _: String, _: &str, _: &mut J) {}
#[cfg(not(verif_hooks))]
pub fn hess(_: &mut Rng, _: String, _: &mut J) {}
