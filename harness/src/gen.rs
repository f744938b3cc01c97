//! Structured generators for floating-point matrices. All randomness comes from `Src`.

use crate::engine::Src;
use crate::refm::{norm, D};

/// A dimension in 1..=max, small ones most often, large ones now and then.
pub fn dim(s: &mut Src, max: usize) -> usize {
    match s.pick(&[60, 30, 10]) {
        0 => s.range(1, 4.min(max)),
        1 => s.range(1, 8.min(max)),
        _ => s.range(1, max),
    }
}

/// Number of right-hand sides: few, now and then more than there are unknowns.
pub fn rhs_cols(s: &mut Src) -> usize {
    match s.pick(&[80, 15, 5]) {
        0 => s.range(1, 3),
        1 => s.range(1, 8),
        _ => s.range(9, 40),
    }
}

/// What quotients and products below the range of the type may add to an error: each is off by up
/// to the smallest positive number, and may meet an element of size `max` afterwards.
pub fn underflow<F: crate::cf::Fl>(n: usize, max: f64) -> f64 {
    F::MINPOS * (1e3 + 8.0 * (n as f64 + 1.0) * F::EPS * max)
}

/// How wide exponents may range.
#[derive(Clone, Copy)]
pub struct Span {
    pub mid: u64,
    pub wide: u64,
    pub grade: i64,
}
pub const SPAN64: Span = Span { mid: 20, wide: 60, grade: 20 };
pub const SPAN32: Span = Span { mid: 5, wide: 8, grade: 5 };

fn p2(e: i64) -> f64 {
    2f64.powi(e as i32)
}

#[derive(Clone, Copy, PartialEq)]
pub enum El {
    Ints(i64),
    Unit,
    Log(u64),
    Sparse,
    Pow2,
    Offset,
}

pub fn el_kind(s: &mut Src, sp: Span) -> El {
    match s.pick(&[30, 10, 20, 12, 12, 6, 5, 5]) {
        0 => El::Ints(3),
        1 => El::Ints(1),
        2 => El::Unit,
        3 => El::Sparse,
        4 => El::Log(sp.mid),
        5 => El::Log(sp.wide),
        6 => El::Pow2,
        _ => El::Offset,
    }
}

pub fn el(s: &mut Src, k: El) -> f64 {
    match k {
        El::Ints(m) => s.int(m) as f64,
        El::Unit => {
            let u = s.unit();
            if s.bool() {
                -u
            } else {
                u
            }
        }
        El::Log(w) => {
            let e = s.int(w as i64);
            let m = 1.0 + s.below(1 << 20) as f64 / (1u64 << 20) as f64;
            let v = m * p2(e);
            if s.bool() {
                -v
            } else {
                v
            }
        }
        El::Sparse => {
            if s.chance(3, 10) {
                s.int(9) as f64
            } else {
                0.0
            }
        }
        El::Pow2 => {
            let e = s.int(3);
            match s.below(3) {
                0 => p2(e),
                1 => -p2(e),
                _ => 0.0,
            }
        }
        El::Offset => 100.0 + s.int(5) as f64,
    }
}

pub fn plain(s: &mut Src, r: usize, c: usize, sp: Span) -> D {
    let k = el_kind(s, sp);
    D::from(r, c, |_, _| el(s, k))
}

/// A matrix with orthonormal columns up to rounding: product of Householder reflections.
pub fn orth(s: &mut Src, n: usize) -> D {
    let mut q = D::id(n);
    let refl = s.range(1, 3);
    for _ in 0..refl {
        let v: Vec<f64> = (0..n).map(|_| s.int(4) as f64).collect();
        let vv: f64 = v.iter().map(|x| x * x).sum();
        if vv == 0.0 {
            continue;
        }
        // q = q (I - 2 v v' / vv)
        for i in 0..n {
            let d: f64 = (0..n).map(|j| q.at(i, j) * v[j]).sum();
            for j in 0..n {
                let x = q.at(i, j) - 2.0 * d * v[j] / vv;
                q.put(i, j, x);
            }
        }
    }
    q
}

/// General real matrices of the given shape: random, structured, degenerate and graded.
pub fn general(s: &mut Src, r: usize, c: usize, sp: Span) -> D {
    let kind = s.pick(&[30, 6, 8, 8, 6, 10, 10, 5, 5, 3, 5, 8, 8, 6, 6, 4, 6, 8]);
    let mut a = match kind {
        0 => {
            s.label("plain");
            plain(s, r, c, sp)
        }
        1 => {
            s.label("diagonal");
            let k = el_kind(s, sp);
            D::from(r, c, |i, j| if i == j { el(s, k) } else { 0.0 })
        }
        2 => {
            s.label("upper triangular");
            let k = el_kind(s, sp);
            D::from(r, c, |i, j| if i <= j { el(s, k) } else { 0.0 })
        }
        3 => {
            s.label("lower triangular");
            let k = el_kind(s, sp);
            D::from(r, c, |i, j| if i >= j { el(s, k) } else { 0.0 })
        }
        4 => {
            s.label("banded");
            let k = el_kind(s, sp);
            let (lo, up) = (s.range(0, 2), s.range(0, 2));
            D::from(r, c, |i, j| if i <= j + lo && j <= i + up { el(s, k) } else { 0.0 })
        }
        5 => {
            s.label("low rank product");
            let k = s.range(1, r.min(c));
            let (x, y) = (plain(s, r, k, sp), plain(s, k, c, sp));
            x.mul(&y)
        }
        6 => {
            s.label("repeated rows or columns");
            let mut a = plain(s, r, c, sp);
            for _ in 0..s.range(1, 3) {
                if s.bool() {
                    let (i, k) = (s.range(0, r - 1), s.range(0, r - 1));
                    let f = [1.0, -1.0, 2.0, 3.0][s.below(4) as usize];
                    for j in 0..c {
                        let v = a.at(k, j) * f;
                        a.put(i, j, v);
                    }
                } else {
                    let (i, k) = (s.range(0, c - 1), s.range(0, c - 1));
                    let f = [1.0, -1.0, 2.0, 3.0][s.below(4) as usize];
                    for j in 0..r {
                        let v = a.at(j, k) * f;
                        a.put(j, i, v);
                    }
                }
            }
            a
        }
        7 => {
            s.label("scaled permutation");
            let n = r.max(c);
            let p = perm(s, n);
            let k = el_kind(s, sp);
            D::from(r, c, |i, j| if p[i] == j { el(s, k) } else { 0.0 })
        }
        8 => {
            s.label("orthogonal");
            let q = orth(s, r.max(c));
            D::from(r, c, |i, j| q.at(i, j))
        }
        9 => {
            s.label("constant");
            let k = el_kind(s, sp);
            let v = el(s, k);
            D::from(r, c, |_, _| v)
        }
        10 => {
            s.label("ill-conditioned classic");
            match s.below(3) {
                0 => D::from(r, c, |i, j| 1.0 / (i + j + 1) as f64),
                1 => D::from(r, c, |i, j| (1.0 + j as f64 * 0.25).powi(i as i32 % 8)),
                _ => D::from(r, c, |i, j| if i == j { 1.0 } else if j > i { -1.0 } else { 0.0 }),
            }
        }
        11 => {
            s.label("graded");
            let mut a = plain(s, r, c, sp);
            for i in 0..r {
                let e = p2(s.int(sp.grade));
                for j in 0..c {
                    let v = a.at(i, j) * e;
                    a.put(i, j, v);
                }
            }
            if s.bool() {
                for j in 0..c {
                    let e = p2(s.int(sp.grade));
                    for i in 0..r {
                        let v = a.at(i, j) * e;
                        a.put(i, j, v);
                    }
                }
            }
            a
        }
        12 => {
            s.label("zero rows or columns");
            let mut a = plain(s, r, c, sp);
            for _ in 0..s.range(1, 3) {
                if s.bool() {
                    let i = s.range(0, r - 1);
                    for j in 0..c {
                        a.put(i, j, 0.0);
                    }
                } else {
                    let j = s.range(0, c - 1);
                    for i in 0..r {
                        a.put(i, j, 0.0);
                    }
                }
            }
            a
        }
        13 => {
            s.label("nearly degenerate");
            let k = s.range(1, r.min(c));
            let a = if s.bool() {
                let x = D::from(r, k, |_, _| s.int(3) as f64);
                let y = D::from(k, c, |_, _| s.int(3) as f64);
                x.mul(&y)
            } else {
                D::from(r, c, |_, _| s.int(3) as f64)
            };
            let e = p2(-(s.range(4, sp.mid as usize * 2) as i64));
            D::from(r, c, |i, j| a.at(i, j) + s.int(3) as f64 * e)
        }
        14 => {
            s.label("block structure");
            let (br, bc) = (s.range(0, r), s.range(0, c));
            let k = el_kind(s, sp);
            let upper = s.bool();
            D::from(r, c, |i, j| if (i < br) == (j < bc) || (upper && i < br) { el(s, k) } else { 0.0 })
        }
        17 => {
            let k = if s.bool() { El::Ints(3) } else { el_kind(s, sp) };
            let form = s.below(8);
            let n = r.max(c);
            let q = if form == 5 { orth(s, n) } else { D::id(n) };
            let p = perm(s, n);
            let v = el(s, k);
            let b = D::from(n, n, |i, j| {
                let on = match form {
                    0 => i <= j,
                    1 => i == j,
                    2 => i <= j,
                    3 => i >= j,
                    4 => p[i] == j,
                    5 => return q.at(i, j),
                    6 => return v,
                    _ => i <= j && j <= i + 1,
                };
                if on { el(s, k) } else { 0.0 }
            });
            let sym = form == 0 || form == 7;
            let a = D::from(r, c, |i, j| if sym && i > j { b.at(j, i) } else { b.at(i, j) });
            almost(s, &a, sp)
        }
        16 => {
            // each elimination step leaves rounding noise of the last one's noise: it shrinks
            // until it underflows, while some columns stay of order one
            s.label("low rank with rounding noise");
            let k = s.range(1, r.min(c).min(3));
            let d = [3.0, 7.0, 8.0, 10.0][s.below(4) as usize];
            let x = D::from(r, k, |_, _| s.int(3) as f64);
            let y = D::from(k, c, |_, _| s.int(3) as f64);
            let mut a = x.mul(&y).scale(1.0 / d);
            for _ in 0..s.range(0, 3) {
                let (i, j) = (s.range(0, r - 1), s.range(0, c - 1));
                let v = s.int(3) as f64;
                a.put(i, j, v);
            }
            a
        }
        _ => {
            s.label("plain, some elements replaced");
            let mut a = plain(s, r, c, sp);
            let k = el_kind(s, sp);
            for _ in 0..s.range(1, 4) {
                let (i, j) = (s.range(0, r - 1), s.range(0, c - 1));
                let v = el(s, k);
                a.put(i, j, v);
            }
            a
        }
    };
    if s.chance(1, 10) {
        // all of it small or large: nothing may depend on an absolute threshold
        let e = p2(s.int(sp.wide as i64));
        a = a.scale(e);
        s.label("scaled as a whole");
    }
    if s.chance(1, 16) {
        // negative zeros
        for v in a.d.iter_mut() {
            if *v == 0.0 {
                *v = -0.0;
            }
        }
        s.label("negative zeros");
    }
    a
}

pub fn perm(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in 0..n {
        let j = s.range(i, n - 1);
        p.swap(i, j);
    }
    p
}

/// Square matrices with extra shapes that matter to eigenvalue iterations.
pub fn square(s: &mut Src, n: usize, sp: Span) -> D {
    match s.pick(&[50, 6, 6, 6, 6, 6, 6, 6, 8, 6, 8]) {
        0 => general(s, n, n, sp),
        10 => {
            // lopsided 2x2 blocks, or a diagonal similarity of something plain
            s.label("graded similarity");
            let mut a = match s.below(3) {
                0 => plain(s, n, n, sp),
                1 => D::from(n, n, |i, j| if i <= j + 1 { s.int(4) as f64 } else { 0.0 }),
                _ => {
                    let odd = s.below(2) as usize;
                    D::from(n, n, |i, j| if i <= j || (i == j + 1 && i % 2 != odd) { s.int(4) as f64 } else { 0.0 })
                }
            };
            let e: Vec<i64> = (0..n).map(|_| s.int(sp.grade)).collect();
            for i in 0..n {
                for j in 0..n {
                    let v = a.at(i, j) * p2(e[i] - e[j]);
                    a.put(i, j, v);
                }
            }
            a
        }
        1 => {
            s.label("companion");
            D::from(n, n, |i, j| if i == 0 { s.int(5) as f64 } else if i == j + 1 { 1.0 } else { 0.0 })
        }
        2 => {
            s.label("circulant");
            let v: Vec<f64> = (0..n).map(|_| s.int(3) as f64).collect();
            D::from(n, n, |i, j| v[(j + n - i) % n])
        }
        3 => {
            s.label("Jordan blocks");
            let mut lam = s.int(3) as f64;
            let mut a = D::zero(n, n);
            for i in 0..n {
                a.put(i, i, lam);
                if i + 1 < n {
                    if s.chance(2, 3) {
                        a.put(i, i + 1, 1.0);
                    } else {
                        lam = s.int(3) as f64;
                    }
                }
            }
            a
        }
        4 => {
            s.label("cyclic shift");
            let p = perm(s, n);
            D::from(n, n, |i, j| if p[i] == j { 1.0 } else { 0.0 })
        }
        5 => {
            s.label("skew-symmetric");
            let b = plain(s, n, n, sp);
            D::from(n, n, |i, j| b.at(i, j) - b.at(j, i))
        }
        6 => {
            s.label("Toeplitz");
            let v: Vec<f64> = (0..2 * n).map(|_| s.int(4) as f64).collect();
            D::from(n, n, |i, j| v[n + j - i])
        }
        7 => {
            s.label("0/1 matrix");
            D::from(n, n, |_, _| s.below(2) as f64)
        }
        9 => {
            // few distinct eigenvalues, each repeated, complex pairs included: the Hessenberg form
            // falls apart up to rounding noise
            s.label("polynomial in a permutation");
            let p = perm(s, n);
            let (a0, a1, a2, b) = (s.int(3) as f64, s.int(3) as f64, s.int(2) as f64, s.int(4) as f64);
            D::from(n, n, |i, j| {
                b + if i == j { a0 } else { 0.0 } + if p[i] == j { a1 } else { 0.0 } + if p[p[i]] == j { a2 } else { 0.0 }
            })
        }
        _ => {
            s.label("quasi-triangular with 2x2 blocks");
            let mut a = D::from(n, n, |i, j| if i <= j { s.int(4) as f64 } else { 0.0 });
            let mut i = 0;
            while i + 1 < n {
                if s.chance(2, 3) {
                    let (b, c) = (1 + s.below(4) as i64, 1 + s.below(4) as i64);
                    a.put(i, i + 1, b as f64);
                    a.put(i + 1, i, -(c as f64));
                    let d = a.at(i, i);
                    a.put(i + 1, i + 1, d);
                    i += 2;
                } else {
                    i += 1;
                }
            }
            a
        }
    }
}

/// Repeated complex eigenvalues: the Hessenberg form falls apart up to rounding noise.
pub fn repeated(s: &mut Src) -> D {
    let n = s.range(3, 9);
    match s.below(3) {
        0 => {
            let v: Vec<f64> = (0..n).map(|_| s.int(3) as f64).collect();
            D::from(n, n, |i, j| v[(j + n - i) % n])
        }
        1 => {
            let p = perm(s, n);
            let (b, x, y, z) = (s.int(4) as f64, s.int(3) as f64, s.int(3) as f64, s.int(1) as f64);
            D::from(n, n, |i, j| b + if i == j { x } else { 0.0 } + if p[i] == j { y } else { 0.0 } + if p[p[i]] == j { z } else { 0.0 })
        }
        _ => {
            // Q diag(B, B, ...) Q'
            let (x, y) = (if s.bool() { 0.0 } else { s.int(2) as f64 }, 1.0 + s.below(3) as f64);
            let q = orth(s, n);
            let b = D::from(n, n, |i, j| {
                if i / 2 != j / 2 || i / 2 * 2 + 1 >= n {
                    if i == j { x } else { 0.0 }
                } else if i == j {
                    x
                } else if i < j {
                    y
                } else {
                    -y
                }
            });
            q.mul(&b).mul(&q.t())
        }
    }
}

/// Exactly symmetric matrices.
pub fn symmetric(s: &mut Src, n: usize, sp: Span) -> D {
    let b = match s.pick(&[40, 10, 10, 10, 10, 10]) {
        0 => general(s, n, n, sp),
        1 => {
            s.label("Gram matrix");
            let k = s.range(1, n + 1);
            let b = D::from(n, k, |_, _| s.int(4) as f64);
            b.mul(&b.t())
        }
        2 => {
            s.label("chosen spectrum");
            let q = orth(s, n);
            let k = el_kind(s, sp);
            let lam: Vec<f64> = (0..n).map(|_| el(s, k)).collect();
            D::from(n, n, |i, j| (0..n).map(|k| q.at(i, k) * lam[k] * q.at(j, k)).sum())
        }
        3 => {
            s.label("symmetric tridiagonal");
            let k = el_kind(s, sp);
            D::from(n, n, |i, j| if i <= j && j <= i + 1 { el(s, k) } else { 0.0 })
        }
        4 => {
            s.label("repeated eigenvalues");
            let v = s.int(4) as f64;
            let w = s.int(4) as f64;
            let q = orth(s, n);
            let cut = s.range(0, n);
            D::from(n, n, |i, j| (0..n).map(|k| q.at(i, k) * (if k < cut { v } else { w }) * q.at(j, k)).sum())
        }
        _ => {
            s.label("arrow / anti-diagonal");
            if s.bool() {
                D::from(n, n, |i, j| if i == 0 || i == j { s.int(4) as f64 } else { 0.0 })
            } else {
                D::from(n, n, |i, j| if i + j == n - 1 { s.int(4) as f64 } else { 0.0 })
            }
        }
    };
    // mirror the upper triangle: exact symmetry
    D::from(n, n, |i, j| if i <= j { b.at(i, j) } else { b.at(j, i) })
}

/// A few elements moved by a small relative amount, or zeros made small: what was symmetric,
/// diagonal, triangular, orthogonal, ... is only nearly so, by any amount from visible to rounding.
pub fn almost(s: &mut Src, a: &D, sp: Span) -> D {
    s.label("almost structured");
    let mut b = a.clone();
    let top = a.d.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    for _ in 0..s.range(1, 3) {
        let (i, j) = (s.range(0, a.r - 1), s.range(0, a.c - 1));
        let e = p2(-(s.range(3, sp.mid as usize * 2 + 4) as i64)) * (1 + s.below(3)) as f64 * if s.bool() { -1.0 } else { 1.0 };
        let v = b.at(i, j);
        b.put(i, j, if v == 0.0 { top * e } else { v * (1.0 + e) });
    }
    b
}

/// Symmetric or otherwise structured and well-conditioned: strictly diagonally dominant.
fn dominant(s: &mut Src, n: usize) -> D {
    let kind = s.below(5);
    let w = s.range(0, 2);
    let b = D::from(n, n, |i, j| {
        let on = match kind {
            0 => true,
            1 => false,
            2 => i < j,
            3 => i > j,
            _ => i.abs_diff(j) <= w,
        };
        if on && i != j { s.int(5) as f64 / 8.0 } else { 0.0 }
    });
    let sym = kind == 0 || kind == 4;
    let b = if sym { D::from(n, n, |i, j| b.at(i.min(j), i.max(j))) } else { b };
    let sgn = s.below(3);
    D::from(n, n, |i, j| {
        if i == j {
            let row: f64 = (0..n).map(|k| b.at(i, k).abs()).sum();
            let col: f64 = (0..n).map(|k| b.at(k, i).abs()).sum();
            (1.0 + row.max(col)) * if sgn == 2 && s.bool() { -1.0 } else { 1.0 }
        } else {
            b.at(i, j)
        }
    })
}

/// Well-conditioned square matrices: strictly diagonally dominant after a row permutation,
/// orthogonal with a moderate diagonal scaling, or nearly symmetric, triangular or diagonal.
/// Singular values: independent, or all but equal to one of a few.
fn values<F: Fn(&mut Src) -> f64>(s: &mut Src, n: usize, f: F) -> Vec<f64> {
    if n < 2 || !s.chance(1, 4) {
        return (0..n).map(|_| f(s)).collect();
    }
    s.label("clustered singular values");
    let c = [f(s), f(s)];
    let e = 18 + s.below(32) as i64;
    (0..n).map(|_| c[s.below(2) as usize] * (1.0 + s.int(4) as f64 * p2(-e))).collect()
}

pub fn well_conditioned(s: &mut Src, n: usize) -> D {
    match s.below(4) {
        3 => {
            let a = dominant(s, n);
            match s.below(3) {
                0 => a,
                1 => almost(s, &a, SPAN64),
                _ => almost(s, &a, SPAN32),
            }
        }
        0 => {
            let b = D::from(n, n, |_, _| s.int(5) as f64 / 8.0);
            let p = perm(s, n);
            let mut a = D::zero(n, n);
            for i in 0..n {
                let row: f64 = (0..n).map(|j| b.at(i, j).abs()).sum();
                for j in 0..n {
                    a.put(i, j, b.at(i, j));
                }
                let sgn = if s.bool() { -1.0 } else { 1.0 };
                a.put(i, p[i], sgn * (1.0 + row));
            }
            a
        }
        1 => {
            let q = orth(s, n);
            let d = values(s, n, |s| 1.0 + s.below(8) as f64);
            D::from(n, n, |i, j| q.at(i, j) * d[j])
        }
        _ => {
            let (q, z) = (orth(s, n), orth(s, n));
            let d = values(s, n, |s| 1.0 + s.below(16) as f64 / 2.0);
            D::from(n, n, |i, j| (0..n).map(|k| q.at(i, k) * d[k] * z.at(j, k)).sum())
        }
    }
}

/// Tall (or square) matrix of full column rank with moderate condition number.
pub fn tall_full_rank(s: &mut Src, m: usize, n: usize) -> D {
    if s.chance(1, 5) {
        // a well-conditioned square part on top of small rows
        s.label("square part and small rows");
        let a = well_conditioned(s, n);
        let e = if s.chance(1, 3) { 0.0 } else { p2(-(s.below(40) as i64)) };
        let a = D::from(m, n, |i, j| if i < n { a.at(i, j) } else { e * s.int(2) as f64 / 4.0 });
        if s.bool() {
            return a;
        }
        // anywhere among the small rows
        let p = perm(s, m);
        return a.rows_of(&p);
    }
    let q = orth(s, m);
    let z = orth(s, n);
    let d = values(s, n, |s| 1.0 + s.below(16) as f64 / 2.0);
    let a = D::from(m, n, |i, j| (0..n).map(|k| q.at(i, k) * d[k] * z.at(j, k)).sum());
    let p = perm(s, m);
    a.rows_of(&p)
}

pub fn colnorm(a: &D, j: usize) -> f64 {
    norm(&a.col(j))
}

/// A long and a short side.
pub fn thin(s: &mut Src) -> (usize, usize) {
    (s.range(20, 200), s.range(1, 6))
}

/// A size in `lo..=hi`, and now and then one up to `max`, more often than not at or next to the
/// sizes where blocked or tiled code changes path.
pub fn tail(s: &mut Src, lo: usize, hi: usize, max: usize) -> usize {
    if max <= hi || !s.chance(1, 16) {
        return s.range(lo, hi);
    }
    if s.bool() {
        return s.range(hi, max);
    }
    let n = [64, 96, 100, 128][s.below(4) as usize] + s.range(0, 2) - 1;
    n.clamp(lo, max)
}

/// The identity or any matrix with some elements down to the bottom of the range: noise of noise.
pub fn noisy(s: &mut Src, m: usize, n: usize, w: Span, top: u64) -> D {
    if s.chance(1, 4) {
        return graded_far(s, m, n, top);
    }
    let mut a = if s.bool() { D::from(m, n, |i, j| if i == j { 1.0 } else { 0.0 }) } else { general(s, m, n, w) };
    for _ in 0..s.range(1, 6) {
        let (i, j) = (s.range(0, m - 1), s.range(0, n - 1));
        let e = -(s.below(top) as i32);
        let v = (1.0 + s.below(16) as f64 / 16.0) * 2f64.powi(e / 2) * 2f64.powi(e - e / 2) * if s.bool() { -1.0 } else { 1.0 };
        a.put(i, j, v);
        if s.bool() && j < m && i < n {
            a.put(j, i, v);
        }
    }
    a
}

/// Dense or banded, rows (and columns) graded upwards, downwards or at random over the whole range.
fn graded_far(s: &mut Src, m: usize, n: usize, top: u64) -> D {
    let order = s.below(4);
    let both = s.bool();
    let band = s.below(3) as usize;
    let span = 1 + s.below(top);
    let mut exps = |s: &mut Src, k: usize| {
        let mut e: Vec<i32> = (0..k).map(|_| -(s.below(if both { span / 2 + 1 } else { span }) as i32)).collect();
        match order {
            0 => e.sort(),
            1 => {
                e.sort();
                e.reverse()
            }
            _ => {}
        }
        e
    };
    let r = exps(s, m);
    let c = if both { exps(s, n) } else { vec![0; n] };
    D::from(m, n, |i, j| {
        let v = s.int(4) as f64 + if s.bool() { 0.25 } else { 0.0 };
        if band > 0 && (i > j + band - 1 || j > i + 1) { 0.0 } else { v * 2f64.powi(r[i] / 2) * 2f64.powi(r[i] - r[i] / 2) * 2f64.powi(c[j]) }
    })
}
