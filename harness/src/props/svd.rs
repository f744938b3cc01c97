//! C15 (SVD), C16 (rank), C17 (direct SVD).

use super::lu::span;
use super::qr::orth_err;
use crate::cf::Fl;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::refm::{irank, D};
use la::*;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            rule: "matrices of any shape from structured families, also scaled by large powers of two; U and V orthogonal, S exactly diagonal with non-negative non-increasing diagonal, |A - U S V'| within c (m+n) eps |A|; constructed singular values must come out; scaling by 2^k scales S. Non-trivial: at least 2 rows and 2 columns and not the zero matrix.",
            groups: vec![
                Group { name: "f64", f: factors::<f64>, quick: 400000, thorough: 20000000 },
                Group { name: "f32", f: factors::<f32>, quick: 250000, thorough: 10000000 },
                Group { name: "known values f64", f: known::<f64>, quick: 200000, thorough: 8000000 },
                Group { name: "known values f32", f: known::<f32>, quick: 80000, thorough: 3000000 },
                Group { name: "scaling f64", f: scaling::<f64>, quick: 80000, thorough: 3000000 },
                Group { name: "scaling f32", f: scaling::<f32>, quick: 40000, thorough: 1000000 },
                Group { name: "noise f64", f: noise::<f64>, quick: 60000, thorough: 1600000 },
                Group { name: "noise f32", f: noise::<f32>, quick: 60000, thorough: 1600000 },
                Group { name: "large", f: large, quick: 600, thorough: 30000 },
            ],
            assumptions: &["elements of magnitude between about 2^-400 and 2^400 (f64), 2^-20 and 2^20 (f32)"],
        },
        Property {
            id: "C16",
            rule: "matrices whose rank is known by construction (integer products ranked exactly modulo a prime, scaled permutations, zero, chosen singular values well above or well below the threshold), and any matrix against its own computed singular values with a factor-2 guard band; transposition and scaling by 2^k change nothing. Non-trivial: at least 2 rows and 2 columns.",
            groups: vec![
                Group { name: "integers f64", f: rank_int::<f64>, quick: 300000, thorough: 10000000 },
                Group { name: "integers f32", f: rank_int::<f32>, quick: 150000, thorough: 5000000 },
                Group { name: "permutations f64", f: rank_perm::<f64>, quick: 150000, thorough: 4000000 },
                Group { name: "permutations f32", f: rank_perm::<f32>, quick: 100000, thorough: 3000000 },
                Group { name: "chosen values f64", f: rank_chosen::<f64>, quick: 150000, thorough: 5000000 },
                Group { name: "chosen values f32", f: rank_chosen::<f32>, quick: 100000, thorough: 3000000 },
                Group { name: "large", f: rank_large, quick: 400, thorough: 20000 },
                Group { name: "any f64", f: rank_any::<f64>, quick: 200000, thorough: 6000000 },
                Group { name: "any f32", f: rank_any::<f32>, quick: 100000, thorough: 3000000 },
            ],
            assumptions: &["matrices with a singular value within a factor 2 of the threshold are only checked for not contradicting it"],
        },
        Property {
            id: "C17",
            rule: "full-rank matrices of every shape with chosen singular values (condition number at most 100 in f64, 6 in f32; some clustered), permuted and scaled by powers of two; U, V orthogonal, S diagonal and positive, product, and singular values equal to the chosen ones and to those of the standard method, within c (m+n) eps cond^2. Non-trivial: at least 2 rows and 2 columns.",
            groups: vec![
                Group { name: "f64", f: direct::<f64>, quick: 300000, thorough: 10000000 },
                Group { name: "f32", f: direct::<f32>, quick: 150000, thorough: 5000000 },
                Group { name: "large", f: direct_large, quick: 300, thorough: 8000 },
            ],
            assumptions: &["condition number at most about 100 (f64), 6 (f32)"],
        },
    ]
}

/// An exact power of two near the largest entry, so that comparisons can be made at ordinary scale.
pub fn scale_of(a: &D) -> f64 {
    let m = a.max();
    if m == 0.0 {
        1.0
    } else {
        2f64.powi(m.log2().floor() as i32)
    }
}

pub fn exponent(a: &D) -> i32 {
    let m = a.max();
    if m == 0.0 { 0 } else { m.log2().floor() as i32 }
}

/// 2^k A in two steps, for exponents whose power is itself out of range.
pub fn shifted(a: &D, k: i32) -> D {
    a.scale(2f64.powi(k / 2)).scale(2f64.powi(k - k / 2))
}

/// The least positive number.
pub fn least<F: Fl>() -> f64 {
    if F::IS32 { 2f64.powi(-140) / 512.0 } else { f64::from_bits(1) }
}

/// A power of two that may be applied to A without leaving the range.
pub fn any_shift<F: Fl>(s: &mut Src, a: &D) -> i32 {
    let k = s.int(if F::IS32 { 140 } else { 1060 }) as i32;
    let top = if F::IS32 { 124 } else { 1020 };
    let room = top - exponent(a) - 8;
    if k > room { -k } else { k }
}

pub struct Parts {
    pub u: D,
    pub s: D,
    pub v: D,
    pub sv: Vec<f64>,
}

pub fn parts<F: Fl>(d: &SVD<F>) -> Parts {
    let (u, s, v) = (D::of(d.get_u()), D::of(d.get_s()), D::of(d.get_v()));
    let sv = (0..s.r.min(s.c)).map(|i| s.at(i, i)).collect();
    Parts { u, s, v, sv }
}

/// Shapes, finiteness, exact diagonality, order.  `pos`: the diagonal must be positive.
fn form(p: &Parts, m: usize, n: usize, pos: bool) -> R {
    ensure!((p.u.r, p.u.c) == (m, m) && (p.v.r, p.v.c) == (n, n) && (p.s.r, p.s.c) == (m, n), "shapes: U {}x{}, S {}x{}, V {}x{} for a {}x{} matrix", p.u.r, p.u.c, p.s.r, p.s.c, p.v.r, p.v.c, m, n);
    ensure!(p.u.finite() && p.s.finite() && p.v.finite(), "not finite: U {:?} S {:?} V {:?}", p.u, p.s, p.v);
    for i in 0..m {
        for j in 0..n {
            ensure!(i == j || p.s.at(i, j) == 0.0, "S({}, {}) is {:?}, off the diagonal", i, j, p.s.at(i, j));
        }
    }
    for (i, x) in p.sv.iter().enumerate() {
        ensure!(if pos { *x > 0.0 } else { *x >= 0.0 }, "singular value {} is {:?}", i, x);
        ensure!(i == 0 || p.sv[i - 1] >= *x, "singular values not in non-increasing order: {:?}", p.sv);
    }
    Ok(())
}

fn svd_bound<F: Fl>(m: usize, n: usize) -> f64 {
    48.0 * ((m + n) as f64 + 4.0) * F::EPS
}

fn check<F: Fl>(s: &mut Src, a: &D) -> Result<Parts, Bad> {
    let (m, n) = (a.r, a.c);
    let p = parts(&SVD::new(&a.lib::<F>()));
    form(&p, m, n, false)?;
    let c = svd_bound::<F>(m, n);
    for (what, q) in [("U", &p.u), ("V", &p.v)] {
        let e = orth_err(q);
        s.stat("orthogonality / bound", e / c);
        ensure!(e <= c, "{} is not orthogonal: |Q'Q - I| = {:e}, allowed {:e}; {:?}", what, e, c, q);
    }
    let k = exponent(a);
    let an = shifted(a, -k);
    let e = an.sub(&p.u.mul(&shifted(&p.s, -k)).mul(&p.v.t())).fro();
    // singular values below the normal range are rounded absolutely
    let tol = c * an.fro() + n.min(m) as f64 * shifted(&D::from(1, 1, |_, _| least::<F>()), -k).at(0, 0);
    s.label_if(k < if F::IS32 { -126 } else { -1022 }, "subnormal");
    s.stat("residual / bound", if tol > 0.0 { e / tol } else { 0.0 });
    ensure!(e <= tol, "|A - USV'| / |A| = {:e}, allowed {:e}; U {:?} S {:?} V {:?}", e / an.fro(), c, p.u, p.sv, p.v);
    s.label(if m == n { "square" } else if m > n { "tall" } else { "wide" });
    s.nontrivial_if(m >= 2 && n >= 2 && !a.is_zero());
    Ok(p)
}

fn dims<F: Fl>(s: &mut Src) -> (usize, usize) {
    let cap = if F::IS32 { 9 } else { 13 };
    let m = gen::dim(s, cap);
    let n = if s.chance(1, 3) { m } else { gen::dim(s, cap) };
    (m, n)
}

fn factors<F: Fl>(s: &mut Src) -> R {
    let (m, n) = dims::<F>(s);
    let mut a = gen::general(s, m, n, span::<F>());
    if s.chance(1, 6) {
        let k = any_shift::<F>(s, &a);
        a = shifted(&a, k);
        s.label("scaled");
    }
    let a = a.round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    check::<F>(s, &a).map(|_| ())
}

fn noise<F: Fl>(s: &mut Src) -> R {
    let m = gen::dim(s, 8);
    let n = if s.chance(1, 2) { m } else { gen::dim(s, 8) };
    let a = gen::noisy(s, m, n, span::<F>(), if F::IS32 { 148 } else { 1070 }).round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    check::<F>(s, &a).map(|_| ())
}

fn large(s: &mut Src) -> R {
    let (m, n) = if s.chance(1, 8) { gen::thin(s) } else { (gen::tail(s, 1, 60, 140), gen::tail(s, 10, 60, 140)) };
    let mut a = gen::general(s, m, n, span::<f64>());
    if s.bool() {
        a = a.t();
    }
    s.note(|| format!("{:?}", a));
    check::<f64>(s, &a).map(|_| ())
}

/// U diag(sv) V' with orthogonal factors, or a scaled permutation when `exact`.
fn with_values(s: &mut Src, m: usize, n: usize, sv: &[f64], exact: bool) -> D {
    if exact {
        let (p, q) = (gen::perm(s, m), gen::perm(s, n));
        let mut a = D::zero(m, n);
        for (k, v) in sv.iter().enumerate() {
            let g = if s.bool() { -1.0 } else { 1.0 };
            a.put(p[k], q[k], g * v);
        }
        a
    } else {
        let (u, v) = (gen::orth(s, m), gen::orth(s, n));
        let a = D::from(m, n, |i, j| sv.iter().enumerate().map(|(k, x)| u.at(i, k) * x * v.at(j, k)).sum());
        let p = gen::perm(s, m);
        a.rows_of(&p)
    }
}

fn known<F: Fl>(s: &mut Src) -> R {
    let (m, n) = dims::<F>(s);
    let k = m.min(n);
    let kind = s.below(3);
    let mut sv: Vec<f64> = (0..k)
        .map(|_| match kind {
            0 => s.below(6) as f64,
            1 => 2f64.powi(s.int(span::<F>().mid as i64) as i32),
            _ => 1.0 + s.below(3) as f64,
        })
        .collect();
    let exact = s.bool();
    let a = with_values(s, m, n, &sv, exact).round::<F>();
    sv.sort_by(|x, y| y.partial_cmp(x).unwrap());
    s.note(|| format!("{} singular values {:?}: {:?}", F::NAME, sv, a));
    let p = check::<F>(s, &a)?;
    let tol = svd_bound::<F>(m, n) * sv[0];
    for i in 0..k {
        s.stat("value error / bound", if tol > 0.0 { (p.sv[i] - sv[i]).abs() / tol } else { 0.0 });
        ensure!((p.sv[i] - sv[i]).abs() <= tol, "singular values {:?}, expected {:?} (allowed difference {:e})", p.sv, sv, tol);
    }
    Ok(())
}

fn scaling<F: Fl>(s: &mut Src) -> R {
    let (m, n) = dims::<F>(s);
    let a = gen::general(s, m, n, span::<F>()).round::<F>();
    let k = any_shift::<F>(s, &a);
    s.note(|| format!("{} 2^{:?} times {:?}", F::NAME, k, a));
    let p = check::<F>(s, &a)?;
    let q = check::<F>(s, &shifted(&a, k).round::<F>())?;
    let qs = shifted(&q.s, -k);
    // elements and singular values below the normal range are rounded absolutely
    let tol = 2.0 * svd_bound::<F>(m, n) * p.sv[0] + (m * n + 1) as f64 * shifted(&D::from(1, 1, |_, _| least::<F>()), -k).at(0, 0);
    for i in 0..p.sv.len() {
        ensure!((qs.at(i, i) - p.sv[i]).abs() <= tol, "singular values of 2^{:?} A: {:?}; of A: {:?}", k, q.sv, p.sv);
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn rank_is<F: Fl>(s: &mut Src, a: &D, want: usize, strict: bool, why: &str) -> R {
    let d = SVD::new(&a.lib::<F>());
    let r = d.rank();
    let p = parts(&d);
    let tol = a.r.max(a.c) as f64 * F::EPS * p.sv[0];
    if want < p.sv.len() && want > 0 {
        s.stat("noise / threshold", p.sv[want] / tol);
    }
    // rounding noise that comes within a factor 2 of the threshold may legitimately cross it
    let most = if strict || want == 0 { want } else { want + p.sv[want..].iter().filter(|x| **x > 0.5 * tol).count() };
    ensure!(want <= r && r <= most, "the rank of this {}x{} matrix is reported as {}, it is {} ({}); singular values {:?}", a.r, a.c, r, want, why, p.sv);
    Ok(())
}

/// The rank of A, A' and 2^k A.
fn rank_laws<F: Fl>(s: &mut Src, a: &D, want: usize, strict: bool, why: &str) -> R {
    s.label(if a.r == a.c { "square" } else if a.r > a.c { "tall" } else { "wide" });
    s.label_if(want == 0, "rank 0");
    s.label_if(want < a.r.min(a.c), "rank-deficient");
    s.nontrivial_if(a.r >= 2 && a.c >= 2);
    rank_is::<F>(s, a, want, strict, why)?;
    rank_is::<F>(s, &a.t(), want, strict, "the rank of its transpose")?;
    // the threshold itself stays in the normal range
    let k = s.int(if F::IS32 { 90 } else { 900 }) as i32;
    let low = if F::IS32 { -95 } else { -950 } - exponent(a);
    let k = if k < 0 { k.max(low.min(0)) } else { k };
    rank_is::<F>(s, &shifted(a, k), want, strict, "scaled by a power of two")
}

fn rank_int<F: Fl>(s: &mut Src) -> R {
    let m = gen::dim(s, 8);
    let n = if s.chance(1, 3) { m } else { gen::dim(s, 8) };
    let v: Vec<i64> = match s.below(4) {
        0 => (0..m * n).map(|_| s.int(3)).collect(),
        1 => (0..m * n).map(|_| s.int(1)).collect(),
        _ => {
            let k = s.range(0, m.min(n));
            let x: Vec<i64> = (0..m * k).map(|_| s.int(2)).collect();
            let y: Vec<i64> = (0..k * n).map(|_| s.int(2)).collect();
            let mut v = vec![0; m * n];
            for i in 0..m {
                for j in 0..n {
                    v[i * n + j] = (0..k).map(|l| x[i * k + l] * y[l * n + j]).sum();
                }
            }
            v
        }
    };
    let a = D::new(m, n, v.iter().map(|x| *x as f64).collect());
    let want = irank(m, n, &v);
    s.note(|| format!("{} {:?}", F::NAME, a));
    // The smallest non-zero singular value of an integer matrix of rank r is at least
    // 1 / (product of the others) >= 1 / s0^(r-1): compare only where that clears the threshold.
    let s0 = a.fro();
    let thr = m.max(n) as f64 * F::EPS * s0 * 64.0;
    if want >= 1 && s0.powi(want as i32 - 1) * thr >= 1.0 {
        // not guaranteed by theory; ask the computed singular values instead
        return banded::<F>(s, &a);
    }
    rank_laws::<F>(s, &a, want, false, "exact integer rank")
}

/// Compare with the singular values of the same decomposition, guarding the threshold.
fn banded<F: Fl>(s: &mut Src, a: &D) -> R {
    let d = SVD::new(&a.lib::<F>());
    let p = parts(&d);
    let r = d.rank();
    let tol = a.r.max(a.c) as f64 * F::EPS * p.sv[0];
    let sure = p.sv.iter().filter(|x| **x > 2.0 * tol).count();
    let most = p.sv.iter().filter(|x| **x > 0.5 * tol).count();
    s.label_if(sure == most, "clear of the threshold");
    s.label_if(sure < a.r.min(a.c), "rank-deficient");
    s.nontrivial_if(a.r >= 2 && a.c >= 2);
    ensure!(sure <= r && r <= most, "rank {} for singular values {:?} (threshold {:e})", r, p.sv, tol);
    Ok(())
}

fn rank_any<F: Fl>(s: &mut Src) -> R {
    let (m, n) = dims::<F>(s);
    let a = gen::general(s, m, n, span::<F>()).round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    banded::<F>(s, &a)
}

fn rank_large(s: &mut Src) -> R {
    let (mut m, mut n) = if s.chance(1, 8) { gen::thin(s) } else { (gen::tail(s, 12, 60, 140), gen::tail(s, 12, 60, 140)) };
    if s.bool() {
        std::mem::swap(&mut m, &mut n);
    }
    if s.bool() {
        return rank_perm_case::<f64>(s, m, n);
    }
    let a = gen::general(s, m, n, span::<f64>());
    s.note(|| format!("{:?}", a));
    banded::<f64>(s, &a)
}

fn rank_perm<F: Fl>(s: &mut Src) -> R {
    let (m, n) = dims::<F>(s);
    rank_perm_case::<F>(s, m, n)
}

fn rank_perm_case<F: Fl>(s: &mut Src, m: usize, n: usize) -> R {
    let k = s.range(0, m.min(n));
    let thr = m.max(n) as f64 * F::EPS;
    let mut want = 0;
    // the largest is 1; others clearly above or clearly below the threshold
    let sv: Vec<f64> = (0..k)
        .map(|i| {
            if i == 0 {
                want += 1;
                1.0
            } else if s.chance(1, 3) {
                thr / [1.5, 4.0, 1e3][s.below(3) as usize]
            } else {
                want += 1;
                [1.0, 0.5, thr * 1e3, thr * 4.0, thr * 1.5][s.below(5) as usize]
            }
        })
        .collect();
    let a = with_values(s, m, n, &sv, true).round::<F>();
    s.note(|| format!("{} {:?}: {:?}", F::NAME, sv, a));
    rank_laws::<F>(s, &a, want, true, "a scaled permutation")
}

fn rank_chosen<F: Fl>(s: &mut Src) -> R {
    let (m, n) = dims::<F>(s);
    let k = s.range(0, m.min(n));
    let lo = if F::IS32 { 6 } else { 20 };
    let sv: Vec<f64> = (0..k).map(|_| 2f64.powi(-(s.range(0, lo) as i32))).collect();
    let s0 = sv.iter().fold(0.0f64, |x, y| x.max(*y));
    let a = with_values(s, m, n, &sv, false).round::<F>();
    s.note(|| format!("{} {:?}: {:?}", F::NAME, sv, a));
    // rounding puts the zero singular values at about eps * s0, which is the threshold itself:
    // exact integers are used for deficient ranks, here only the lower bound is certain
    let r = SVD::new(&a.lib::<F>()).rank();
    if sv.iter().any(|x| *x < 1000.0 * m.max(n) as f64 * F::EPS * s0) {
        return discard();
    }
    s.nontrivial_if(m >= 2 && n >= 2);
    ensure!(r >= k, "the rank is reported as {}, {} singular values are well above the threshold: {:?}", r, k, sv);
    if k == m.min(n) || k == 0 {
        return rank_laws::<F>(s, &a, k, true, "chosen singular values");
    }
    banded::<F>(s, &a)
}

// ---------------------------------------------------------------- C17

fn direct_case<F: Fl>(s: &mut Src, m: usize, n: usize) -> R {
    let top = if F::IS32 { [1.0, 2.0, 4.0, 6.0][s.below(4) as usize] } else { [1.0, 2.0, 8.0, 30.0, 100.0][s.below(5) as usize] };
    let wide = s.chance(1, 4);
    s.label_if(wide, "any scale");
    let sc = 2f64.powi(s.int(if F::IS32 { if wide { 40 } else { 6 } } else if wide { 400 } else { 30 }) as i32);
    let k = m.min(n);
    let mut sv: Vec<f64> = (0..k).map(|_| sc * (1.0 + (top - 1.0) * s.below(9) as f64 / 8.0)).collect();
    if s.chance(1, 4) {
        // all but equal
        s.label("clustered singular values");
        let e = 2f64.powi(-(16 + s.below(34) as i32));
        for i in 0..k {
            let j = s.range(0, i);
            sv[i] = sv[j] * (1.0 + s.int(4) as f64 * e);
        }
    }
    let exact = s.chance(1, 4);
    let a = with_values(s, m, n, &sv, exact).round::<F>();
    sv.sort_by(|x, y| y.partial_cmp(x).unwrap());
    s.note(|| format!("{} singular values {:?}: {:?}", F::NAME, sv, a));
    s.label(if m == n { "square" } else if m > n { "tall" } else { "wide" });
    s.nontrivial_if(m >= 2 && n >= 2);
    let p = parts(&SVD::direct(&a.lib::<F>()));
    form(&p, m, n, true)?;
    let c = 64.0 * ((m + n) as f64 + 4.0) * F::EPS;
    let ev = orth_err(&p.v);
    // the eigenvectors of A'A come in V (tall) or U (wide); the other factor is amplified
    let cu = c * (1.1 * top).powi(2);
    s.stat("orthogonality / bound", ev.max(orth_err(&p.u)) / cu);
    ensure!(ev <= cu, "V is not orthogonal: |V'V - I| = {:e}, allowed {:e}; {:?}", ev, cu, p.v);
    let eu = orth_err(&p.u);
    ensure!(eu <= cu, "U is not orthogonal: |U'U - I| = {:e}, allowed {:e}; {:?}", eu, cu, p.u);
    let e = a.sub(&p.u.mul(&p.s).mul(&p.v.t())).fro() / a.fro();
    s.stat("residual / bound", e / cu);
    ensure!(e <= cu, "|A - USV'| / |A| = {:e}, allowed {:e}; U {:?} S {:?} V {:?}", e, cu, p.u, p.sv, p.v);
    let std = parts(&SVD::new(&a.lib::<F>()));
    ensure!(std.sv.len() == k && p.sv.len() == k, "number of singular values");
    for i in 0..k {
        let d = (p.sv[i] - sv[i]).abs().max((p.sv[i] - std.sv[i]).abs()) / sv[0];
        s.stat("values / bound", d / cu);
        ensure!(d <= cu, "singular values {:?}, standard method {:?}, constructed {:?}", p.sv, std.sv, sv);
    }
    Ok(())
}

fn direct<F: Fl>(s: &mut Src) -> R {
    let (m, n) = dims::<F>(s);
    direct_case::<F>(s, m, n)
}

fn direct_large(s: &mut Src) -> R {
    let (mut m, mut n) = if s.chance(1, 8) { gen::thin(s) } else { (gen::tail(s, 8, 40, 130), gen::tail(s, 8, 40, 130)) };
    if s.bool() {
        std::mem::swap(&mut m, &mut n);
    }
    direct_case::<f64>(s, m, n)
}
