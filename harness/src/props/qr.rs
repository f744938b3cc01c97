//! C10 (QR factors), C11 (least squares), C18 (pseudo-inverse).

use super::svd::{any_shift, least, shifted};
use super::lu::span;
use crate::cf::Fl;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::refm::{norm, D};
use la::*;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "a matrix of any shape is drawn from 18 structured families; Q must be m x m and orthogonal, R upper trapezoidal, the residual of QR within c m k eps of each column's norm, the Householder vectors lower trapezoidal and their reflections, applied in order in f64, must turn A into R. Non-trivial: at least 2 rows and 2 columns or a single column with at least 2 rows.",
            groups: vec![
                Group { name: "f64", f: factors::<f64>, quick: 300000, thorough: 8000000 },
                Group { name: "f32", f: factors::<f32>, quick: 100000, thorough: 3000000 },
                Group { name: "noise f64", f: noise::<f64>, quick: 60000, thorough: 1600000 },
                Group { name: "noise f32", f: noise::<f32>, quick: 60000, thorough: 1600000 },
                Group { name: "scaled f64", f: factors_scaled::<f64>, quick: 60000, thorough: 1600000 },
                Group { name: "scaled f32", f: factors_scaled::<f32>, quick: 60000, thorough: 1600000 },
                Group { name: "large", f: factors_large, quick: 300, thorough: 8000 },
            ],
            assumptions: &["norms of the columns do not overflow"],
        },
        Property {
            id: "C11",
            rule: "full-column-rank systems (known singular values, permuted rows, graded columns, any scale) and arbitrary matrices with several right-hand sides: the residual must be orthogonal to every column within the backward-error bound, solve must be None exactly when is_full_rank is false, and the predicate must be right where the rank is known by construction. Non-trivial: at least 2 columns, or at least 2 rows.",
            groups: vec![
                Group { name: "full rank f64", f: full_rank::<f64>, quick: 150000, thorough: 4000000 },
                Group { name: "full rank f32", f: full_rank::<f32>, quick: 60000, thorough: 1500000 },
                Group { name: "any matrix f64", f: any_matrix::<f64>, quick: 150000, thorough: 4000000 },
                Group { name: "any matrix f32", f: any_matrix::<f32>, quick: 50000, thorough: 1000000 },
                Group { name: "predicate", f: predicate, quick: 60000, thorough: 1500000 },
                Group { name: "scaled f64", f: full_rank_scaled::<f64>, quick: 40000, thorough: 1000000 },
                Group { name: "scaled f32", f: full_rank_scaled::<f32>, quick: 20000, thorough: 500000 },
                Group { name: "exact elimination f64", f: permuted::<f64>, quick: 20000, thorough: 500000 },
                Group { name: "exact elimination f32", f: permuted::<f32>, quick: 10000, thorough: 300000 },
                Group { name: "large", f: solve_large, quick: 200, thorough: 5000 },
            ],
            assumptions: &["solutions stay in range (others are discarded)"],
        },
        Property {
            id: "C18",
            rule: "full-column-rank matrices with known condition number (square and tall): the four Moore-Penrose conditions and X A = I within c (m+n) eps cond^3; and matrices with orthogonal columns of very different length (up to 2^20 apart), where the length cancels out of the error, within c (m+n) eps cond. Non-trivial: at least 2 columns.",
            groups: vec![
                Group { name: "f64", f: pinv::<f64>, quick: 100000, thorough: 2500000 },
                Group { name: "f32", f: pinv::<f32>, quick: 30000, thorough: 800000 },
                Group { name: "orthogonal columns f64", f: pinv_columns::<f64>, quick: 30000, thorough: 800000 },
                Group { name: "orthogonal columns f32", f: pinv_columns::<f32>, quick: 15000, thorough: 400000 },
                Group { name: "large", f: pinv_large, quick: 200, thorough: 4000 },
            ],
            assumptions: &["condition number at most about 300 (with orthogonal columns, 2^20)"],
        },
    ]
}

/// Largest entry of |Q'Q - I|.
pub fn orth_err(q: &D) -> f64 {
    q.t().mul(q).sub(&D::id(q.c)).max()
}

// ---------------------------------------------------------------- C10

fn check_factors<F: Fl>(s: &mut Src, a: &D) -> R {
    check_shifted::<F>(s, a, 0)
}

/// The factors of 2^p A, compared at the scale of A.
fn check_shifted<F: Fl>(s: &mut Src, a: &D, p: i32) -> R {
    let a = shifted(a, p).round::<F>();
    let (m, n) = (a.r, a.c);
    let k = m.min(n);
    let d = QRDecomposition::new(&a.lib::<F>());
    let (q, r, h) = (D::of(&d.get_q()), D::of(&d.get_r()), D::of(&d.get_h()));
    ensure!((q.r, q.c) == (m, m), "Q is {}x{}, expected {}x{}", q.r, q.c, m, m);
    ensure!((r.r, r.c) == (m, n), "R is {}x{}, expected {}x{}", r.r, r.c, m, n);
    ensure!((h.r, h.c) == (m, n), "H is {}x{}, expected {}x{}", h.r, h.c, m, n);
    ensure!(q.finite() && r.finite() && h.finite(), "non-finite factors: Q {:?} R {:?} H {:?}", q, r, h);
    for i in 0..m {
        for j in 0..n {
            if i > j {
                ensure!(r.at(i, j) == 0.0, "R({}, {}) is {:?}, below the diagonal", i, j, r.at(i, j));
            }
            if i < j {
                ensure!(h.at(i, j) == 0.0, "H({}, {}) is {:?}, above the diagonal", i, j, h.at(i, j));
            }
        }
    }
    let tol = 8.0 * (m as f64 + 4.0) * (k as f64 + 2.0) * F::EPS;
    let (a, r) = (shifted(&a, -p), shifted(&r, -p));
    // what lies below the normal range is rounded absolutely, in every step
    let low = if p < 0 { 8.0 * (m * (k + 1)) as f64 * shifted(&D::from(1, 1, |_, _| least::<F>()), -p).at(0, 0) } else { 0.0 };
    let oe = orth_err(&q);
    s.stat("orthogonality / bound", oe / tol);
    ensure!(oe <= tol, "Q is not orthogonal: |Q'Q - I| = {:e}, allowed {:e}; Q {:?}", oe, tol, q);
    let qr = q.mul(&r);
    let mut w = a.clone();
    for c in 0..k {
        let u: Vec<f64> = (0..m).map(|i| if i >= c { h.at(i, c) } else { 0.0 }).collect();
        // scaled to avoid underflow in this oracle's own arithmetic
        let nu = norm(&u);
        if nu == 0.0 {
            continue;
        }
        let u: Vec<f64> = u.iter().map(|x| x / nu).collect();
        for j in 0..n {
            let t: f64 = (0..m).map(|i| u[i] * w.at(i, j)).sum();
            for i in c..m {
                let v = w.at(i, j) - 2.0 * t * u[i];
                w.put(i, j, v);
            }
        }
    }
    for j in 0..n {
        let na = norm(&a.col(j));
        let e: Vec<f64> = (0..m).map(|i| a.at(i, j) - qr.at(i, j)).collect();
        let e = norm(&e);
        let lim = tol * na + gen::underflow::<F>(m, na) + low;
        s.stat("residual / bound", e / lim);
        ensure!(e <= lim, "column {} of A - QR has norm {:e}, allowed {:e}; Q {:?} R {:?}", j, e, lim, q, r);
        let e: Vec<f64> = (0..m).map(|i| w.at(i, j) - r.at(i, j)).collect();
        let e = norm(&e);
        s.stat("reflections / bound", e / lim);
        ensure!(e <= lim, "the reflections turn column {} of A into something {:e} away from R, allowed {:e}; H {:?} R {:?}", j, e, lim, h, r);
    }
    s.label(if m == n { "square" } else if m > n { "tall" } else { "wide" });
    s.label_if((0..k).any(|i| r.at(i, i) == 0.0), "zero on the diagonal of R");
    s.nontrivial_if(m >= 2);
    Ok(())
}

fn noise<F: Fl>(s: &mut Src) -> R {
    let m = gen::dim(s, 8);
    let n = if s.chance(1, 2) { m } else { gen::dim(s, 8) };
    let a = gen::noisy(s, m, n, span::<F>(), if F::IS32 { 148 } else { 1070 });
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_factors::<F>(s, &a)
}

fn factors<F: Fl>(s: &mut Src) -> R {
    let cap = if F::IS32 { 8 } else { 14 };
    let m = gen::dim(s, cap);
    let n = if s.chance(1, 3) { m } else { gen::dim(s, cap) };
    let a = gen::general(s, m, n, span::<F>());
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_factors::<F>(s, &a)
}

/// The whole range of the type.
fn factors_scaled<F: Fl>(s: &mut Src) -> R {
    let m = gen::dim(s, 8);
    let n = if s.chance(1, 3) { m } else { gen::dim(s, 8) };
    let a = gen::general(s, m, n, span::<F>()).round::<F>();
    let p = any_shift::<F>(s, &a);
    s.note(|| format!("{} 2^{} times {:?}", F::NAME, p, a));
    check_shifted::<F>(s, &a, p)
}

fn factors_large(s: &mut Src) -> R {
    let (m, n) = match s.below(12) {
        0 => gen::thin(s),
        1 => {
            let (n, m) = gen::thin(s);
            (m, n)
        }
        _ => (gen::tail(s, 10, 80, 150), gen::tail(s, 1, 80, 150)),
    };
    let a = gen::general(s, m, n, span::<f64>());
    s.note(|| format!("{:?}", a));
    check_factors::<f64>(s, &a)
}

// ---------------------------------------------------------------- C11

fn rhs(s: &mut Src, a: &D, k: usize) -> D {
    let m = a.r;
    match s.pick(&[5, 2, 1, 1]) {
        0 => D::from(m, k, |_, _| s.int(9) as f64),
        1 => {
            // consistent right-hand sides: zero residual
            let x = D::from(a.c, k, |_, _| s.int(5) as f64);
            s.label("consistent right-hand side");
            a.mul(&x)
        }
        2 => {
            let e = 2f64.powi(s.int(12) as i32);
            D::from(m, k, |_, _| s.int(9) as f64 * e)
        }
        _ => D::from(m, k, |i, j| if i % k == j { 1.0 } else { 0.0 }),
    }
}

/// Residual conditions for X from QR solve of A X = B.
fn optimal<F: Fl>(s: &mut Src, a: &D, b: &D, x: &D, must_be_finite: bool) -> R {
    let (m, n) = (a.r, a.c);
    ensure!((x.r, x.c) == (n, b.c), "X is {}x{}, expected {}x{}", x.r, x.c, n, b.c);
    if !x.finite() {
        ensure!(!must_be_finite, "X is not finite: {:?}", x);
        return discard();
    }
    let c = 16.0 * (m as f64 + 4.0) * (n as f64 + 2.0) * F::EPS;
    let tiny = gen::underflow::<F>(m, a.max());
    let cn: Vec<f64> = (0..n).map(|j| norm(&a.col(j))).collect();
    let ax = a.mul(x);
    for j in 0..b.c {
        let scale = norm(&b.col(j)) + (0..n).map(|k| cn[k] * x.at(k, j).abs()).sum::<f64>();
        if scale > 1e300 || (F::IS32 && scale > 1e36) {
            return discard();
        }
        let r: Vec<f64> = (0..m).map(|i| b.at(i, j) - ax.at(i, j)).collect();
        let lim = c * scale + tiny;
        for l in 0..n {
            if cn[l] == 0.0 {
                continue;
            }
            let g = (0..m).map(|i| a.at(i, l) / cn[l] * r[i]).sum::<f64>().abs();
            s.stat("optimality / bound", g / lim);
            ensure!(g <= lim, "residual of right-hand side {} has component {:e} along column {} (allowed {:e}); X {:?}", j, g, l, lim, x);
        }
        if m == n {
            let e = norm(&r);
            s.stat("square residual / bound", e / lim);
            ensure!(e <= lim, "square system: residual {:e} for right-hand side {} (allowed {:e}); X {:?}", e, j, lim, x);
        }
    }
    Ok(())
}

fn solve_both<F: Fl>(a: &D, b: &D) -> (bool, Option<D>) {
    let d = QRDecomposition::new(&a.lib::<F>());
    (d.is_full_rank(), d.solve(&b.lib::<F>()).map(|x| D::of(&x)))
}

/// Full column rank with known conditioning, columns rescaled by powers of two.
pub fn known_rank(s: &mut Src, m: usize, n: usize, grade: i64) -> D {
    let a = base_rank(s, m, n);
    regrade(s, a, grade)
}

fn base_rank(s: &mut Src, m: usize, n: usize) -> D {
    if m == n && s.bool() {
        gen::well_conditioned(s, n)
    } else {
        gen::tall_full_rank(s, m, n)
    }
}

fn regrade(s: &mut Src, mut a: D, grade: i64) -> D {
    let (m, n) = (a.r, a.c);
    if s.chance(1, 3) {
        for j in 0..n {
            let e = 2f64.powi(s.int(grade) as i32);
            for i in 0..m {
                let v = a.at(i, j) * e;
                a.put(i, j, v);
            }
        }
        s.label("scaled columns");
    }
    if s.chance(1, 4) {
        let e = 2f64.powi(s.int(3 * grade) as i32);
        a = a.scale(e);
    }
    a
}

/// Replaces one column by a combination of the others and 2^-k times itself: still independent.
fn nearly_dependent<F: Fl>(s: &mut Src, mut a: D) -> D {
    if a.c < 2 || !s.chance(1, 4) {
        return a;
    }
    let top = if F::IS32 { 8 } else { 30 };
    let k = 2f64.powi(-(s.below(top) as i32));
    let j = s.range(0, a.c - 1);
    let mut t: Vec<f64> = vec![0.0; a.c];
    for _ in 0..s.range(1, 2) {
        let i = s.range(0, a.c - 1);
        t[i] = s.int(2) as f64;
    }
    t[j] = k;
    for i in 0..a.r {
        let v = (0..a.c).map(|l| t[l] * a.at(i, l)).sum();
        a.put(i, j, v);
    }
    s.label("nearly dependent column");
    a
}

fn full_rank_case<F: Fl>(s: &mut Src, m: usize, n: usize) -> R {
    let wide = s.chance(1, 6);
    s.label_if(wide, "widely scaled columns");
    let grade = match (F::IS32, wide) {
        (true, false) => 4,
        (true, true) => [14, 20][s.below(2) as usize],
        (false, false) => 20,
        (false, true) => [60, 200][s.below(2) as usize],
    };
    let a = base_rank(s, m, n);
    let a = nearly_dependent::<F>(s, a);
    let a = regrade(s, a, grade).round::<F>();
    let k = gen::rhs_cols(s);
    let b = rhs(s, &a, k).round::<F>();
    s.note(|| format!("{} A {:?} B {:?}", F::NAME, a, b));
    let (full, x) = solve_both::<F>(&a, &b);
    ensure!(full, "is_full_rank is false for a matrix with independent columns");
    let x = match x {
        None => return fail("solve is None although the columns are independent".into()),
        Some(x) => x,
    };
    s.label(if m == n { "square" } else { "tall" });
    s.label_if(k > 1, "several right-hand sides");
    s.nontrivial_if(m >= 2);
    optimal::<F>(s, &a, &b, &x, true)
}

/// 2^p A X = 2^q B, compared at the scale of A and B. X must be there and finite.
fn full_rank_scaled<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 8);
    let m = if s.chance(1, 3) { n } else { n + gen::dim(s, 6) };
    let a = base_rank(s, m, n);
    let a = nearly_dependent::<F>(s, a);
    // low bits far below the rest would be lost at the lower end
    let a = a.scale(1.0 / a.max()).round::<F>();
    let k = gen::rhs_cols(s);
    let b = rhs(s, &a, k).round::<F>();
    let (lo, hi, apart) = if F::IS32 { (-80, 100, 80) } else { (-900, 980, 850) };
    let (p, q) = (lo + s.below((hi - lo) as u64) as i32, lo + s.below((hi - lo) as u64) as i32);
    let q = q.max(p - apart).min(p + apart);
    s.note(|| format!("{} 2^{} times A {:?}, 2^{} times B {:?}", F::NAME, p, a, q, b));
    let (full, x) = solve_both::<F>(&shifted(&a, p), &shifted(&b, q));
    ensure!(full, "is_full_rank is false for a matrix with independent columns");
    let x = match x {
        None => return fail("solve is None although the columns are independent".into()),
        Some(x) => x,
    };
    s.nontrivial_if(m >= 2);
    optimal::<F>(s, &a, &b, &shifted(&x, p - q), true)
}

/// A permuted diagonal matrix, perhaps with rows of zeros, at any scale down to the smallest
/// numbers: no step of the elimination rounds but for the last division.
fn permuted<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 8);
    let m = if s.bool() { n } else { n + gen::dim(s, 4) };
    let p = gen::perm(s, m);
    let (low, high) = if F::IS32 { (-149, 110) } else { (-1074, 1000) };
    let base = if s.bool() { low + s.below(30) as i32 } else { low + s.below((high - low) as u64) as i32 };
    s.label_if(base < low + 23 + if F::IS32 { 0 } else { 29 }, "subnormal");
    let d: Vec<f64> = (0..n).map(|_| (1 + s.below(9)) as f64 * if s.bool() { -1.0 } else { 1.0 }).collect();
    let a = D::from(m, n, |i, j| if p[i] == j { d[j] } else { 0.0 });
    let k = gen::rhs_cols(s);
    let z = D::from(n, k, |_, _| s.int(9) as f64);
    let out = if s.bool() { 9 } else { 0 };
    let b = D::from(m, k, |i, j| if p[i] < n { d[p[i]] * z.at(p[i], j) } else { s.int(out) as f64 });
    let (a, b) = (shifted(&a, base), shifted(&b, base));
    s.note(|| format!("{} A {:?} B {:?}", F::NAME, a, b));
    s.nontrivial_if(n >= 2);
    let (full, x) = solve_both::<F>(&a, &b);
    ensure!(full, "is_full_rank is false for a matrix with independent columns");
    let x = match x {
        None => return fail("solve is None although the columns are independent".into()),
        Some(x) => x,
    };
    ensure!((x.r, x.c) == (n, k), "X is {}x{}, expected {}x{}", x.r, x.c, n, k);
    for i in 0..n {
        for j in 0..k {
            let e = (x.at(i, j) - z.at(i, j)).abs() / 9.0;
            s.stat("exact elimination: error / bound", e / (4096.0 * F::EPS));
            ensure!(e <= 4096.0 * F::EPS, "X({}, {}) is {:?}, expected {:?}", i, j, x.at(i, j), z.at(i, j));
        }
    }
    Ok(())
}

fn full_rank<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 12);
    let m = if s.chance(1, 3) { n } else { n + gen::dim(s, 12) };
    full_rank_case::<F>(s, m, n)
}

fn solve_large(s: &mut Src) -> R {
    if s.chance(1, 8) {
        let (m, n) = gen::thin(s);
        return full_rank_case::<f64>(s, m, n);
    }
    let n = gen::tail(s, 10, 50, 140);
    let m = if s.chance(1, 3) { n } else { gen::tail(s, n, 80.max(n), 150) };
    full_rank_case::<f64>(s, m, n)
}

fn any_matrix<F: Fl>(s: &mut Src) -> R {
    let cap = if F::IS32 { 6 } else { 9 };
    let m = gen::dim(s, cap);
    let n = if s.chance(1, 3) { m } else { gen::dim(s, cap) };
    let a = gen::general(s, m, n, span::<F>()).round::<F>();
    let k = gen::rhs_cols(s);
    let b = rhs(s, &a, k).round::<F>();
    s.note(|| format!("{} A {:?} B {:?}", F::NAME, a, b));
    let (full, x) = solve_both::<F>(&a, &b);
    ensure!(full == x.is_some(), "is_full_rank is {} but solve gave {}", full, if x.is_some() { "a solution" } else { "None" });
    ensure!(!(full && m < n), "is_full_rank is true for a {}x{} matrix", m, n);
    let zero_col = (0..n).any(|j| (0..m).all(|i| a.at(i, j) == 0.0));
    ensure!(!(full && zero_col), "is_full_rank is true although a column is zero");
    s.label_if(full, "full rank");
    s.label_if(m < n, "wide");
    s.label_if(zero_col, "zero column");
    s.nontrivial_if(m >= 2 && n >= 2);
    if let Some(x) = x {
        optimal::<F>(s, &a, &b, &x, false)?;
    }
    Ok(())
}

fn predicate(s: &mut Src) -> R {
    let n = gen::dim(s, 9);
    let (a, want, why) = match s.below(3) {
        0 => {
            let m = n + s.range(0, 4);
            let grade = [12, 12, 12, 12, 12, 60, 60, 200][s.below(8) as usize];
            let a = base_rank(s, m, n);
            let a = nearly_dependent::<f64>(s, a);
            (regrade(s, a, grade), true, "independent columns")
        }
        1 => {
            // wide
            if n < 2 {
                return discard();
            }
            let m = s.range(1, n - 1);
            (gen::general(s, m, n, span::<f64>()), false, "fewer rows than columns")
        }
        _ => {
            let m = n + s.range(0, 4);
            let mut a = gen::general(s, m, n, span::<f64>());
            let j = s.range(0, n - 1);
            for i in 0..m {
                a.put(i, j, 0.0);
            }
            (a, false, "a zero column")
        }
    };
    s.note(|| format!("{:?}: {}", a, why));
    s.label(why);
    s.nontrivial_if(n >= 2);
    let m = a.r;
    let b = D::from(m, 1, |_, _| s.int(3) as f64);
    let (full, x) = solve_both::<f64>(&a, &b);
    ensure!(full == want, "is_full_rank is {} for {:?} ({})", full, a, why);
    ensure!(x.is_some() == want, "solve gave {} for {:?} ({})", if x.is_some() { "a solution" } else { "None" }, a, why);
    Ok(())
}

// ---------------------------------------------------------------- C18

fn pinv_case<F: Fl>(s: &mut Src, m: usize, n: usize) -> R {
    let (a, sc, top) = if s.chance(2, 3) {
        // singular values between 1 and `top`, so the condition number is at most `top`
        let top = if F::IS32 { [2.0, 4.0, 6.0][s.below(3) as usize] } else { [2.0, 8.0, 30.0, 100.0][s.below(4) as usize] };
        let (q, z) = (gen::orth(s, m), gen::orth(s, n));
        let d: Vec<f64> = (0..n).map(|_| 1.0 + (top - 1.0) * s.below(9) as f64 / 8.0).collect();
        let a = D::from(m, n, |i, j| (0..n).map(|k| q.at(i, k) * d[k] * z.at(j, k)).sum());
        let p = gen::perm(s, m);
        (a.rows_of(&p).round::<F>(), 1.0, top)
    } else {
        // symmetric, triangular, diagonal, nearly so, ...: bounds from a reference inverse of A'A
        let a = known_rank(s, m, n, 0).round::<F>();
        let sc = match super::cross::ref_inverse(&a.t().mul(&a)) {
            None => return discard(),
            Some(g) => 1.0 / g.fro().sqrt(),
        };
        let top = a.fro() / sc;
        if !(top <= if F::IS32 { 8.0 } else { 300.0 }) {
            return discard();
        }
        s.label("structured");
        (a, sc, top)
    };
    // exact: a power of two, far enough from the ends of the range for the products of A and A'
    let w = if s.chance(1, 3) { if F::IS32 { 35 } else { 240 } } else { 6 };
    s.label_if(w > 6, "any scale");
    let k = 2f64.powi(s.int(w) as i32);
    let (a, sc) = (a.scale(k), sc * k);
    s.note(|| format!("{} cond <= {}: {:?}", F::NAME, top, a));
    s.label(if m == n { "square" } else { "tall" });
    s.nontrivial_if(n >= 2);
    let x = D::of(&a.lib::<F>().pinverse());
    ensure!((x.r, x.c) == (n, m), "the pseudo-inverse of a {}x{} matrix is {}x{}", m, n, x.r, x.c);
    let c = 64.0 * (m + n) as f64 * F::EPS * (1.1 * top).powi(3);
    let (ax, xa) = (a.mul(&x), x.mul(&a));
    let (na, nx) = (1.1 * top * sc, 1.1 / sc);
    for (what, e, tol) in [
        ("X A - I", xa.sub(&D::id(n)).max(), c),
        ("A X A - A", ax.mul(&a).sub(&a).max(), c * na),
        ("X A X - X", xa.mul(&x).sub(&x).max(), c * nx),
        ("A X - (A X)'", ax.sub(&ax.t()).max(), c),
        ("X A - (X A)'", xa.sub(&xa.t()).max(), c),
    ] {
        s.stat("Moore-Penrose / bound", e / tol);
        ensure!(e <= tol, "{} has entry {:e} (allowed {:e}); X {:?}", what, e, tol, x);
    }
    Ok(())
}

/// Columns that are orthogonal to each other and of very different length: the Gram matrix is
/// diagonal up to rounding at the scale of each entry, so nothing is lost to its squared condition.
fn pinv_columns<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 7);
    let m = if s.chance(1, 3) { n } else { n + gen::dim(s, 7) };
    let q = if s.chance(1, 3) {
        s.label("permutation");
        let p = gen::perm(s, m);
        let g: Vec<f64> = (0..m).map(|_| if s.chance(1, 2) { -1.0 } else { 1.0 }).collect();
        D::from(m, m, |i, j| if p[i] == j { g[j] } else { 0.0 })
    } else {
        gen::orth(s, m).round::<F>()
    };
    let w = if F::IS32 { 4 } else { 10 };
    let d: Vec<f64> = (0..n).map(|_| 2f64.powi(s.int(w) as i32)).collect();
    let a = D::from(m, n, |i, j| q.at(i, j) * d[j]);
    let (lo, hi) = d.iter().fold((f64::INFINITY, 0f64), |(l, h), &x| (l.min(x), h.max(x)));
    s.note(|| format!("{} lengths {:?}: {:?}", F::NAME, d, a));
    s.label(if m == n { "square" } else { "tall" });
    s.nontrivial_if(n >= 2);
    let x = D::of(&a.lib::<F>().pinverse());
    ensure!((x.r, x.c) == (n, m), "the pseudo-inverse of a {}x{} matrix is {}x{}", m, n, x.r, x.c);
    let c = 32.0 * (m + n) as f64 * F::EPS * (hi / lo);
    let (ax, xa) = (a.mul(&x), x.mul(&a));
    for (what, e, tol) in [
        ("X A - I", xa.sub(&D::id(n)).max(), c),
        ("A X A - A", ax.mul(&a).sub(&a).max(), c * hi),
        ("X A X - X", xa.mul(&x).sub(&x).max(), c / lo),
        ("A X - (A X)'", ax.sub(&ax.t()).max(), c),
        ("X A - (X A)'", xa.sub(&xa.t()).max(), c),
    ] {
        s.stat("Moore-Penrose / bound", e / tol);
        ensure!(e <= tol, "{} has entry {:e} (allowed {:e}); X {:?}", what, e, tol, x);
    }
    Ok(())
}

fn pinv<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 9);
    let m = if s.chance(1, 3) { n } else { n + gen::dim(s, 9) };
    pinv_case::<F>(s, m, n)
}

fn pinv_large(s: &mut Src) -> R {
    if s.chance(1, 3) {
        let (m, n) = gen::thin(s);
        return pinv_case::<f64>(s, m, n);
    }
    let n = gen::tail(s, 8, 30, 130);
    let m = gen::tail(s, n, 60.max(n), 140);
    pinv_case::<f64>(s, m, n)
}
