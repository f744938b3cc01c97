//! C07 (LU factors), C08 (determinant), C09 (solve, inverse, singularity).

use super::tab::Tab;
use crate::cf::Fl;
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Span, SPAN32, SPAN64};
use crate::rat::Rat;
use crate::refm::{idet, lu_growth, norm, D};
use la::*;
use num::traits::{One, Zero};

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C07",
            rule: "a matrix of any shape is drawn from 18 structured families (random, degenerate, graded, tied pivots, ...); factors are checked for shape, structure, permutation and |PA - LU| <= c k eps |L||U| elementwise (exact equality over rationals and on systems of powers of two whose elimination does not round, subnormal ones included). Non-trivial: at least 2 rows and 2 columns and a row exchange took place or the matrix is rank-deficient or non-square.",
            groups: vec![
                Group { name: "f64", f: factors::<f64>, quick: 60000, thorough: 4000000 },
                Group { name: "f32", f: factors::<f32>, quick: 30000, thorough: 1500000 },
                Group { name: "scaled f64", f: factors_scaled::<f64>, quick: 20000, thorough: 800000 },
                Group { name: "scaled f32", f: factors_scaled::<f32>, quick: 10000, thorough: 400000 },
                Group { name: "exact rationals", f: factors_exact, quick: 20000, thorough: 800000 },
                Group { name: "far apart f64", f: factors_far::<f64>, quick: 20000, thorough: 600000 },
                Group { name: "far apart f32", f: factors_far::<f32>, quick: 10000, thorough: 300000 },
                Group { name: "large", f: factors_large, quick: 300, thorough: 6000 },
            ],
            assumptions: &["entries are finite and their sums and products with multipliers up to one do not overflow"],
        },
        Property {
            id: "C08",
            rule: "square matrices with known determinants: integers (small ones, and small next to large structured ones) against fraction-free elimination, rationals exactly, permuted triangular and block matrices of larger size, block matrices with rows and columns many powers of two apart; float results must lie within a rigorous perturbation bound. Non-trivial: n >= 3 and the determinant is non-zero or the matrix is singular without a zero row.",
            groups: vec![
                Group { name: "exact rationals", f: det_exact, quick: 25000, thorough: 1000000 },
                Group { name: "integers f64", f: det_int::<f64>, quick: 40000, thorough: 1500000 },
                Group { name: "integers f32", f: det_int::<f32>, quick: 15000, thorough: 500000 },
                Group { name: "permuted and block structure", f: det_struct, quick: 20000, thorough: 600000 },
                Group { name: "permuted and block structure, large", f: det_large, quick: 100, thorough: 3000 },
                Group { name: "every permutation", f: det_perm, quick: 20000, thorough: 300000 },
                Group { name: "laws over rationals", f: det_laws, quick: 10000, thorough: 400000 },
                Group { name: "far apart f64", f: det_far::<f64>, quick: 30000, thorough: 800000 },
                Group { name: "far apart f32", f: det_far::<f32>, quick: 15000, thorough: 400000 },
            ],
            assumptions: &["intermediate rationals fit in 120 bits (others are discarded)"],
        },
        Property {
            id: "C09",
            rule: "square systems with several right-hand sides from structured families; float residuals against the backward-error bound c n eps |L||U||X|, rational solutions exactly, and block systems with rows and columns hundreds of powers of two apart whose elimination is exact, also among subnormal numbers; None exactly when singular. Non-trivial: n >= 2.",
            groups: vec![
                Group { name: "exact rationals", f: solve_exact, quick: 25000, thorough: 1000000 },
                Group { name: "f64", f: solve_float::<f64>, quick: 50000, thorough: 2500000 },
                Group { name: "f32", f: solve_float::<f32>, quick: 20000, thorough: 800000 },
                Group { name: "scaled solve f64", f: solve_scaled::<f64>, quick: 20000, thorough: 800000 },
                Group { name: "scaled solve f32", f: solve_scaled::<f32>, quick: 10000, thorough: 400000 },
                Group { name: "far apart f64", f: solve_far::<f64>, quick: 30000, thorough: 800000 },
                Group { name: "far apart f32", f: solve_far::<f32>, quick: 15000, thorough: 400000 },
                Group { name: "inverse f64", f: inverse_float::<f64>, quick: 20000, thorough: 800000 },
                Group { name: "inverse f32", f: inverse_float::<f32>, quick: 8000, thorough: 300000 },
                Group { name: "singular structure f64", f: singular_struct::<f64>, quick: 15000, thorough: 400000 },
                Group { name: "singular structure f32", f: singular_struct::<f32>, quick: 5000, thorough: 200000 },
                Group { name: "large", f: solve_large, quick: 150, thorough: 4000 },
            ],
            assumptions: &["intermediate rationals fit in 120 bits (others are discarded)"],
        },
    ]
}

pub fn span<F: Fl>() -> Span {
    if F::IS32 {
        SPAN32
    } else {
        SPAN64
    }
}

// ---------------------------------------------------------------- C07

fn check_perm(piv: &[usize], p: &D, m: usize) -> R {
    let mut seen = vec![false; m];
    ensure!(piv.len() == m, "pivot vector has length {} for {} rows", piv.len(), m);
    for &x in piv {
        ensure!(x < m && !seen[x], "pivot vector {:?} is not a permutation", piv);
        seen[x] = true;
    }
    ensure!(p.r == m && p.c == m, "permutation matrix is {}x{} for {} rows", p.r, p.c, m);
    for i in 0..m {
        for j in 0..m {
            let e = if piv[i] == j { 1.0 } else { 0.0 };
            ensure!(p.at(i, j) == e, "permutation matrix and pivot vector {:?} disagree at ({}, {})", piv, i, j);
        }
    }
    Ok(())
}

fn check_factors<F: Fl>(s: &mut Src, a: &D) -> R {
    let a = a.round::<F>();
    let (m, n) = (a.r, a.c);
    let k = m.min(n);
    let d = LUDecomposition::new(&a.lib::<F>());
    let (l, u, p) = (D::of(&d.get_l()), D::of(&d.get_u()), D::of(&d.get_p()));
    let piv = d.get_piv().clone();
    ensure!((l.r, l.c) == (m, k), "L is {}x{}, expected {}x{}", l.r, l.c, m, k);
    ensure!((u.r, u.c) == (k, n), "U is {}x{}, expected {}x{}", u.r, u.c, k, n);
    check_perm(&piv, &p, m)?;
    ensure!(l.finite() && u.finite(), "non-finite factors: L {:?} U {:?}", l, u);
    for i in 0..m {
        for j in 0..k {
            let v = l.at(i, j);
            if i == j {
                ensure!(v == 1.0, "L({}, {}) is {:?}, expected 1", i, j, v);
            } else if i < j {
                ensure!(v == 0.0, "L({}, {}) is {:?}, expected 0", i, j, v);
            } else {
                ensure!(v.abs() <= 1.0, "L({}, {}) is {:?}, above 1 in magnitude", i, j, v);
            }
        }
    }
    for i in 0..k {
        for j in 0..i.min(n) {
            ensure!(u.at(i, j) == 0.0, "U({}, {}) is {:?}, expected 0", i, j, u.at(i, j));
        }
    }
    let pa = a.rows_of(&piv);
    let lu = l.mul(&u);
    let g = l.abs().mul(&u.abs());
    let c = 4.0 * (k as f64 + 2.0) * F::EPS;
    let tiny = gen::underflow::<F>(k, u.max());
    for i in 0..m {
        for j in 0..n {
            let e = (pa.at(i, j) - lu.at(i, j)).abs();
            let tol = c * g.at(i, j) + tiny;
            s.stat("residual / bound", e / tol);
            ensure!(e <= tol, "(PA - LU)({}, {}) = {:e}, allowed {:e}; L {:?} U {:?} piv {:?}", i, j, e, tol, l, u, piv);
        }
    }
    let exchanged = piv.iter().enumerate().any(|(i, x)| i != *x);
    let deficient = (0..k).any(|i| u.at(i, i) == 0.0);
    s.label_if(exchanged, "row exchange");
    s.label_if(deficient, "zero pivot");
    s.label(if m == n { "square" } else if m > n { "tall" } else { "wide" });
    s.nontrivial_if(m >= 2 && n >= 2 && (exchanged || deficient || m != n));
    Ok(())
}

fn factors<F: Fl>(s: &mut Src) -> R {
    let m = gen::dim(s, 14);
    let n = if s.chance(1, 3) { m } else { gen::dim(s, 14) };
    let a = gen::general(s, m, n, span::<F>());
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_factors::<F>(s, &a)
}

/// A power of two near either end of the range of the type, or anywhere in it.
fn far<F: Fl>(s: &mut Src, top: i64) -> f64 {
    let e = match s.below(3) {
        0 => s.int(top),
        1 => top - s.below(8) as i64,
        _ => -top + s.below(8) as i64,
    };
    2f64.powi(e as i32)
}

fn factors_scaled<F: Fl>(s: &mut Src) -> R {
    let m = gen::dim(s, 8);
    let n = if s.chance(1, 3) { m } else { gen::dim(s, 8) };
    let f = far::<F>(s, if F::IS32 { 90 } else { 900 });
    let a = gen::general(s, m, n, span::<F>());
    let top = a.max() * f;
    if !(top < if F::IS32 { 1e36 } else { 1e300 }) {
        return discard();
    }
    let a = a.scale(f);
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_factors::<F>(s, &a)
}

fn factors_large(s: &mut Src) -> R {
    let (mut m, mut n) = if s.chance(1, 8) { gen::thin(s) } else { (gen::tail(s, 15, 90, 160), gen::tail(s, 15, 90, 160)) };
    if s.bool() {
        std::mem::swap(&mut m, &mut n);
    }
    let a = gen::general(s, m, n, SPAN64);
    s.note(|| format!("{:?}", a));
    check_factors::<f64>(s, &a)
}

fn ints(s: &mut Src, r: usize, c: usize) -> Vec<i64> {
    let k = [1, 3, 9][s.below(3) as usize];
    let mut v: Vec<i64> = (0..r * c).map(|_| if s.chance(1, 4) { 0 } else { s.int(k) }).collect();
    if r > 1 && s.chance(1, 4) {
        // a dependent row
        let (i, j, f) = (s.range(0, r - 1), s.range(0, r - 1), s.int(2));
        for q in 0..c {
            v[i * c + q] = f * v[j * c + q];
        }
    }
    v
}

fn rat(r: usize, c: usize, v: &[i64]) -> Tab<Rat> {
    Tab::from(r, c, |i, j| Rat::int(v[i * c + j]))
}

fn ratmul(a: &Matrix<Rat>, b: &Matrix<Rat>) -> Tab<Rat> {
    Tab::from(a.rows(), b.cols(), |i, j| {
        let mut z = Rat::zero();
        for k in 0..a.cols() {
            z = z + a.get(i, k) * b.get(k, j);
        }
        z
    })
}

fn factors_exact(s: &mut Src) -> R {
    let (m, n) = (s.range(1, 6), s.range(1, 6));
    let v = ints(s, m, n);
    let a = rat(m, n, &v);
    s.note(|| format!("{:?}", a));
    let la = a.lib();
    let d = LUDecomposition::new(&la);
    let (l, u) = (d.get_l(), d.get_u());
    let k = m.min(n);
    ensure!(l.rows() == m && l.cols() == k && u.rows() == k && u.cols() == n, "shapes of L and U");
    let piv = d.get_piv();
    let p = d.get_p();
    check_perm(piv, &D::from(p.rows(), p.cols(), |i, j| p.get(i, j).n as f64), m)?;
    for i in 0..m {
        for j in 0..k {
            let x = l.get(i, j);
            ensure!(if i == j { x == Rat::one() } else if i < j { x == Rat::zero() } else { x <= Rat::one() && -x <= Rat::one() }, "L({}, {}) = {:?}", i, j, x);
        }
    }
    for i in 0..k {
        for j in 0..i {
            ensure!(u.get(i, j) == Rat::zero(), "U({}, {}) = {:?}", i, j, u.get(i, j));
        }
    }
    let w = ratmul(&l, &u);
    for i in 0..m {
        for j in 0..n {
            ensure!(w.at(i, j) == a.at(piv[i], j), "(LU)({}, {}) = {:?}, PA has {:?}", i, j, w.at(i, j), a.at(piv[i], j));
        }
    }
    s.nontrivial_if(m >= 2 && n >= 2);
    Ok(())
}

// ---------------------------------------------------------------- C08

fn det_exact(s: &mut Src) -> R {
    let n = s.range(1, 7);
    let v = ints(s, n, n);
    let want = match idet(n, &v) {
        None => return discard(),
        Some(w) => w,
    };
    // optionally scale rows by fractions
    let sc: Vec<Rat> = (0..n).map(|_| if s.chance(1, 4) { Rat::new(1 + s.below(4) as i128, 1 + s.below(4) as i128) } else { Rat::one() }).collect();
    let a = Tab::from(n, n, |i, j| sc[i] * Rat::int(v[i * n + j]));
    let want = sc.iter().fold(Rat::new(want, 1), |x, y| x * *y);
    s.note(|| format!("det {:?} = {:?}", a, want));
    let m = a.lib();
    let got = m.det();
    ensure!(got == want, "det is {:?}, exactly {:?}", got, want);
    let got = LUDecomposition::new(&m).det();
    ensure!(got == want, "LU det is {:?}, exactly {:?}", got, want);
    let zr = (0..n).any(|i| (0..n).all(|j| v[i * n + j] == 0));
    s.nontrivial_if(n >= 3 && !zr);
    s.label_if(want.is_zero(), "zero determinant");
    Ok(())
}

/// Rigorous bound on |det(A + E) - det(A)| for |E| <= c |L||U|, plus the rounding of the product.
fn det_bound<F: Fl>(a: &D, g: &D) -> f64 {
    let n = a.r;
    let c = 16.0 * (n as f64 + 2.0) * F::EPS;
    let (mut big, mut small) = (1.0f64, 1.0f64);
    for i in 0..n {
        let ra = norm(&a.d[i * n..(i + 1) * n]);
        let re = c * norm(&g.d[i * n..(i + 1) * n]);
        big *= ra + re;
        small *= ra;
    }
    // big - small computed without cancellation: expand over rows
    let mut diff = 0.0;
    let mut pre = 1.0;
    for i in 0..n {
        let ra = norm(&a.d[i * n..(i + 1) * n]);
        let re = c * norm(&g.d[i * n..(i + 1) * n]);
        let mut post = 1.0;
        for k in i + 1..n {
            post *= norm(&a.d[k * n..(k + 1) * n]) + c * norm(&g.d[k * n..(k + 1) * n]);
        }
        diff += pre * re * post;
        pre *= ra;
    }
    let _ = small;
    diff + 8.0 * n as f64 * F::EPS * big + F::MINPOS
}

fn det_close<F: Fl>(s: &mut Src, a: &D, want: f64) -> R {
    let m = a.lib::<F>();
    let tol = det_bound::<F>(a, &growth::<F>(a, &LUDecomposition::new(&m)));
    if !tol.is_finite() || (F::IS32 && want.abs() > 1e36) {
        return discard();
    }
    for (what, got) in [("det", m.det().val()), ("LU det", LUDecomposition::new(&m).det().val())] {
        let e = (got - want).abs();
        s.stat("det error / bound", e / tol);
        s.stat("bound / |det|", if want != 0.0 { tol / want.abs() } else { 0.0 });
        ensure!(e <= tol, "{} of {:?} is {:?}, exactly {:?} (allowed error {:e})", what, a, got, want, tol);
    }
    Ok(())
}

/// Integers that are nothing next to those of a signed permutation (or a triangular, or all but
/// singular) matrix they are added to.
fn ints_near(s: &mut Src, n: usize, bits: usize) -> (Vec<i64>, usize) {
    let mut v = ints(s, n, n);
    let k = s.range(4, bits);
    let p = if s.bool() { (0..n).collect() } else { gen::perm(s, n) };
    let kind = s.below(4);
    let signs = s.bool();
    for i in 0..n {
        let sg = if signs && s.bool() { -1 } else { 1 };
        match kind {
            0 | 1 => v[i * n + p[i]] += sg << k,
            2 => {
                for j in i..n {
                    v[i * n + p[j]] += s.int(3) << k;
                }
            }
            _ => {
                // rank one
                for j in 0..n {
                    v[i * n + j] += sg << k;
                }
            }
        }
    }
    (v, k)
}

fn det_int<F: Fl>(s: &mut Src) -> R {
    let n = s.range(1, if F::IS32 { 6 } else { 9 });
    let near = s.chance(1, 3);
    s.label_if(near, "integers next to large ones");
    let (v, k) = if near { ints_near(s, n, if F::IS32 { 18 } else { 40 }) } else { (ints(s, n, n), 0) };
    // so that the large ones become ones
    let f = if s.bool() { two(-(k as i32)) } else { 1.0 };
    let want = match idet(n, &v) {
        None => return discard(),
        Some(w) => w as f64 * f.powi(n as i32),
    };
    let a = D::from(n, n, |i, j| v[i * n + j] as f64 * f);
    s.note(|| format!("{} det {:?} = {}", F::NAME, a, want));
    s.nontrivial_if(n >= 3);
    s.label_if(want == 0.0, "zero determinant");
    s.label_if(want < 0.0, "negative determinant");
    det_close::<F>(s, &a, want)
}

/// Larger matrices whose determinant is known by construction.
fn det_struct(s: &mut Src) -> R {
    let n = gen::dim(s, 30);
    det_struct_case(s, n)
}

fn det_large(s: &mut Src) -> R {
    let n = gen::tail(s, 31, 90, 160);
    det_struct_case(s, n)
}

fn det_struct_case(s: &mut Src, n: usize) -> R {
    let p = gen::perm(s, n);
    let mut sign = 1.0;
    {
        // parity
        let mut seen = vec![false; n];
        for i in 0..n {
            let mut k = i;
            let mut len = 0;
            while !seen[k] {
                seen[k] = true;
                k = p[k];
                len += 1;
            }
            if len > 0 && len % 2 == 0 {
                sign = -sign;
            }
        }
    }
    let mut d = D::zero(n, n);
    let mut want = sign;
    match s.below(3) {
        0 => {
            // permuted diagonal of signed powers of two: exact
            let w = if s.chance(1, 3) { 900 / n as i64 } else { 4 };
            let mut total = 0;
            for i in 0..n {
                let e = s.int(w);
                total += e.abs();
                let x = 2f64.powi(e as i32) * if s.bool() { -1.0 } else { 1.0 };
                d.put(p[i], i, x);
                want *= x;
            }
            s.label("permuted diagonal");
            s.note(|| format!("{:?}", d));
            s.nontrivial_if(n >= 3);
            let got = d.lib::<f64>().det();
            ensure!(got == want, "det of the permuted diagonal matrix {:?} is {:?}, expected {:?}", d, got, want);
            // whatever the order of the factors, no partial product leaves the range
            if total > 120 {
                return Ok(());
            }
            let got = d.lib::<f32>().det() as f64;
            ensure!(got == want, "f32 det of the permuted diagonal matrix {:?} is {:?}, expected {:?}", d, got, want);
            Ok(())
        }
        1 => {
            // rows of a triangular matrix permuted
            let upper = s.bool();
            let mut t = D::from(n, n, |i, j| if (upper && i < j) || (!upper && i > j) { s.int(3) as f64 / 4.0 } else { 0.0 });
            let w = if upper && s.chance(1, 3) { 700 / n as i64 } else { 0 };
            // entries that dwarf the diagonal they stand next to change nothing
            let dwarf = upper && s.chance(1, 3);
            if dwarf {
                for i in 0..n {
                    for j in i + 1..n {
                        t.put(i, j, t.at(i, j) * 2f64.powi(s.below(60) as i32));
                    }
                }
                s.label("off-diagonal entries dwarf the diagonal");
            }
            for i in 0..n {
                let x = (1 + s.below(3)) as f64 * if s.bool() { -1.0 } else { 1.0 };
                t.put(i, i, x);
                let e = 2f64.powi(s.int(w) as i32);
                want *= x * e;
                if w > 0 {
                    for j in 0..n {
                        t.put(i, j, t.at(i, j) * e);
                    }
                }
            }
            let mut q = D::zero(n, n);
            for i in 0..n {
                for j in 0..n {
                    q.put(p[i], j, t.at(i, j));
                }
            }
            s.label("permuted triangular");
            s.note(|| format!("{:?}", q));
            s.nontrivial_if(n >= 3);
            if upper {
                // nothing is left to eliminate: only the product of the diagonal is rounded
                let got = q.lib::<f64>().det();
                let tol = 16.0 * n as f64 * f64::EPSILON * want.abs();
                ensure!((got - want).abs() <= tol, "det of the permuted upper triangular matrix {:?} is {:?}, expected {:?}", q, got, want);
                if dwarf {
                    return Ok(());
                }
            }
            det_close::<f64>(s, &q, want)
        }
        _ => {
            // 2x2 blocks down the diagonal, rows permuted: exact small integers
            let mut i = 0;
            let mut t = D::zero(n, n);
            while i < n {
                if i + 1 < n {
                    let v: Vec<f64> = (0..4).map(|_| s.int(3) as f64).collect();
                    t.put(i, i, v[0]);
                    t.put(i, i + 1, v[1]);
                    t.put(i + 1, i, v[2]);
                    t.put(i + 1, i + 1, v[3]);
                    want *= v[0] * v[3] - v[1] * v[2];
                    i += 2;
                } else {
                    let x = 1.0 + s.below(3) as f64;
                    t.put(i, i, x);
                    want *= x;
                    i += 1;
                }
            }
            let mut q = D::zero(n, n);
            for i in 0..n {
                for j in 0..n {
                    q.put(p[i], j, t.at(i, j));
                }
            }
            s.label("permuted blocks");
            s.note(|| format!("{:?}", q));
            s.nontrivial_if(n >= 3);
            if want.abs() > 1e200 {
                return discard();
            }
            det_close::<f64>(s, &q, want)
        }
    }
}

/// Permutation matrices: the determinant is the parity, exactly.
fn det_perm(s: &mut Src) -> R {
    let n = s.range(1, 9);
    let p = gen::perm(s, n);
    let v: Vec<i64> = (0..n * n).map(|q| (p[q / n] == q % n) as i64).collect();
    let want = idet(n, &v).unwrap() as f64;
    s.note(|| format!("{:?}", p));
    s.nontrivial_if(n >= 3);
    let m: Matrix<f64> = Matrix::id(n, n).permute_rows(&p);
    ensure!(m.det() == want, "det of the permutation matrix {:?} is {:?}, expected {}", p, m.det(), want);
    let m: Matrix<f64> = Matrix::id(n, n).permute_columns(&p);
    ensure!(m.det() == want, "det of the column permutation matrix {:?} is {:?}, expected {}", p, m.det(), want);
    Ok(())
}

fn det_laws(s: &mut Src) -> R {
    let n = s.range(1, 5);
    let a = rat(n, n, &ints(s, n, n)).lib();
    let b = rat(n, n, &ints(s, n, n)).lib();
    s.note(|| format!("{:?} {:?}", a, b));
    s.nontrivial_if(n >= 3);
    let (da, db) = (a.det(), b.det());
    ensure!((&a * &b).det() == da * db, "det(AB) = {:?}, det A det B = {:?}", (&a * &b).det(), da * db);
    ensure!(a.t().det() == da, "det(A') = {:?}, det A = {:?}", a.t().det(), da);
    let k = Rat::int(s.int(4));
    let mut kn = Rat::one();
    for _ in 0..n {
        kn = kn * k;
    }
    ensure!(a.scale(k).det() == kn * da, "det(kA)");
    if n >= 2 {
        let i = s.range(0, n - 1);
        let j = (i + s.range(1, n - 1)) % n;
        let mut p: Vec<usize> = (0..n).collect();
        p.swap(i, j);
        ensure!(a.permute_rows(&p).det() == -da, "swapping rows {} and {}: {:?} from {:?}", i, j, a.permute_rows(&p).det(), da);
        ensure!(a.permute_columns(&p).det() == -da, "swapping columns {} and {}", i, j);
        // expansion by minors along a row
        let mut e = Rat::zero();
        for c in 0..n {
            let t = a.get(i, c) * a.minor(i, c).det();
            e = if (i + c) % 2 == 0 { e + t } else { e - t };
        }
        ensure!(e == da, "Laplace expansion along row {} gives {:?}, det {:?}", i, e, da);
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn solve_exact(s: &mut Src) -> R {
    let n = s.range(1, 6);
    let v = ints(s, n, n);
    let k = gen::rhs_cols(s);
    let w = ints(s, n, k);
    let a = rat(n, n, &v);
    let b = rat(n, k, &w);
    s.note(|| format!("{:?} X = {:?}", a, b));
    s.nontrivial_if(n >= 2);
    let singular = match idet(n, &v) {
        None => return discard(),
        Some(d) => d == 0,
    };
    s.label(if singular { "singular" } else { "regular" });
    let (la, lb) = (a.lib(), b.lib());
    let lu = LUDecomposition::new(&la);
    ensure!(la.is_singular() == singular && la.is_non_singular() != singular, "is_singular is {}, the determinant says {}", la.is_singular(), singular);
    ensure!(lu.is_singular() == singular && lu.is_non_singular() != singular, "LU is_singular is {}, the determinant says {}", lu.is_singular(), singular);
    for (what, x) in [("solve", la.solve(&lb)), ("LU solve", lu.solve(&lb))] {
        match x {
            None => ensure!(singular, "{} returned None for a non-singular matrix", what),
            Some(x) => {
                ensure!(!singular, "{} returned a solution for a singular matrix", what);
                ensure!(x.rows() == n && x.cols() == k, "{} returned a {}x{} solution", what, x.rows(), x.cols());
                ensure!(ratmul(&la, &x).flat() == b.flat(), "{}: A X differs from B; X = {:?}", what, x);
            }
        }
    }
    match la.inverse() {
        None => ensure!(singular, "inverse returned None for a non-singular matrix"),
        Some(x) => {
            ensure!(!singular, "inverse of a singular matrix");
            let id: Vec<Rat> = Matrix::id(n, n).get_data().clone();
            ensure!(x.rows() == n && x.cols() == n && ratmul(&la, &x).flat() == id && ratmul(&x, &la).flat() == id, "inverse is not two-sided: {:?}", x);
        }
    }
    Ok(())
}

fn residual<F: Fl>(s: &mut Src, what: &str, a: &D, x: &D, b: &D, g: &D) -> R {
    let n = a.r;
    ensure!((x.r, x.c) == (n, b.c), "{} returned {}x{} for {} unknowns and {} right-hand sides", what, x.r, x.c, n, b.c);
    if !x.finite() {
        // the solution left the range of the type: nothing to compare
        return discard();
    }
    let ax = a.mul(x);
    let w = g.mul(&x.abs());
    let c = 64.0 * (n as f64 + 2.0) * F::EPS;
    let tiny = gen::underflow::<F>(n, g.max());
    for i in 0..n {
        for j in 0..b.c {
            let e = (ax.at(i, j) - b.at(i, j)).abs();
            let tol = c * (w.at(i, j) + b.at(i, j).abs()) + tiny;
            s.stat("residual / bound", e / tol);
            ensure!(e <= tol, "{}: (A X - B)({}, {}) = {:e}, allowed {:e}; X = {:?}", what, i, j, e, tol, x);
        }
    }
    Ok(())
}

/// The |L||U| of backward-error theory: of a reference elimination plus, because elimination of a
/// nearly singular matrix may go different equally good ways, of the factors the library used
/// (they are trusted only as long as no multiplier exceeds one; C07 checks that P A = L U).
fn growth<F: Fl>(a: &D, lu: &LUDecomposition<F>) -> D {
    let mut g = lu_growth(a);
    let (l, u) = (D::of(&lu.get_l()), D::of(&lu.get_u()));
    let p = lu.get_piv();
    let n = a.r;
    if l.finite() && u.finite() && l.max() <= 1.0 && (l.r, l.c, u.r, u.c) == (n, n, n, n) && p.len() == n {
        let w = l.abs().mul(&u.abs());
        for i in 0..n {
            for j in 0..n {
                let v = g.at(p[i], j) + w.at(i, j);
                g.put(p[i], j, v);
            }
        }
    }
    g
}

fn check_solve<F: Fl>(s: &mut Src, a: &D, b: &D) -> R {
    let (a, b) = (a.round::<F>(), b.round::<F>());
    let (la, lb) = (a.lib::<F>(), b.lib::<F>());
    let lu = LUDecomposition::new(&la);
    let sing = la.is_singular();
    ensure!(la.is_non_singular() != sing && lu.is_singular() == sing && lu.is_non_singular() != sing, "singularity tests disagree");
    s.label(if sing { "singular" } else { "regular" });
    s.nontrivial_if(a.r >= 2);
    let g = growth::<F>(&a, &lu);
    for (what, x) in [("solve", la.solve(&lb)), ("LU solve", lu.solve(&lb))] {
        match x {
            None => ensure!(sing, "{} returned None although the matrix is reported non-singular", what),
            Some(x) => {
                ensure!(!sing, "{} returned a solution although the matrix is reported singular", what);
                residual::<F>(s, what, &a, &D::of(&x), &b, &g)?;
            }
        }
    }
    ensure!(la.inverse().is_none() == sing, "inverse and singularity test disagree");
    Ok(())
}

fn solve_float<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 12);
    let a = gen::square(s, n, span::<F>());
    let k = gen::rhs_cols(s);
    let b = gen::plain(s, n, k, span::<F>());
    s.note(|| format!("{} {:?} X = {:?}", F::NAME, a, b));
    check_solve::<F>(s, &a, &b)
}

/// A well-conditioned system at any scale: a finite solution there must be.
fn solve_scaled<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 10);
    let top = if F::IS32 { 50 } else { 480 };
    let (f, h) = (far::<F>(s, top), far::<F>(s, top));
    let a = gen::well_conditioned(s, n).scale(f).round::<F>();
    let k = gen::rhs_cols(s);
    let b = D::from(n, k, |_, _| s.int(9) as f64 * h);
    s.note(|| format!("{} {:?} X = {:?}", F::NAME, a, b));
    let la = a.lib::<F>();
    ensure!(la.is_non_singular(), "a well-conditioned matrix is reported singular");
    for x in [la.solve(&b.lib::<F>()), la.inverse()] {
        match x {
            None => return fail("no solution for a well-conditioned matrix".into()),
            Some(x) => ensure!(D::of(&x).finite(), "the solution for a well-conditioned matrix is not finite: {:?}", x),
        }
    }
    let x = D::of(&la.inverse().unwrap());
    let e = a.scale(1.0 / f).mul(&x.scale(f)).sub(&D::id(n)).max();
    let tol = 64.0 * (n as f64 + 2.0) * F::EPS * a.scale(1.0 / f).fro() * x.scale(f).fro();
    s.stat("inverse error / bound", e / tol);
    ensure!(e <= tol, "A X differs from I by {:e}, allowed {:e}", e, tol);
    check_solve::<F>(s, &a, &b)
}

fn solve_large(s: &mut Src) -> R {
    let n = gen::tail(s, 13, 80, 140);
    let a = gen::general(s, n, n, SPAN64);
    let k = gen::rhs_cols(s);
    let b = gen::plain(s, n, k, SPAN64);
    s.note(|| format!("{:?}", a));
    check_solve::<f64>(s, &a, &b)
}

fn inverse_float<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 16);
    let a = gen::well_conditioned(s, n).round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    s.nontrivial_if(n >= 2);
    let la = a.lib::<F>();
    ensure!(!la.is_singular(), "a well-conditioned matrix is reported singular");
    let x = match la.inverse() {
        None => return fail("inverse of a well-conditioned matrix is None".into()),
        Some(x) => D::of(&x),
    };
    ensure!((x.r, x.c) == (n, n), "inverse is {}x{}", x.r, x.c);
    let id = D::id(n);
    let kappa = a.fro() * x.fro();
    for (what, p) in [("A X", a.mul(&x)), ("X A", x.mul(&a))] {
        let e = p.sub(&id).max();
        let tol = 64.0 * (n as f64 + 2.0) * F::EPS * kappa;
        s.stat("inverse error / bound", e / tol);
        ensure!(e <= tol, "{} differs from I by {:e}, allowed {:e}", what, e, tol);
    }
    // kappa is the library's own estimate: make sure it is moderate
    ensure!(x.fro() <= 50.0 * (n as f64), "inverse of a well-conditioned matrix has norm {:e}", x.fro());
    Ok(())
}

fn singular_struct<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 14);
    let mut a = gen::plain(s, n, n, span::<F>());
    let k = s.range(0, n - 1);
    let col = s.bool();
    for i in 0..n {
        let z = if s.chance(1, 3) { -0.0 } else { 0.0 };
        if col {
            a.put(i, k, z);
        } else {
            a.put(k, i, z);
        }
    }
    s.note(|| format!("{} {:?}", F::NAME, a));
    s.nontrivial_if(n >= 2);
    let la = a.lib::<F>();
    let what = if col { "column" } else { "row" };
    ensure!(la.is_singular() && !la.is_non_singular(), "a matrix with zero {} {} is not reported singular", what, k);
    let lu = LUDecomposition::new(&la);
    ensure!(lu.is_singular() && !lu.is_non_singular(), "LU: a matrix with zero {} {} is not reported singular", what, k);
    ensure!(la.inverse().is_none(), "a matrix with zero {} {} was inverted", what, k);
    let b = gen::plain(s, n, 2, span::<F>()).lib::<F>();
    ensure!(la.solve(&b).is_none() && lu.solve(&b).is_none(), "a system with zero {} {} was solved", what, k);
    ensure!(la.det().val() == 0.0, "the determinant of a matrix with zero {} {} is {:?}", what, k, la.det());
    Ok(())
}

/// Blocks of one or two rows with elements +-1, 2, 4 or 0, rows and columns multiplied by powers of
/// two far apart, then permuted: elimination is exact in any order of the rows.
struct Far {
    a: D,
    /// Block of every row and column, its elements, and the position in the block.
    blocks: Vec<(Vec<usize>, Vec<usize>, D)>,
    /// The exponents.
    rows: Vec<i32>,
    cols: Vec<i32>,
    /// Sign of the permutations.
    sign: f64,
}

fn parity(p: &[usize]) -> f64 {
    let odd = (0..p.len()).map(|i| (0..i).filter(|&j| p[j] > p[i]).count()).sum::<usize>() % 2;
    if odd == 1 { -1.0 } else { 1.0 }
}

fn two(e: i32) -> f64 {
    2f64.powi(e / 2) * 2f64.powi(e - e / 2)
}

fn det2(b: &D) -> f64 {
    if b.r == 1 { b.at(0, 0) } else { b.at(0, 0) * b.at(1, 1) - b.at(0, 1) * b.at(1, 0) }
}

fn far_blocks(s: &mut Src, n: usize, top: i64, singular: bool) -> Far {
    let (p, q) = (gen::perm(s, n), gen::perm(s, n));
    let rows: Vec<i32> = (0..n).map(|_| s.int(top) as i32).collect();
    let cols: Vec<i32> = (0..n).map(|_| s.int(top) as i32).collect();
    let mut a = D::zero(n, n);
    let mut blocks = vec![];
    let mut at = 0;
    while at < n {
        let k = if n - at >= 2 && s.chance(2, 3) { 2 } else { 1 };
        let mut e = |s: &mut Src| [0.0, 1.0, 2.0, 4.0][s.below(4) as usize] * if s.bool() { -1.0 } else { 1.0 };
        let mut b = D::from(k, k, |_, _| e(s));
        if singular && blocks.is_empty() {
            if k == 1 {
                b.put(0, 0, 0.0);
            } else {
                // the second row a multiple of the first
                let f = [-2.0, -1.0, 0.0, 1.0, 0.5, 2.0][s.below(6) as usize];
                for j in 0..2 {
                    let v = f * b.at(0, j);
                    b.put(1, j, v);
                }
            }
        } else if det2(&b) == 0.0 {
            b = if k == 1 { D::new(1, 1, vec![-2.0]) } else { D::new(2, 2, vec![0.0, 1.0, -1.0, 4.0]) };
        }
        let (r, c): (Vec<usize>, Vec<usize>) = ((at..at + k).map(|i| p[i]).collect(), (at..at + k).map(|i| q[i]).collect());
        for i in 0..k {
            for j in 0..k {
                a.put(r[i], c[j], b.at(i, j) * two(rows[r[i]] + cols[c[j]]));
            }
        }
        blocks.push((r, c, b));
        at += k;
    }
    Far { a, blocks, rows, cols, sign: parity(&p) * parity(&q) }
}

/// The same with all elements within a few bits of the smallest positive number.
fn far_edge<F: Fl>(s: &mut Src, n: usize, singular: bool) -> Far {
    let mut f = far_blocks(s, n, 1, singular);
    let base = (if F::IS32 { -149 } else { -1074 }) + 6 + s.below(20) as i32;
    for e in f.rows.iter_mut() {
        *e += base;
    }
    f.a = f.a.scale(two(base));
    f
}

/// Systems whose elimination is exact, so P A = L U holds without any rounding, however far apart
/// in scale their parts are and however small they are.
fn factors_far<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 10);
    let singular = s.chance(1, 5);
    let edge = s.bool();
    let f = if edge { far_edge::<F>(s, n, singular) } else { far_blocks(s, n, if F::IS32 { 28 } else { 200 }, singular) };
    s.label_if(edge, "subnormal");
    // part of the rows and columns only
    let (m, k) = if s.chance(1, 3) { (s.range(1, n), s.range(1, n)) } else { (n, n) };
    let a = D::from(m, k, |i, j| f.a.at(i, j));
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_factors::<F>(s, &a)?;
    let d = LUDecomposition::new(&a.lib::<F>());
    let lu = D::of(&d.get_l()).mul(&D::of(&d.get_u()));
    let pa = a.rows_of(d.get_piv());
    for i in 0..m {
        for j in 0..k {
            ensure!(lu.at(i, j) == pa.at(i, j), "PA is {:e} and LU {:e} at ({}, {}), although no step rounds", pa.at(i, j), lu.at(i, j), i, j);
        }
    }
    Ok(())
}

fn det_far<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 9);
    // no partial product may leave the range
    let total = if F::IS32 { 90 } else { 900 };
    let singular = s.chance(1, 5);
    let f = far_blocks(s, n, total / (2 * n as i64), singular);
    s.note(|| format!("{} {:?}", F::NAME, f.a));
    s.label_if(singular, "singular");
    s.nontrivial_if(n >= 2);
    let e: i32 = f.rows.iter().sum::<i32>() + f.cols.iter().sum::<i32>();
    let want = f.blocks.iter().fold(f.sign, |d, b| d * det2(&b.2)) * two(e);
    let m = f.a.lib::<F>();
    for got in [m.det().val(), LUDecomposition::new(&m).det().val()] {
        if singular {
            ensure!(got == 0.0, "the determinant of a singular matrix (exact elimination) is {:?}", got);
        } else {
            let tol = 64.0 * (n as f64 + 1.0) * F::EPS * want.abs();
            s.stat("determinant error / bound", (got - want).abs() / tol);
            ensure!((got - want).abs() <= tol, "the determinant is {:?}, expected {:?}", got, want);
        }
    }
    Ok(())
}

fn solve_far<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 10);
    let singular = s.chance(1, 5);
    // now and then among the smallest numbers there are: still exact, but reciprocals overflow
    let edge = s.chance(1, 4);
    let f = if edge { far_edge::<F>(s, n, singular) } else { far_blocks(s, n, if F::IS32 { 28 } else { 200 }, singular) };
    s.label_if(edge, "subnormal");
    let k = gen::rhs_cols(s);
    // X = D Z with small integers Z
    let z = D::from(n, k, |_, _| s.int(9) as f64);
    let mut b = D::zero(n, k);
    for (r, c, g) in &f.blocks {
        for (i, ri) in r.iter().enumerate() {
            for j in 0..k {
                b.put(*ri, j, (0..c.len()).map(|l| g.at(i, l) * z.at(c[l], j)).sum::<f64>() * two(f.rows[*ri]));
            }
        }
    }
    s.note(|| format!("{} {:?} X = {:?}", F::NAME, f.a, b));
    s.label_if(singular, "singular");
    s.nontrivial_if(n >= 2);
    let m = f.a.lib::<F>();
    let lu = LUDecomposition::new(&m);
    ensure!(m.is_singular() == singular && lu.is_singular() == singular, "is_singular is {} and {}, expected {}", m.is_singular(), lu.is_singular(), singular);
    ensure!(m.is_non_singular() != singular && lu.is_non_singular() != singular, "is_non_singular is not the opposite of is_singular");
    let lb = b.lib::<F>();
    let tol = 4096.0 * F::EPS;
    for x in [m.solve(&lb), lu.solve(&lb)] {
        match x {
            None => ensure!(singular, "no solution for a regular matrix"),
            Some(x) => {
                ensure!(!singular, "a singular system was solved: {:?}", x);
                let x = D::of(&x);
                ensure!((x.r, x.c) == (n, k), "X is {}x{}, expected {}x{}", x.r, x.c, n, k);
                for i in 0..n {
                    for j in 0..k {
                        let e = (x.at(i, j) * two(f.cols[i]) - z.at(i, j)).abs() / 9.0;
                        s.stat("solution error / bound", e / tol);
                        ensure!(e <= tol, "X({}, {}) is {:?}, expected {:?}", i, j, x.at(i, j), z.at(i, j) * two(-f.cols[i]));
                    }
                }
            }
        }
    }
    if edge {
        // the inverse leaves the range
        return Ok(());
    }
    match m.inverse() {
        None => ensure!(singular, "no inverse of a regular matrix"),
        Some(x) => {
            ensure!(!singular, "a singular matrix was inverted: {:?}", x);
            let x = D::of(&x);
            let mut want = D::zero(n, n);
            for (r, c, g) in &f.blocks {
                let d = det2(g);
                for i in 0..r.len() {
                    for j in 0..r.len() {
                        let v = if r.len() == 1 {
                            1.0
                        } else if i == j {
                            g.at(1 - i, 1 - j)
                        } else {
                            -g.at(i, j)
                        };
                        want.put(c[i], r[j], v / d);
                    }
                }
            }
            for i in 0..n {
                for j in 0..n {
                    let e = (x.at(i, j) * two(f.cols[i] + f.rows[j]) - want.at(i, j)).abs() / 4.0;
                    s.stat("inverse error / bound", e / tol);
                    ensure!(e <= tol, "the inverse at ({}, {}) is {:?}, expected {:?}", i, j, x.at(i, j), want.at(i, j) * two(-f.cols[i] - f.rows[j]));
                }
            }
        }
    }
    Ok(())
}
