//! C19 (termination and finiteness), C24 (agreement between decompositions).

use super::lu::span;
use super::svd::{any_shift, exponent, parts, scale_of, shifted};
use crate::cf::{Fl, C32, C64};
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::refm::{lu_growth, D};
use la::*;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C19",
            rule: "matrices from structured families that are hard on iterations (0/1 and -1/0/1 matrices, cyclic, companion, Jordan, low rank, graded, noise cascades) in counted element types: every decomposition, solve, determinant, inverse, rank and norm must finish within 20000 (m+n)^3 + 200000 element operations, with finite factors, eigenvalues and singular values. Non-trivial: at least 3 rows and 3 columns.",
            groups: vec![
                Group { name: "small integers eigen f64", f: ints_eigen::<C64>, quick: 400000, thorough: 20000000 },
                Group { name: "small integers eigen f32", f: ints_eigen::<C32>, quick: 200000, thorough: 10000000 },
                Group { name: "eigen f64", f: eigen::<C64>, quick: 100000, thorough: 5000000 },
                Group { name: "eigen f32", f: eigen::<C32>, quick: 100000, thorough: 5000000 },
                Group { name: "repeated eigenvalues f64", f: repeated::<C64>, quick: 200000, thorough: 10000000 },
                Group { name: "repeated eigenvalues f32", f: repeated::<C32>, quick: 400000, thorough: 20000000 },
                Group { name: "symmetric f64", f: symm::<C64>, quick: 60000, thorough: 3000000 },
                Group { name: "symmetric f32", f: symm::<C32>, quick: 60000, thorough: 3000000 },
                Group { name: "svd f64", f: svd::<C64>, quick: 100000, thorough: 5000000 },
                Group { name: "svd f32", f: svd::<C32>, quick: 100000, thorough: 5000000 },
                Group { name: "direct methods f64", f: direct::<C64>, quick: 60000, thorough: 3000000 },
                Group { name: "direct methods f32", f: direct::<C32>, quick: 60000, thorough: 3000000 },
                Group { name: "noise f64", f: noise::<C64>, quick: 60000, thorough: 3000000 },
                Group { name: "noise f32", f: noise::<C32>, quick: 60000, thorough: 3000000 },
                Group { name: "large low rank", f: cascade, quick: 3000, thorough: 60000 },
                Group { name: "large", f: large, quick: 500, thorough: 20000 },
            ],
            assumptions: &["elements of ordinary scale (2^-60 to 2^60 in f64, 2^-10 to 2^10 in f32), or, for the SVD and symmetric eigendecomposition, anywhere in the range of the type", "the bound on element operations is at least ten times the largest number ever observed"],
        },
        Property {
            id: "C24",
            rule: "one matrix, several decompositions: determinant, eigenvalue product, singular value product, diagonals of R and L; LU, QR, Cholesky and pseudo-inverse solutions; eigenvalue magnitudes and singular values; norms and sums; and the same under transposition, permutation, similarity and powers of two, each within a backward-error bound. Non-trivial: n >= 2.",
            groups: vec![
                Group { name: "determinants", f: determinants, quick: 200000, thorough: 6000000 },
                Group { name: "symmetric", f: symmetric, quick: 150000, thorough: 4000000 },
                Group { name: "positive definite", f: definite, quick: 100000, thorough: 3000000 },
                Group { name: "solutions f64", f: solutions::<f64>, quick: 150000, thorough: 4000000 },
                Group { name: "solutions f32", f: solutions::<f32>, quick: 60000, thorough: 2000000 },
                Group { name: "transformations f64", f: transformations::<f64>, quick: 100000, thorough: 3000000 },
                Group { name: "transformations f32", f: transformations::<f32>, quick: 50000, thorough: 1500000 },
                Group { name: "large", f: relations_large, quick: 1000, thorough: 40000 },
            ],
            assumptions: &["entries of ordinary scale; products of n entries stay in range"],
        },
    ]
}

// ---------------------------------------------------------------- C19

fn budget(m: usize, n: usize) -> u64 {
    20_000 * ((m + n) as u64).pow(3) + 200_000
}

fn counted<T, Fun: FnOnce() -> T>(s: &mut Src, what: &'static str, m: usize, n: usize, f: Fun) -> T {
    let b = budget(m, n);
    let (v, used) = with_budget(b, f);
    s.stat(what, used as f64 / b as f64);
    v
}

fn finite<F: Fl>(what: &str, m: &Matrix<F>) -> R {
    ensure!(m.get_data().iter().all(|x| x.val().is_finite()), "{} is not finite: {:?}", what, D::of(m));
    Ok(())
}

fn eigen_of<F: Fl>(s: &mut Src, a: &D) -> R {
    let n = a.r;
    s.note(|| format!("{} {:?}", F::NAME, a));
    s.nontrivial_if(n >= 3);
    let m = a.lib::<F>();
    let d = counted(s, "eigendecomposition", n, n, || EigenDecomposition::new(&m));
    finite("V", d.get_v())?;
    ensure!(d.get_real_eigenvalues().iter().chain(d.get_imag_eigenvalues().iter()).all(|x| x.val().is_finite()), "eigenvalues {:?} {:?}", d.get_real_eigenvalues(), d.get_imag_eigenvalues());
    Ok(())
}

fn ints_eigen<F: Fl>(s: &mut Src) -> R {
    let n = s.range(2, 6);
    let a = match s.below(3) {
        0 => D::from(n, n, |_, _| s.int(1) as f64),
        1 => D::from(n, n, |_, _| s.below(2) as f64),
        _ => D::from(n, n, |_, _| s.int(2) as f64),
    };
    eigen_of::<F>(s, &a)
}

fn eigen<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, if F::IS32 { 9 } else { 12 });
    let a = gen::square(s, n, span::<F>()).round::<F>();
    eigen_of::<F>(s, &a)
}

fn repeated<F: Fl>(s: &mut Src) -> R {
    let a = gen::repeated(s).round::<F>();
    eigen_of::<F>(s, &a)
}

fn symm<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, if F::IS32 { 10 } else { 14 });
    let a = gen::symmetric(s, n, span::<F>()).round::<F>();
    eigen_of::<F>(s, &a)?;
    let m = a.lib::<F>();
    if let Some(c) = counted(s, "cholesky", n, n, || CholeskyDecomposition::new(&m)) {
        finite("the Cholesky factor", c.get_l())?;
    }
    Ok(())
}

fn svd_of<F: Fl>(s: &mut Src, a: &D) -> R {
    let (m, n) = (a.r, a.c);
    s.note(|| format!("{} {:?}", F::NAME, a));
    s.nontrivial_if(m >= 3 && n >= 3);
    let x = a.lib::<F>();
    let d = counted(s, "svd", m, n, || SVD::new(&x));
    finite("U", d.get_u())?;
    finite("S", d.get_s())?;
    finite("V", d.get_v())?;
    counted(s, "rank", m, n, || d.rank());
    Ok(())
}

fn shape<F: Fl>(s: &mut Src) -> (usize, usize) {
    let cap = if F::IS32 { 9 } else { 12 };
    let m = gen::dim(s, cap);
    let n = if s.chance(1, 3) { m } else { gen::dim(s, cap) };
    (m, n)
}

fn svd<F: Fl>(s: &mut Src) -> R {
    let (m, n) = shape::<F>(s);
    let a = match s.below(4) {
        0 => D::from(m, n, |_, _| s.int(1) as f64),
        _ => gen::general(s, m, n, span::<F>()).round::<F>(),
    };
    svd_of::<F>(s, &a)
}

fn direct<F: Fl>(s: &mut Src) -> R {
    let (m, n) = shape::<F>(s);
    let a = gen::general(s, m, n, span::<F>()).round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    s.nontrivial_if(m >= 3 && n >= 3);
    let x = a.lib::<F>();
    let b = D::from(m, 2, |_, _| s.int(5) as f64).lib::<F>();
    let lu = counted(s, "LU", m, n, || LUDecomposition::new(&x));
    finite("L", &lu.get_l())?;
    finite("U", &lu.get_u())?;
    let qr = counted(s, "QR", m, n, || QRDecomposition::new(&x));
    let (q, r) = counted(s, "Q and R", m, n, || (qr.get_q(), qr.get_r()));
    finite("Q", &q)?;
    finite("R", &r)?;
    finite("H", &qr.get_h())?;
    counted(s, "QR solve", m, n, || qr.solve(&b));
    let t = counted(s, "norms", m, n, || (x.frobenius_norm(), x.trace()));
    ensure!(t.0.val().is_finite() && t.1.val().is_finite(), "Frobenius norm {:?}, trace {:?}", t.0, t.1);
    let v = x.get_column(0);
    let p = F::of(3.0);
    let t = counted(s, "vector norms", m, n, || [v.vector_1_norm(), v.vector_2_norm(), v.vector_p_norm(p), v.vector_inf_norm()]);
    ensure!(t.iter().all(|z| z.val().is_finite()), "vector norms {:?}", t);
    if m == n {
        counted(s, "determinant", m, n, || x.det());
        counted(s, "inverse", m, n, || x.inverse().is_some());
        counted(s, "solve", m, n, || x.solve(&b).is_some());
    }
    Ok(())
}

/// Elements over the whole range of the type (eigenvectors of general matrices: ordinary scale).
fn noise<F: Fl>(s: &mut Src) -> R {
    let m = gen::dim(s, 8);
    let n = if s.chance(1, 2) { m } else { gen::dim(s, 8) };
    let top = if F::IS32 { 148 } else { 1070 };
    match s.below(3) {
        0 => {
            let a = gen::noisy(s, m, n, span::<F>(), top).round::<F>();
            svd_of::<F>(s, &a)
        }
        1 => {
            let a = gen::noisy(s, n, n, span::<F>(), top).round::<F>();
            eigen_of::<F>(s, &D::from(n, n, |i, j| if i <= j { a.at(i, j) } else { a.at(j, i) }))
        }
        _ => {
            let a = gen::noisy(s, n, n, span::<F>(), if F::IS32 { 12 } else { 60 });
            let k = any_shift::<F>(s, &a);
            // eigenvectors need not be in range where the matrix itself is not exact
            let k = k.max(-exponent(&a) - if F::IS32 { 70 } else { 850 });
            eigen_of::<F>(s, &shifted(&a, k).round::<F>())
        }
    }
}

/// Low-rank matrices leave cascades of ever smaller rounding noise.
fn cascade(s: &mut Src) -> R {
    let m = s.range(6, 40);
    let n = if s.bool() { m } else { s.range(6, 40) };
    let k = s.range(1, 3);
    let pow = s.bool();
    let e = |s: &mut Src| if pow { 2f64.powi(s.int(3) as i32) * s.int(1) as f64 } else { s.int(4) as f64 };
    let x = D::from(m, k, |_, _| e(s));
    let y = D::from(k, n, |_, _| e(s));
    let mut a = x.mul(&y);
    if s.chance(1, 4) {
        let t = 1.0 + s.below(1000) as f64 / 7.0;
        a = a.scale(t);
    }
    if m == n {
        s.label("square");
        if s.chance(1, 4) {
            a = a.mul(&a.t());
            a = D::from(n, n, |i, j| if i <= j { a.at(i, j) } else { a.at(j, i) });
            s.label("symmetric");
        }
        eigen_of::<C64>(s, &a)?;
        eigen_of::<C32>(s, &a.round::<f32>())?;
    }
    svd_of::<C64>(s, &a)?;
    svd_of::<C32>(s, &a.round::<f32>())
}

fn large(s: &mut Src) -> R {
    let n = gen::tail(s, 12, 40, 110);
    let a = gen::square(s, n, span::<f64>());
    eigen_of::<C64>(s, &a)?;
    svd_of::<C64>(s, &a)?;
    let a = gen::symmetric(s, n, span::<f64>());
    eigen_of::<C64>(s, &a)
}

// ---------------------------------------------------------------- C24

fn eigs<F: Fl>(a: &D) -> Vec<(f64, f64)> {
    let d = EigenDecomposition::new(&a.lib::<F>());
    d.get_real_eigenvalues().iter().zip(d.get_imag_eigenvalues().iter()).map(|(x, y)| (x.val(), y.val())).collect()
}

fn svals<F: Fl>(a: &D) -> Vec<f64> {
    parts(&SVD::new(&a.lib::<F>())).sv
}

fn product(z: &[(f64, f64)]) -> (f64, f64) {
    z.iter().fold((1.0, 0.0), |a, b| (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0))
}

fn close(what: &str, x: f64, y: f64, tol: f64) -> R {
    // written so that NaN fails
    ensure!((x - y).abs() <= tol, "{}: {:?} against {:?} (allowed difference {:e})", what, x, y, tol);
    Ok(())
}

fn determinants(s: &mut Src) -> R {
    let n = gen::dim(s, 8);
    let a = gen::square(s, n, gen::Span { mid: 10, wide: 20, grade: 6 });
    // compare at ordinary scale: an exact power of two
    let a = a.scale(1.0 / scale_of(&a));
    s.note(|| format!("{:?}", a));
    s.nontrivial_if(n >= 2);
    let sv = svals::<f64>(&a);
    let c = 64.0 * (n as f64 + 4.0) * f64::EPSILON;
    // |det(A + E) - det A| <= sum over i of the product of all but one of the s_j + |E|, times |E|
    let bound = |d: f64| d * n as f64 * sv[..n - 1].iter().map(|x| x + d).product::<f64>();
    let norm = a.fro();
    let tol = 2.0 * bound(c * norm);
    let det = a.lib::<f64>().det();
    let tlu = tol + bound(c * (lu_growth(&a).fro() + norm));
    s.label(if det == 0.0 { "zero determinant" } else { "regular" });
    s.label_if(det.abs() > 100.0 * tlu, "determinant clear of rounding");
    let sp: f64 = sv.iter().product();
    close("|det| and product of singular values", det.abs(), sp, tlu)?;
    let ev = product(&eigs::<f64>(&a));
    close("det and product of eigenvalues", det, ev.0, tlu)?;
    ensure!(ev.1.abs() <= tlu, "the product of the eigenvalues has imaginary part {:e}", ev.1);
    let r = QRDecomposition::new(&a.lib::<f64>()).get_r();
    let rp: f64 = (0..n).map(|i| r.get(i, i)).product();
    close("|det| and product of the diagonal of R", det.abs(), rp.abs(), tlu)?;
    let lud = LUDecomposition::new(&a.lib::<f64>()).det();
    close("det by the matrix and by its LU decomposition", det, lud, tlu)?;
    close("det of the transpose", a.t().lib::<f64>().det(), det, tlu + bound(c * (lu_growth(&a.t()).fro() + norm)))?;
    // Frobenius norm and trace
    let f = a.lib::<f64>().frobenius_norm();
    let sq: f64 = sv.iter().map(|x| x * x).sum::<f64>().sqrt();
    close("Frobenius norm and singular values", f, sq, c * norm)?;
    let e = eigs::<f64>(&a);
    close("trace and eigenvalue sum", a.lib::<f64>().trace(), e.iter().map(|z| z.0).sum(), c * n as f64 * norm)
}

fn symmetric(s: &mut Src) -> R {
    let n = gen::dim(s, 10);
    symmetric_case(s, n)
}

fn symmetric_case(s: &mut Src, n: usize) -> R {
    let a = gen::symmetric(s, n, span::<f64>());
    let a = a.scale(1.0 / scale_of(&a));
    s.note(|| format!("{:?}", a));
    s.nontrivial_if(n >= 2);
    let sv = svals::<f64>(&a);
    let e = eigs::<f64>(&a);
    let tol = 64.0 * (n as f64 + 4.0) * f64::EPSILON * a.fro();
    let mut m: Vec<f64> = e.iter().map(|z| z.0.abs()).collect();
    m.sort_by(|x, y| y.partial_cmp(x).unwrap());
    for i in 0..n {
        close("singular value and eigenvalue magnitude of a symmetric matrix", sv[i], m[i], tol)?;
    }
    // eigenvalues of -A, of P A P', of A + kI
    let neg = eigs::<f64>(&a.scale(-1.0));
    let p = gen::perm(s, n);
    let sim = eigs::<f64>(&D::from(n, n, |i, j| a.at(p[i], p[j])));
    let k = s.int(3) as f64;
    let sh = eigs::<f64>(&D::from(n, n, |i, j| a.at(i, j) + if i == j { k } else { 0.0 }));
    let tol2 = 2.0 * tol + 64.0 * (n as f64 + 4.0) * f64::EPSILON * (a.fro() + k.abs() * n as f64);
    for i in 0..n {
        close("eigenvalues of -A", neg[n - 1 - i].0, -e[i].0, 2.0 * tol)?;
        close("eigenvalues of PAP'", sim[i].0, e[i].0, 2.0 * tol)?;
        close("eigenvalues of A + kI", sh[i].0, e[i].0 + k, tol2)?;
    }
    // interlacing: deleting one row and column
    if n >= 2 {
        let d = s.range(0, n - 1);
        let m = D::from(n - 1, n - 1, |i, j| a.at(i + (i >= d) as usize, j + (j >= d) as usize));
        let l = eigs::<f64>(&m);
        for i in 0..n - 1 {
            ensure!(l[i].0 <= e[i].0 + tol && l[i].0 >= e[i + 1].0 - tol, "eigenvalues {:?} of the minor without row and column {} do not interlace {:?}", l, d, e);
        }
    }
    Ok(())
}

/// Symmetric positive definite with eigenvalues between 1 and 32.
fn spd(s: &mut Src, n: usize) -> D {
    let q = gen::orth(s, n);
    let lam: Vec<f64> = (0..n).map(|_| 1.0 + s.below(32) as f64).collect();
    let a = D::from(n, n, |i, j| (0..n).map(|k| q.at(i, k) * lam[k] * q.at(j, k)).sum());
    D::from(n, n, |i, j| if i <= j { a.at(i, j) } else { a.at(j, i) })
}

fn definite(s: &mut Src) -> R {
    let n = gen::dim(s, 10);
    definite_case(s, n)
}

/// Sizes at which a blocked or specialised code path may take over.
fn relations_large(s: &mut Src) -> R {
    match s.below(4) {
        0 => {
            let n = gen::tail(s, 11, 40, 130);
            definite_case(s, n)
        }
        1 => {
            let n = gen::tail(s, 10, 40, 130);
            solutions_case::<f64>(s, n)
        }
        2 => {
            let n = gen::tail(s, 11, 40, 130);
            symmetric_case(s, n)
        }
        _ => {
            if s.chance(1, 6) {
                let (m, n) = gen::thin(s);
                return if s.bool() { transformations_case::<f64>(s, m, n) } else { transformations_case::<f64>(s, n, m) };
            }
            let m = gen::tail(s, 10, 45, 110);
            let n = if s.chance(1, 3) { m } else { gen::tail(s, 10, 45, 110) };
            transformations_case::<f64>(s, m, n)
        }
    }
}

fn definite_case(s: &mut Src, n: usize) -> R {
    let a = spd(s, n);
    let b = D::from(n, 2, |_, _| s.int(9) as f64);
    s.note(|| format!("{:?} B {:?}", a, b));
    s.nontrivial_if(n >= 2);
    let (la, lb) = (a.lib::<f64>(), b.lib::<f64>());
    let c = match CholeskyDecomposition::new(&la) {
        None => return fail("no Cholesky decomposition of a positive definite matrix".into()),
        Some(c) => c,
    };
    let det = la.det();
    let l2: f64 = (0..n).map(|i| c.get_l().get(i, i).powi(2)).product();
    let tol = 64.0 * (n as f64 + 4.0) * f64::EPSILON * 33.0 * n as f64;
    close("det and Cholesky diagonal", det / l2, 1.0, tol)?;
    let e = eigs::<f64>(&a);
    close("det and eigenvalues", e.iter().map(|z| z.0).product::<f64>() / det, 1.0, tol)?;
    let xs = [("Cholesky", D::of(&c.solve(&lb))), ("LU", la.solve(&lb).map(|x| D::of(&x)).unwrap_or(D::zero(0, 0))), ("QR", QRDecomposition::new(&la).solve(&lb).map(|x| D::of(&x)).unwrap_or(D::zero(0, 0)))];
    for i in 1..3 {
        ensure!((xs[i].1.r, xs[i].1.c) == (n, 2), "{} gave no solution", xs[i].0);
        let d = xs[i].1.sub(&xs[0].1).max();
        let t = tol * (1.0 + xs[0].1.max());
        ensure!(d <= t, "{} and Cholesky solutions differ by {:e} (allowed {:e}): {:?} {:?}", xs[i].0, d, t, xs[i].1, xs[0].1);
    }
    Ok(())
}

fn solutions<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 9);
    solutions_case::<F>(s, n)
}

fn solutions_case<F: Fl>(s: &mut Src, n: usize) -> R {
    let a = gen::well_conditioned(s, n).round::<F>();
    let b = D::from(n, 2, |_, _| s.int(9) as f64);
    s.note(|| format!("{} {:?} B {:?}", F::NAME, a, b));
    s.nontrivial_if(n >= 2);
    let (la, lb) = (a.lib::<F>(), b.lib::<F>());
    let lu = la.solve(&lb);
    let qr = QRDecomposition::new(&la).solve(&lb);
    let inv = la.inverse();
    ensure!(lu.is_some() && qr.is_some() && inv.is_some(), "LU solution {}, QR solution {}, inverse {} for a well-conditioned matrix", lu.is_some(), qr.is_some(), inv.is_some());
    let (lu, qr, inv) = (D::of(&lu.unwrap()), D::of(&qr.unwrap()), D::of(&inv.unwrap()));
    ensure!((lu.r, lu.c, qr.r, qr.c, inv.r, inv.c) == (n, 2, n, 2, n, n), "shapes");
    // reference condition number and solution, by elimination in f64
    let rinv = match ref_inverse(&a) {
        None => return discard(),
        Some(x) => x,
    };
    let kappa = a.fro() * rinv.fro();
    let x = rinv.mul(&b);
    let tol = 64.0 * (n as f64 + 4.0) * F::EPS * kappa;
    for (what, y, w) in [("LU", &lu, &x), ("QR", &qr, &x), ("inverse", &inv, &rinv)] {
        let d = y.sub(w).fro();
        s.stat("solution difference / bound", d / (tol * w.fro()));
        ensure!(d <= tol * w.fro() + 1e3 * F::MINPOS, "{} differs from the reference by {:e} (allowed {:e}): {:?}, expected {:?}", what, d, tol * w.fro(), y, w);
    }
    if kappa < 40.0 || !F::IS32 {
        let p = D::of(&la.pinverse());
        ensure!((p.r, p.c) == (n, n), "pseudo-inverse shape");
        let d = p.sub(&rinv).fro();
        ensure!(d <= tol * kappa * rinv.fro(), "the pseudo-inverse differs from the inverse by {:e}: {:?}, expected {:?}", d, p, rinv);
        let sv = svals::<F>(&a);
        let isv = svals::<F>(&inv);
        for i in 0..n {
            close("singular values of A and of its inverse", isv[n - 1 - i] * sv[i], 1.0, tol * kappa)?;
        }
    }
    Ok(())
}

pub fn ref_inverse(a: &D) -> Option<D> {
    let n = a.r;
    let mut w = D::from(n, 2 * n, |i, j| if j < n { a.at(i, j) } else if j - n == i { 1.0 } else { 0.0 });
    for j in 0..n {
        let p = (j..n).max_by(|x, y| w.at(*x, j).abs().partial_cmp(&w.at(*y, j).abs()).unwrap()).unwrap();
        if w.at(p, j) == 0.0 {
            return None;
        }
        for k in 0..2 * n {
            w.d.swap(p * 2 * n + k, j * 2 * n + k);
        }
        let d = w.at(j, j);
        for k in 0..2 * n {
            let v = w.at(j, k) / d;
            w.put(j, k, v);
        }
        for i in 0..n {
            if i != j {
                let f = w.at(i, j);
                for k in 0..2 * n {
                    let v = w.at(i, k) - f * w.at(j, k);
                    w.put(i, k, v);
                }
            }
        }
    }
    Some(D::from(n, n, |i, j| w.at(i, j + n)))
}

fn transformations<F: Fl>(s: &mut Src) -> R {
    let (m, n) = shape::<F>(s);
    transformations_case::<F>(s, m, n)
}

fn transformations_case<F: Fl>(s: &mut Src, m: usize, n: usize) -> R {
    let a = gen::general(s, m, n, span::<F>()).round::<F>();
    let a = a.scale(1.0 / scale_of(&a)).round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    s.nontrivial_if(m >= 2 && n >= 2);
    let sv = svals::<F>(&a);
    let tol = 128.0 * ((m + n) as f64 + 4.0) * F::EPS * a.fro();
    let (p, q) = (gen::perm(s, m), gen::perm(s, n));
    let signs: Vec<f64> = (0..m).map(|_| if s.bool() { -1.0 } else { 1.0 }).collect();
    let b = D::from(m, n, |i, j| signs[i] * a.at(p[i], q[j]));
    for (what, x) in [("the transpose", a.t()), ("a permuted matrix", b.clone()), ("the negated matrix", a.scale(-1.0))] {
        let w = svals::<F>(&x);
        ensure!(w.len() == sv.len(), "{} has {} singular values", what, w.len());
        for i in 0..sv.len() {
            ensure!((w[i] - sv[i]).abs() <= tol, "singular values of {}: {:?}, of the matrix: {:?}", what, w, sv);
        }
    }
    // interlacing under removal of a row
    if m >= 2 {
        let d = s.range(0, m - 1);
        let c = D::from(m - 1, n, |i, j| a.at(i + (i >= d) as usize, j));
        let w = svals::<F>(&c);
        for i in 0..w.len() {
            ensure!(w[i] <= sv[i] + tol && (i + 1 >= sv.len() || w[i] >= sv[i + 1] - tol), "singular values {:?} without row {} do not interlace {:?}", w, d, sv);
        }
    }
    // A'A = R'R, and the diagonal of R of column-scaled matrices
    let r = D::of(&QRDecomposition::new(&a.lib::<F>()).get_r());
    let e = a.t().mul(&a).sub(&r.t().mul(&r)).fro();
    let lim = 32.0 * (m as f64 + 4.0) * (m.min(n) as f64 + 2.0) * F::EPS * a.fro() * a.fro() + 1e3 * F::MINPOS;
    ensure!(e <= lim, "A'A and R'R differ by {:e} (allowed {:e})", e, lim);
    if m == n {
        let z = eigs::<F>(&a);
        let p = gen::perm(s, n);
        for (what, x) in [("the transpose", a.t()), ("P A P'", D::from(n, n, |i, j| a.at(p[i], p[j])))] {
            let y = eigs::<F>(&x);
            let na = a.fro();
            if na == 0.0 {
                continue;
            }
            // symmetric functions of the spectrum are stable, single eigenvalues need not be
            for k in 1..=3 {
                let f = |v: &[(f64, f64)]| -> f64 { v.iter().map(|t| (0..k).fold((1.0, 0.0), |u, _| (u.0 * t.0 / na - u.1 * t.1 / na, u.0 * t.1 / na + u.1 * t.0 / na)).0).sum() };
                close(&format!("sum of powers of the eigenvalues of {}", what), f(&y), f(&z), k as f64 * 64.0 * (n as f64 + 4.0) * F::EPS)?;
            }
        }
    }
    Ok(())
}
