//! C13 (symmetric eigendecomposition), C14 (general eigendecomposition).

use super::svd::{any_shift, exponent, least, shifted};
use super::lu::span;
use super::qr::orth_err;
use crate::cf::Fl;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::refm::{norm, D};
use la::*;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            rule: "exactly symmetric matrices from structured families (Gram, chosen and repeated spectra, tridiagonal, graded, arrow, zero, extreme scales); V orthogonal, A V = V D within c n eps |A|, eigenvalues non-increasing with zero imaginary parts, D exactly diagonal; known spectra must come out. Non-trivial: n >= 2 and the matrix is not zero.",
            groups: vec![
                Group { name: "f64", f: symmetric::<f64>, quick: 150000, thorough: 4000000 },
                Group { name: "f32", f: symmetric::<f32>, quick: 60000, thorough: 1500000 },
                Group { name: "known spectrum", f: sym_known, quick: 60000, thorough: 1500000 },
                Group { name: "noise f64", f: sym_noise::<f64>, quick: 60000, thorough: 1600000 },
                Group { name: "noise f32", f: sym_noise::<f32>, quick: 60000, thorough: 1600000 },
                Group { name: "large", f: sym_large, quick: 400, thorough: 10000 },
            ],
            assumptions: &["entries stay between about 2^-450 and 2^450 (f64), 2^-55 and 2^55 (f32)"],
        },
        Property {
            id: "C14",
            rule: "square non-symmetric matrices from structured families (companion, circulant, Jordan, shifts, skew, quasi-triangular, graded, ...); column residuals of A V = V D relative to |A| |v|, exact block form of D, conjugate pairing, power sums of the spectrum; normal matrices with known spectra. Non-trivial: n >= 3 or a complex pair.",
            groups: vec![
                Group { name: "f64", f: general::<f64>, quick: 150000, thorough: 4000000 },
                Group { name: "f32", f: general::<f32>, quick: 60000, thorough: 1500000 },
                Group { name: "known spectrum f64", f: known::<f64>, quick: 60000, thorough: 1500000 },
                Group { name: "known spectrum f32", f: known::<f32>, quick: 20000, thorough: 500000 },
                Group { name: "repeated eigenvalues f64", f: repeated::<f64>, quick: 60000, thorough: 1500000 },
                Group { name: "repeated eigenvalues f32", f: repeated::<f32>, quick: 60000, thorough: 1500000 },
                Group { name: "noise f64", f: noise::<f64>, quick: 60000, thorough: 1600000 },
                Group { name: "noise f32", f: noise::<f32>, quick: 60000, thorough: 1600000 },
                Group { name: "large", f: general_large, quick: 300, thorough: 8000 },
            ],
            assumptions: &["entries within 2^-60 to 2^60 (f64), 2^-10 to 2^10 (f32) of a common scale, which may lie anywhere in the range above about 2^-850 (f64), 2^-70 (f32)"],
        },
    ]
}

// ---------------------------------------------------------------- C13

fn check_sym<F: Fl>(s: &mut Src, a: &D) -> Result<Vec<f64>, Bad> {
    let n = a.r;
    let d = EigenDecomposition::new(&a.lib::<F>());
    let v = D::of(d.get_v());
    let re: Vec<f64> = d.get_real_eigenvalues().iter().map(|x| x.val()).collect();
    let im: Vec<f64> = d.get_imag_eigenvalues().iter().map(|x| x.val()).collect();
    let dm = D::of(&d.get_d());
    ensure!((v.r, v.c) == (n, n) && re.len() == n && im.len() == n && (dm.r, dm.c) == (n, n), "shapes: V {}x{}, {} and {} eigenvalues, D {}x{} for n = {}", v.r, v.c, re.len(), im.len(), dm.r, dm.c, n);
    ensure!(v.finite() && re.iter().all(|x| x.is_finite()), "not finite: V {:?} eigenvalues {:?}", v, re);
    for i in 0..n {
        ensure!(im[i] == 0.0, "imaginary part {} is {:?} for a symmetric matrix", i, im[i]);
        ensure!(i == 0 || re[i - 1] >= re[i], "eigenvalues not in non-increasing order: {:?}", re);
        for j in 0..n {
            ensure!(dm.at(i, j) == if i == j { re[i] } else { 0.0 }, "D({}, {}) is {:?}; eigenvalues {:?}", i, j, dm.at(i, j), re);
        }
    }
    let c = 32.0 * (n as f64 + 4.0) * F::EPS;
    let oe = orth_err(&v);
    s.stat("orthogonality / bound", oe / c);
    ensure!(oe <= c, "V is not orthogonal: |V'V - I| = {:e}, allowed {:e}; V {:?}", oe, c, v);
    // normalise so that the comparison itself cannot over- or underflow
    let k = exponent(a);
    if !a.is_zero() {
        let an = shifted(a, -k);
        let r = an.mul(&v).sub(&v.mul(&shifted(&dm, -k))).fro();
        // eigenvalues below the normal range are rounded absolutely
        let tol = c * an.fro() + n as f64 * shifted(&D::from(1, 1, |_, _| least::<F>()), -k).at(0, 0);
        s.stat("residual / bound", r / tol);
        ensure!(r <= tol, "|AV - VD| / max|A| = {:e}, allowed {:e}; eigenvalues {:?} V {:?}", r, tol, re, v);
    } else {
        ensure!(re.iter().all(|x| *x == 0.0), "eigenvalues of the zero matrix: {:?}", re);
    }
    s.label_if(k < if F::IS32 { -126 } else { -1022 }, "subnormal");
    s.nontrivial_if(n >= 2 && !a.is_zero());
    Ok(re)
}

fn symmetric<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, if F::IS32 { 10 } else { 14 });
    let mut a = gen::symmetric(s, n, span::<F>());
    if s.chance(1, 8) {
        let k = any_shift::<F>(s, &a);
        a = shifted(&a, k);
        s.label("scaled");
    }
    let a = a.round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_sym::<F>(s, &a).map(|_| ())
}

fn sym_noise<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 8);
    let a = gen::noisy(s, n, n, span::<F>(), if F::IS32 { 148 } else { 1070 }).round::<F>();
    let a = D::from(n, n, |i, j| if i <= j { a.at(i, j) } else { a.at(j, i) });
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_sym::<F>(s, &a).map(|_| ())
}

fn sym_large(s: &mut Src) -> R {
    let n = gen::tail(s, 15, 70, 140);
    let a = gen::symmetric(s, n, span::<f64>());
    s.note(|| format!("{:?}", a));
    check_sym::<f64>(s, &a).map(|_| ())
}

fn sym_known(s: &mut Src) -> R {
    let n = gen::dim(s, 10);
    // integer spectra (repeats likely), exact for permuted diagonals, to rounding otherwise
    let mut lam: Vec<f64> = (0..n).map(|_| s.int(4) as f64).collect();
    let a = match s.below(3) {
        0 => {
            let p = gen::perm(s, n);
            D::from(n, n, |i, j| if i == j { lam[p[i]] } else { 0.0 })
        }
        1 => {
            let q = gen::orth(s, n);
            let a = D::from(n, n, |i, j| (0..n).map(|k| q.at(i, k) * lam[k] * q.at(j, k)).sum());
            D::from(n, n, |i, j| if i <= j { a.at(i, j) } else { a.at(j, i) })
        }
        _ => {
            // symmetrically permuted 2x2 blocks [a b; b c] with integer eigenvalues a+-b (a = c)
            let mut b = D::zero(n, n);
            let mut i = 0;
            while i < n {
                if i + 1 < n {
                    let (x, y) = (s.int(3) as f64, s.int(3) as f64);
                    b.put(i, i, x);
                    b.put(i + 1, i + 1, x);
                    b.put(i, i + 1, y);
                    b.put(i + 1, i, y);
                    lam[i] = x + y;
                    lam[i + 1] = x - y;
                    i += 2;
                } else {
                    b.put(i, i, lam[i]);
                    i += 1;
                }
            }
            let p = gen::perm(s, n);
            D::from(n, n, |i, j| b.at(p[i], p[j]))
        }
    };
    s.note(|| format!("eigenvalues {:?}: {:?}", lam, a));
    let re = check_sym::<f64>(s, &a)?;
    lam.sort_by(|x, y| y.partial_cmp(x).unwrap());
    let tol = 64.0 * (n as f64 + 4.0) * f64::EPSILON * (1.0 + a.fro());
    for i in 0..n {
        ensure!((re[i] - lam[i]).abs() <= tol, "eigenvalues {:?}, expected {:?}", re, lam);
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

pub struct Spectrum {
    pub re: Vec<f64>,
    pub im: Vec<f64>,
}

fn check_gen<F: Fl>(s: &mut Src, a: &D) -> Result<Spectrum, Bad> {
    let n = a.r;
    let d = EigenDecomposition::new(&a.lib::<F>());
    let v = D::of(d.get_v());
    let re: Vec<f64> = d.get_real_eigenvalues().iter().map(|x| x.val()).collect();
    let im: Vec<f64> = d.get_imag_eigenvalues().iter().map(|x| x.val()).collect();
    let dm = D::of(&d.get_d());
    ensure!((v.r, v.c) == (n, n) && re.len() == n && im.len() == n && (dm.r, dm.c) == (n, n), "shapes: V {}x{}, {} and {} eigenvalues, D {}x{} for n = {}", v.r, v.c, re.len(), im.len(), dm.r, dm.c, n);
    ensure!(v.finite() && re.iter().chain(&im).all(|x| x.is_finite()), "not finite: V {:?} eigenvalues {:?} {:?}", v, re, im);
    // pairs
    let mut want = D::zero(n, n);
    let mut i = 0;
    let mut pairs = 0;
    while i < n {
        want.put(i, i, re[i]);
        if im[i] == 0.0 {
            i += 1;
            continue;
        }
        ensure!(im[i] > 0.0 && i + 1 < n && im[i + 1] == -im[i] && re[i + 1] == re[i], "eigenvalue {} is not the first of an adjacent conjugate pair: real {:?} imaginary {:?}", i, re, im);
        want.put(i + 1, i + 1, re[i]);
        want.put(i, i + 1, im[i]);
        want.put(i + 1, i, -im[i]);
        pairs += 1;
        i += 2;
    }
    ensure!(dm == want, "D is {:?} for eigenvalues {:?} {:?}", dm, re, im);
    if a.is_zero() {
        ensure!(re.iter().all(|x| *x == 0.0), "eigenvalues of the zero matrix: {:?}", re);
        return Ok(Spectrum { re, im });
    }
    // compare at ordinary scale; eigenvalues below the normal range are rounded absolutely
    let k = exponent(a);
    let (a0, dm, least) = (shifted(a, -k), shifted(&dm, -k), shifted(&D::from(1, 1, |_, _| least::<F>()), -k).at(0, 0));
    let a = &a0;
    let na = a.fro();
    let (res, ims): (Vec<f64>, Vec<f64>) = (0..n).map(|i| (dm.at(i, i), shifted(&D::from(1, 1, |_, _| im[i]), -k).at(0, 0))).unzip();
    let r = a.mul(&v).sub(&v.mul(&dm));
    let c = 128.0 * (n as f64 + 4.0) * F::EPS + 2.0 * least / na;
    s.label_if(k < if F::IS32 { -126 } else { -1022 }, "subnormal");
    let mut i = 0;
    while i < n {
        let w = if im[i] != 0.0 { 2 } else { 1 };
        let vn = norm(&(i..i + w).flat_map(|j| v.col(j)).collect::<Vec<_>>());
        let rn = norm(&(i..i + w).flat_map(|j| r.col(j)).collect::<Vec<_>>());
        ensure!(vn > 0.0, "eigenvector {} is zero; eigenvalues {:?} {:?}", i, re, im);
        let tol = c * na * vn;
        s.stat(if w == 1 { "real residual / bound" } else { "complex residual / bound" }, rn / tol);
        ensure!(rn <= tol, "|Av - lambda v| = {:e} for eigenvalue {} ({:?} + {:?} i), allowed {:e}; V {:?}", rn, i, re[i], im[i], tol, v);
        i += w;
    }
    // power sums
    let an = a.scale(1.0 / na);
    let mut p = an.clone();
    let mut z: Vec<(f64, f64)> = res.iter().zip(&ims).map(|(x, y)| (x / na, y / na)).collect();
    let base = z.clone();
    for k in 1..=4 {
        let tr: f64 = (0..n).map(|i| p.at(i, i)).sum();
        let su: f64 = z.iter().map(|t| t.0).sum();
        let tol = k as f64 * (32.0 * (n as f64 + 4.0) * F::EPS + 2.0 * n as f64 * least / na);
        s.stat("power sum / bound", (tr - su).abs() / tol);
        ensure!((tr - su).abs() <= tol, "sum of eigenvalues^{} / |A|^{} is {:?}, trace gives {:?} (allowed difference {:e}); eigenvalues {:?} {:?}", k, k, su, tr, tol, re, im);
        p = p.mul(&an);
        for (t, b) in z.iter_mut().zip(&base) {
            *t = (t.0 * b.0 - t.1 * b.1, t.0 * b.1 + t.1 * b.0);
        }
    }
    s.label_if(pairs > 0, "complex pair");
    s.label_if(pairs > 1, "several complex pairs");
    s.label_if(pairs > 0 && 2 * pairs < n, "real and complex");
    s.nontrivial_if(n >= 3 || pairs > 0);
    Ok(Spectrum { re, im })
}

fn general<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, if F::IS32 { 8 } else { 12 });
    let mut a = gen::square(s, n, span::<F>());
    if s.chance(1, 6) {
        // small eigenvalues and imaginary parts stay in the normal range
        let k = any_shift::<F>(s, &a).max(-exponent(&a) - if F::IS32 { 70 } else { 850 });
        a = shifted(&a, k);
        s.label("scaled");
    }
    let a = a.round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_gen::<F>(s, &a).map(|_| ())
}

fn noise<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 8);
    let a = gen::noisy(s, n, n, span::<F>(), if F::IS32 { 12 } else { 60 }).round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_gen::<F>(s, &a).map(|_| ())
}

fn repeated<F: Fl>(s: &mut Src) -> R {
    let a = gen::repeated(s).round::<F>();
    s.note(|| format!("{} {:?}", F::NAME, a));
    check_gen::<F>(s, &a).map(|_| ())
}

fn general_large(s: &mut Src) -> R {
    let n = gen::tail(s, 13, 50, 130);
    let a = gen::square(s, n, span::<f64>());
    s.note(|| format!("{:?}", a));
    check_gen::<f64>(s, &a).map(|_| ())
}

/// Normal matrices Q B Q' with well-separated known eigenvalues: the spectrum itself must come out.
fn known<F: Fl>(s: &mut Src) -> R {
    let n = gen::dim(s, 10);
    let mut b = D::zero(n, n);
    let mut want: Vec<(f64, f64)> = Vec::new();
    let mut i = 0;
    let mut next = -(n as f64);
    while i < n {
        next += 1.0 + s.below(3) as f64;
        if i + 1 < n && s.chance(1, 2) {
            let y = 1.0 + s.below(4) as f64;
            b.put(i, i, next);
            b.put(i + 1, i + 1, next);
            b.put(i, i + 1, y);
            b.put(i + 1, i, -y);
            want.push((next, y));
            want.push((next, -y));
            i += 2;
        } else {
            b.put(i, i, next);
            want.push((next, 0.0));
            i += 1;
        }
    }
    let exact = s.chance(1, 3);
    let a = if exact {
        let p = gen::perm(s, n);
        D::from(n, n, |i, j| b.at(p[i], p[j]))
    } else {
        let q = gen::orth(s, n);
        q.mul(&b).mul(&q.t())
    };
    let a = a.round::<F>();
    s.note(|| format!("{} eigenvalues {:?}: {:?}", F::NAME, want, a));
    let sp = check_gen::<F>(s, &a)?;
    let tol = 128.0 * (n as f64 + 4.0) * F::EPS * (1.0 + a.fro());
    let mut left = want.clone();
    for i in 0..n {
        let k = left.iter().position(|w| (w.0 - sp.re[i]).hypot(w.1 - sp.im[i]) <= tol);
        match k {
            Some(k) => {
                left.swap_remove(k);
            }
            None => return fail(format!("eigenvalue {:?} + {:?} i is not among the expected {:?}; got {:?} {:?}", sp.re[i], sp.im[i], want, sp.re, sp.im)),
        }
    }
    Ok(())
}
