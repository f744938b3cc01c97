//! C12 (Cholesky).

use super::tab::Tab;
use crate::cf::Fl;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::rat::Rat;
use crate::refm::{idet, D};
use la::*;
use num::traits::{One, Zero};

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C12",
        rule: "definiteness is known by construction: rational L L' (exact), rational indefinite and singular L D L', integer matrices judged by Sylvester's minors, Gram matrices plus a shift, spectra with one clearly negative eigenvalue, one-position asymmetries down to one ulp, non-square shapes, scaled over the whole range. Existence must match; the factor, its product and solutions must obey the backward-error bounds (exactly over rationals). Non-trivial: at least 2 rows.",
        groups: vec![
            Group { name: "exact rationals", f: exact, quick: 100000, thorough: 3000000 },
            Group { name: "integers f64", f: integers::<f64>, quick: 200000, thorough: 5000000 },
            Group { name: "integers f32", f: integers::<f32>, quick: 80000, thorough: 2000000 },
            Group { name: "constructed f64", f: constructed::<f64>, quick: 60000, thorough: 1500000 },
            Group { name: "constructed f32", f: constructed::<f32>, quick: 30000, thorough: 600000 },
            Group { name: "asymmetric and non-square", f: asymmetric, quick: 80000, thorough: 2000000 },
        ],
        assumptions: &["float inputs whose smallest eigenvalue is within rounding of zero may be answered either way", "intermediate rationals fit in 120 bits (others are discarded)"],
    }]
}

fn exact(s: &mut Src) -> R {
    let n = s.range(1, 6);
    let frac = s.chance(1, 3);
    let l: Tab<Rat> = Tab::from(n, n, |i, j| {
        if i < j {
            Rat::zero()
        } else if i == j {
            Rat::new(1 + s.below(4) as i128, if frac { 1 + s.below(3) as i128 } else { 1 })
        } else {
            Rat::new(s.int(3) as i128, if frac { 1 + s.below(3) as i128 } else { 1 })
        }
    });
    // the diagonal D of L D L'
    let kind = s.pick(&[3, 1, 1]);
    let at = s.range(0, n - 1);
    let d: Vec<Rat> = (0..n)
        .map(|i| match kind {
            1 if i == at => Rat::zero(),
            2 if i == at => -Rat::one(),
            2 if i > at && s.bool() => -Rat::one(),
            _ => Rat::one(),
        })
        .collect();
    let mut a = Tab::from(n, n, |i, j| {
        let mut z = Rat::zero();
        for k in 0..n {
            z = z + l.at(i, k) * d[k] * l.at(j, k);
        }
        z
    });
    let mut why = ["positive definite", "singular", "indefinite"][kind];
    if n > 1 && s.chance(1, 4) {
        let i = s.range(0, n - 1);
        let mut j = s.range(0, n - 2);
        if j >= i {
            j += 1;
        }
        let v = a.at(i, j) + if s.bool() { Rat::one() } else { Rat::new(-1, 1000) };
        a = Tab::from(n, n, |p, q| if (p, q) == (i, j) { v } else { a.at(p, q) });
        why = "asymmetric";
    }
    s.note(|| format!("{}: {:?}", why, a));
    s.label(why);
    s.nontrivial_if(n >= 2);
    let m = a.lib();
    let c = match CholeskyDecomposition::new(&m) {
        None => {
            ensure!(why != "positive definite", "no decomposition of the positive definite matrix {:?}", a);
            return Ok(());
        }
        Some(c) => c,
    };
    ensure!(why == "positive definite", "a decomposition of the {} matrix {:?} was returned: L {:?}", why, a, c.get_l());
    super::tab::same("L", c.get_l(), &l)?;
    let k = gen::rhs_cols(s);
    let x: Tab<Rat> = Tab::from(n, k, |_, _| Rat::int(s.int(5)));
    let b = Tab::from(n, k, |i, j| {
        let mut z = Rat::zero();
        for q in 0..n {
            z = z + a.at(i, q) * x.at(q, j);
        }
        z
    });
    super::tab::same("the solution", &c.solve(&b.lib()), &x)
}

/// Structure of the factor, product and solution.
fn check<F: Fl>(s: &mut Src, a: &D, c: &CholeskyDecomposition<F>) -> R {
    let n = a.r;
    let l = D::of(c.get_l());
    ensure!((l.r, l.c) == (n, n), "L is {}x{} for n = {}", l.r, l.c, n);
    for i in 0..n {
        for j in 0..n {
            let v = l.at(i, j);
            ensure!(v.is_finite(), "L({}, {}) is {:?}", i, j, v);
            if i == j {
                ensure!(v > 0.0, "L({}, {}) is {:?}, expected positive", i, j, v);
            }
            if i < j {
                ensure!(v == 0.0, "L({}, {}) is {:?}, above the diagonal", i, j, v);
            }
        }
    }
    let g = |i: usize, j: usize| a.at(i, i).sqrt() * a.at(j, j).sqrt();
    let cst = 8.0 * (n as f64 + 3.0) * F::EPS;
    let tiny = gen::underflow::<F>(n, a.max() + l.max());
    let p = l.mul(&l.t());
    for i in 0..n {
        for j in 0..n {
            let e = (p.at(i, j) - a.at(i, j)).abs();
            let tol = cst * g(i, j) + tiny;
            s.stat("factor / bound", e / tol);
            ensure!(e <= tol, "(LL' - A)({}, {}) = {:e}, allowed {:e}; L {:?}", i, j, e, tol, l);
        }
    }
    let k = gen::rhs_cols(s);
    // units that keep X in range
    let unit = if a.max() < if F::IS32 { 1e-18 } else { 1e-150 } { a.max().log2().floor().exp2() } else { 1.0 };
    let b = D::from(n, k, |_, _| s.int(9) as f64 * unit);
    let x = D::of(&c.solve(&b.lib::<F>()));
    ensure!((x.r, x.c) == (n, k), "X is {}x{}, expected {}x{}", x.r, x.c, n, k);
    ensure!(x.finite(), "X is not finite: {:?}", x);
    let ax = a.mul(&x);
    for j in 0..k {
        for i in 0..n {
            let e = (ax.at(i, j) - b.at(i, j)).abs();
            let t: f64 = (0..n).map(|q| g(i, q) * x.at(q, j).abs()).sum();
            let tol = 2.0 * cst * t + 4.0 * F::EPS * b.at(i, j).abs() + tiny;
            s.stat("solve residual / bound", e / tol);
            ensure!(e <= tol, "(AX - B)({}, {}) = {:e}, allowed {:e}; B {:?} X {:?}", i, j, e, tol, b, x);
        }
    }
    Ok(())
}

/// Now and then the whole matrix times a power of two: the answer must not depend on the units.
fn scaled<F: Fl>(s: &mut Src, a: D) -> D {
    if !s.chance(1, 4) {
        return a;
    }
    s.label("scaled");
    if s.bool() {
        let k = 2f64.powi(s.int(if F::IS32 { 40 } else { 300 }) as i32);
        return D::from(a.r, a.c, |i, j| a.at(i, j) * k);
    }
    // anywhere in the range
    let top = a.max();
    let low = (0..a.r.min(a.c)).map(|i| a.at(i, i).abs()).filter(|x| *x > 0.0).fold(top, f64::min);
    if !(top > 0.0) {
        return a;
    }
    let (from, to) = if F::IS32 { (-90, 110) } else { (-930, 960) };
    let e = match s.below(3) {
        0 => from + s.below(10) as i32,
        1 => to - s.below(10) as i32,
        _ => from + s.below((to - from) as u64) as i32,
    };
    let k = (e - top.log2() as i32).max(from - low.log2() as i32).min(to - top.log2() as i32);
    super::svd::shifted(&a, k)
}

fn integers<F: Fl>(s: &mut Src) -> R {
    let n = s.range(1, if F::IS32 { 3 } else { 5 });
    let k = [2, 4][s.below(2) as usize];
    let mut v = vec![0i64; n * n];
    let gram = s.chance(1, 2);
    if gram {
        let r = s.range(1, n + 1);
        let b: Vec<i64> = (0..n * r).map(|_| s.int(2)).collect();
        for i in 0..n {
            for j in 0..n {
                v[i * n + j] = (0..r).map(|q| b[i * r + q] * b[j * r + q]).sum();
            }
        }
        for i in 0..n {
            v[i * n + i] += s.int(1);
        }
    } else {
        for i in 0..n {
            for j in i..n {
                let x = s.int(k) + if i == j { k / 2 } else { 0 };
                v[i * n + j] = x;
                v[j * n + i] = x;
            }
        }
    }
    let a = scaled::<F>(s, D::from(n, n, |i, j| v[i * n + j] as f64));
    s.note(|| format!("{} {:?}", F::NAME, a));
    s.nontrivial_if(n >= 2);
    let minors: Vec<i128> = (1..=n)
        .map(|q| {
            let w: Vec<i64> = (0..q * q).map(|t| v[(t / q) * n + t % q]).collect();
            idet(q, &w).unwrap()
        })
        .collect();
    let pd = minors.iter().all(|m| *m > 0);
    let first = minors.iter().find(|m| **m <= 0).copied().unwrap_or(1);
    let not = minors.iter().any(|m| *m < 0) || (0..n).any(|i| v[i * n + i] <= 0);
    let _ = first;
    match CholeskyDecomposition::new(&a.lib::<F>()) {
        None => {
            s.label("none");
            ensure!(!pd, "no decomposition of the positive definite matrix {:?} (leading minors {:?})", a, minors);
            Ok(())
        }
        Some(c) => {
            ensure!(!not, "a decomposition of {:?} was returned, which is not positive definite (leading minors {:?}): L {:?}", a, minors, c.get_l());
            if !pd {
                s.label("singular, either answer");
                return Ok(());
            }
            s.label("positive definite");
            check::<F>(s, &a, &c)
        }
    }
}

/// Exactly symmetric matrix with the given eigenvalues.
fn with_spectrum(s: &mut Src, lam: &[f64]) -> D {
    let n = lam.len();
    let q = gen::orth(s, n);
    let a = D::from(n, n, |i, j| (0..n).map(|k| q.at(i, k) * lam[k] * q.at(j, k)).sum());
    D::from(n, n, |i, j| if i <= j { a.at(i, j) } else { a.at(j, i) })
}

fn constructed<F: Fl>(s: &mut Src) -> R {
    let big = s.chance(1, 16);
    let n = if big { gen::tail(s, 10, 40, 130) } else { gen::dim(s, 10) };
    let indefinite = s.chance(1, 3);
    let mut lam: Vec<f64> = (0..n).map(|_| 1.0 + s.below(8) as f64).collect();
    let mut a = if indefinite {
        let i = s.range(0, n - 1);
        lam[i] = -(1.0 + s.below(8) as f64) / 2.0;
        with_spectrum(s, &lam)
    } else if s.bool() {
        with_spectrum(s, &lam)
    } else {
        let k = s.range(1, n + 1);
        let g = D::from(n, k, |_, _| s.int(3) as f64);
        let sh = [1.0, 0.5, 4.0][s.below(3) as usize];
        let mut a = g.mul(&g.t());
        for i in 0..n {
            let v = a.at(i, i) + sh;
            a.put(i, i, v);
        }
        a
    };
    // one row nearly a combination of others: the definiteness is that of the matrix before
    if !F::IS32 && n >= 2 && s.chance(1, 4) {
        let r = s.range(0, n - 1);
        let mut t = D::id(n);
        for _ in 0..s.range(1, 3) {
            let j = s.range(0, n - 1);
            t.put(r, j, s.int(2) as f64);
        }
        t.put(r, r, 2f64.powi(-(s.below(13) as i32)));
        let b = t.mul(&a).mul(&t.t());
        a = D::from(n, n, |i, j| if i <= j { b.at(i, j) } else { b.at(j, i) });
        s.label("nearly dependent row");
    }
    // a diagonal congruence by powers of two keeps definiteness and exact symmetry
    if s.chance(1, 3) {
        let far = s.chance(1, 3);
        s.label_if(far, "far apart");
        let w = if F::IS32 { if far { 12 } else { 6 } } else if far { 150 } else { 30 };
        let e: Vec<f64> = (0..n).map(|_| 2f64.powi(s.int(w) as i32)).collect();
        a = D::from(n, n, |i, j| a.at(i, j) * e[i] * e[j]);
        s.label("diagonal congruence");
    }
    let a = scaled::<F>(s, a).round::<F>();
    s.note(|| format!("{} {}: {:?}", F::NAME, if indefinite { "indefinite" } else { "positive definite" }, a));
    s.nontrivial_if(n >= 2);
    match CholeskyDecomposition::new(&a.lib::<F>()) {
        None => {
            ensure!(indefinite, "no decomposition of the positive definite matrix {:?}", a);
            s.label("none");
            Ok(())
        }
        Some(c) => {
            ensure!(!indefinite, "a decomposition of the indefinite matrix {:?} was returned: L {:?}", a, c.get_l());
            s.label("positive definite");
            check::<F>(s, &a, &c)
        }
    }
}

fn asymmetric(s: &mut Src) -> R {
    if s.chance(1, 4) {
        let m = s.range(1, 8);
        let n = s.range(1, 8);
        if m == n {
            return discard();
        }
        let a = if s.bool() { D::from(m, n, |i, j| if i == j { 4.0 } else { 1.0 }) } else { D::from(m, n, |_, _| s.int(3) as f64) };
        s.note(|| format!("{:?}", a));
        s.label("non-square");
        s.nontrivial();
        ensure!(CholeskyDecomposition::new(&a.lib::<f64>()).is_none(), "a Cholesky decomposition of a {}x{} matrix was returned", m, n);
        ensure!(CholeskyDecomposition::new(&a.lib::<f32>()).is_none(), "a Cholesky decomposition of a {}x{} matrix was returned", m, n);
        return Ok(());
    }
    let n = s.range(2, 9);
    let lam: Vec<f64> = (0..n).map(|_| 1.0 + s.below(8) as f64).collect();
    let mut a = with_spectrum(s, &lam);
    let i = s.range(0, n - 1);
    let mut j = s.range(0, n - 2);
    if j >= i {
        j += 1;
    }
    let v = a.at(i, j);
    let w = match s.below(4) {
        0 => v + 1.0,
        1 => -v - 0.5,
        2 => v + 1e-7,
        _ => f64::from_bits(if v == 0.0 { 1 } else { v.to_bits() + 1 }),
    };
    if w == v {
        return discard();
    }
    a.put(i, j, w);
    s.note(|| format!("asymmetric at ({}, {}): {:?}", i, j, a));
    s.label("asymmetric at one position");
    s.nontrivial();
    ensure!(
        CholeskyDecomposition::new(&a.lib::<f64>()).is_none(),
        "a Cholesky decomposition of an asymmetric matrix was returned: elements ({}, {}) = {:?} and ({}, {}) = {:?}",
        i, j, w, j, i, v
    );
    Ok(())
}
