//! C20 (norms, trace), C21 (approximate equality, predicates), C22 (CSV), C23 (printed form),
//! C25 (literals), C26 (random matrices).

use super::tab::{same, shape, shape_labels, Elem, Tab};
use crate::cf::{Coarse, Fl};
use crate::engine::*;
use crate::ensure;
use crate::gen;
use la::{ApproxEq, Matrix};
use std::cell::Cell;
use std::fmt::{Debug, Write as _};
use std::path::PathBuf;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            rule: "a column vector (or matrix, for the Frobenius norm and the trace) with entries of either sign over a wide range of magnitudes and an exponent p are drawn; every norm is compared with its definition, evaluated with scaling so that it cannot overflow, and with the norm axioms. Non-trivial: at least 3 entries, at least one negative and not all of equal magnitude.",
            groups: vec![
                Group { name: "norms f64", f: norms::<f64>, quick: 500_000, thorough: 10_000_000 },
                Group { name: "norms f32", f: norms::<f32>, quick: 400_000, thorough: 8_000_000 },
                Group { name: "small integer vectors", f: norms_int, quick: 300_000, thorough: 5_000_000 },
                Group { name: "axioms f64", f: axioms::<f64>, quick: 400_000, thorough: 8_000_000 },
                Group { name: "axioms f32", f: axioms::<f32>, quick: 300_000, thorough: 6_000_000 },
                Group { name: "Frobenius and trace f64", f: frob::<f64>, quick: 300_000, thorough: 6_000_000 },
                Group { name: "Frobenius and trace f32", f: frob::<f32>, quick: 200_000, thorough: 4_000_000 },
                Group { name: "very large", f: super::big::norms, quick: 100, thorough: 2_000 },
            ],
            assumptions: &["entries are finite and the powers formed stay within the range of the type", "p is finite and at least one"],
        },
        Property {
            id: "C21",
            rule: "two matrices that agree except at chosen positions (or a square matrix that is symmetric except at one chosen pair) are drawn with differences below, at and above the tolerance and non-finite ones; the predicates are compared with their definition. Non-trivial: at least 4 elements and exactly one differing position.",
            groups: vec![
                Group { name: "approximate equality f64", f: approx::<f64>, quick: 500_000, thorough: 10_000_000 },
                Group { name: "approximate equality f32", f: approx::<f32>, quick: 400_000, thorough: 8_000_000 },
                Group { name: "approximate equality, own tolerance", f: approx::<Coarse>, quick: 300_000, thorough: 6_000_000 },
                Group { name: "symmetry f64", f: symmetry::<f64>, quick: 500_000, thorough: 10_000_000 },
                Group { name: "symmetry f32", f: symmetry::<f32>, quick: 300_000, thorough: 6_000_000 },
                Group { name: "symmetry, own tolerance", f: symmetry::<Coarse>, quick: 300_000, thorough: 6_000_000 },
                Group { name: "every position of one shape", f: every_position, quick: 4_000, thorough: 100_000 },
                Group { name: "square predicates", f: squares, quick: 200_000, thorough: 2_000_000 },
                Group { name: "very large", f: super::big::approx, quick: 150, thorough: 2_000 },
                Group { name: "scalars f64", f: scalar::<f64>, quick: 500_000, thorough: 10_000_000 },
                Group { name: "scalars f32", f: scalar::<f32>, quick: 500_000, thorough: 10_000_000 },
            ],
            assumptions: &["whether two equal infinities are approximately equal, and whether a non-finite diagonal element is equal to itself, is left open"],
        },
        Property {
            id: "C22",
            rule: "a table of fields with padding, line endings and a parser are drawn, written to a scratch file and read back; the result is compared element by element with the parser applied to the fields. Invalid files must be refused. Non-trivial: at least 2 rows and 2 columns, or an invalid file with at least 2 lines.",
            groups: vec![
                Group { name: "text fields", f: csv_text, quick: 30_000, thorough: 600_000 },
                Group { name: "numbers", f: csv_numbers, quick: 30_000, thorough: 600_000 },
                Group { name: "large files", f: csv_large, quick: 300, thorough: 6_000 },
                Group { name: "refused files", f: csv_refused, quick: 30_000, thorough: 600_000 },
            ],
            assumptions: &["files are regular files that do not change while they are read", "fields are not quoted: a comma always separates"],
        },
        Property {
            id: "C23",
            rule: "a shape and elements of widely differing printed widths are drawn; the debug text is taken apart and compared with the elements. Non-trivial: at least 2 columns and elements of at least two printed widths.",
            groups: vec![
                Group { name: "i64", f: debug_text::<i64>, quick: 40_000, thorough: 3_000_000 },
                Group { name: "f64", f: debug_text::<f64>, quick: 40_000, thorough: 3_000_000 },
                Group { name: "u8", f: debug_text::<u8>, quick: 40_000, thorough: 2_000_000 },
                Group { name: "bool", f: debug_text::<bool>, quick: 30_000, thorough: 1_000_000 },
                Group { name: "struct", f: debug_text::<(u16, i8, bool)>, quick: 30_000, thorough: 1_000_000 },
                Group { name: "option", f: debug_text::<Opt>, quick: 30_000, thorough: 1_000_000 },
                Group { name: "str", f: debug_text::<&'static str>, quick: 30_000, thorough: 1_000_000 },
                Group { name: "char", f: debug_text::<Letter>, quick: 30_000, thorough: 1_000_000 },
                Group { name: "print", f: print_out, quick: 1_500, thorough: 20_000 },
                Group { name: "read back i64", f: read_back_int, quick: 30_000, thorough: 1_000_000 },
                Group { name: "read back f64", f: read_back_float, quick: 30_000, thorough: 1_000_000 },
            ],
            assumptions: &["an element's own debug form is a single line without the column separator", "width is counted in characters"],
        },
        #[cfg(not(feature = "lits"))]
        Property {
            id: "C25",
            rule: "the literals of the harness are compiled",
            groups: vec![Group { name: "literals compile", f: |_| fail("a valid matrix literal of the harness is rejected by the compiler (see harness/target/build.log)".into()), quick: 1, thorough: 1 }],
            assumptions: &[],
        },
        #[cfg(feature = "lits")]
        Property {
            id: "C25",
            rule: "one of 112 literal shapes (all up to 8x8, long thin ones and some of more than 255 elements) and element values are drawn; the literal's element expressions log their evaluation; the matrix and the log are compared with reading order. Every one of 236 ragged literals must be refused. Non-trivial: at least 2 rows and 2 columns.",
            groups: vec![
                Group { name: "rectangular, logged evaluation", f: lit_log, quick: 300_000, thorough: 4_000_000 },
                Group { name: "element types", f: lit_types, quick: 200_000, thorough: 3_000_000 },
                Group { name: "expressions", f: lit_exprs, quick: 100_000, thorough: 1_000_000 },
                Group { name: "every shape", f: lit_every, quick: 60, thorough: 600 },
                Group { name: "ragged", f: lit_ragged, quick: 100_000, thorough: 1_000_000 },
                Group { name: "every ragged literal", f: lit_every_ragged, quick: 40, thorough: 400 },
            ],
            assumptions: &["literals with no elements at all are outside the domain"],
        },
        Property {
            id: "C26",
            rule: "a shape and an element type are drawn and one or many random matrices are requested; shape, range, distinctness of the draws and the spread at every position are checked. The library's generator cannot be seeded, so these are checks of facts whose failure by chance has probability below 2^-25 per run. Non-trivial: at least 4 elements.",
            groups: vec![
                Group { name: "shape and range", f: rnd_shape, quick: 60_000, thorough: 1_000_000 },
                Group { name: "no repeated draws", f: rnd_distinct, quick: 2_000, thorough: 20_000 },
                Group { name: "spread at every position", f: rnd_spread, quick: 1_500, thorough: 10_000 },
                Group { name: "every bit varies", f: rnd_bits, quick: 1_000, thorough: 5_000 },
                Group { name: "no element copies another", f: rnd_copies, quick: 3_000, thorough: 30_000 },
                Group { name: "many threads", f: rnd_threads, quick: 100, thorough: 1_000 },
                Group { name: "several processes", f: rnd_processes, quick: 60, thorough: 600 },
            ],
            assumptions: &["the thread generator of the rand crate is not seedable through the library; a verdict may depend on chance with probability below 2^-25"],
        },
    ]
}

// ---------------------------------------------------------------- C20

/// Magnitudes m * 2^e, |e| <= w, with zeros and signs.
fn entries<T: Fl>(s: &mut Src, n: usize, w: i64) -> Vec<T> {
    let zero = s.below(4);
    let kind = s.below(4);
    (0..n)
        .map(|_| {
            if zero == 0 && s.chance(1, 3) {
                return T::of(if s.bool() { -0.0 } else { 0.0 });
            }
            let m = match kind {
                0 => 1.0 + s.below(9) as f64,
                1 => 1.0 + s.unit(),
                2 => (1.0 + s.unit()) * 2f64.powi(s.int(w.min(6)) as i32),
                _ => (1.0 + s.unit()) * 2f64.powi(s.int(w) as i32),
            };
            T::of(if s.bool() { -m } else { m })
        })
        .collect()
}

fn vlen(s: &mut Src) -> usize {
    match s.pick(&[60, 25, 10, 5]) {
        0 => s.range(1, 5),
        1 => s.range(1, 12),
        2 => s.range(1, 60),
        _ if s.chance(1, 40) => s.range(400, 5000),
        _ => s.range(1, 400),
    }
}

fn vec_labels<T: Fl>(s: &mut Src, v: &[T]) {
    let neg = v.iter().any(|x| x.val() < 0.0);
    let mixed = v.iter().any(|x| x.val().abs() != v[0].val().abs());
    s.label_if(neg, "negative entries");
    s.label_if(v.iter().all(|x| x.val() == 0.0), "zero vector");
    s.label_if(v.len() > 12, "long");
    s.nontrivial_if(v.len() >= 3 && neg && mixed);
}

/// max, and (sum (|x|/max)^p)^(1/p) * max in f64; ln of the unscaled sum.
fn pnorm<T: Fl>(v: &[T], p: f64) -> (f64, f64) {
    let mx = v.iter().fold(0.0f64, |a, x| a.max(x.val().abs()));
    if mx == 0.0 {
        return (0.0, 0.0);
    }
    let s: f64 = v.iter().map(|x| (x.val().abs() / mx).powf(p)).sum();
    (s.powf(1.0 / p) * mx, p * mx.ln() + s.ln())
}

fn near(what: &str, got: f64, want: f64, rel: f64) -> R {
    ensure!(got >= 0.0, "{} is {:?}, not a non-negative number", what, got);
    ensure!((got - want).abs() <= rel * want, "{} is {:?}, by definition {:?} (relative error {:e}, allowed {:e})", what, got, want, (got - want).abs() / want, rel);
    Ok(())
}

fn norms<T: Fl>(s: &mut Src) -> R {
    let n = vlen(s);
    let eps = T::EPS;
    let c = 8.0 * eps;
    let nf = n as f64;
    // squares
    let w = if T::IS32 { 40 } else { 250 };
    let v: Vec<T> = entries(s, n, w);
    vec_labels(s, &v);
    s.note(|| format!("v = {:?}", v));
    let m = Matrix::vector(v.clone());
    let two = pnorm(&v, 2.0).0;
    near("vector_euclidean_norm", m.vector_euclidean_norm().val(), two, c * (nf + 8.0))?;
    near("vector_2_norm", m.vector_2_norm().val(), two, c * (nf + 8.0))?;
    near("length", m.length().val(), two, c * (nf + 8.0))?;
    near("frobenius_norm of a vector", m.frobenius_norm().val(), two, c * (nf + 8.0))?;
    near("vector_1_norm", m.vector_1_norm().val(), v.iter().map(|x| x.val().abs()).sum(), c * (nf + 2.0))?;
    let inf = v.iter().fold(0.0f64, |a, x| a.max(x.val().abs()));
    ensure!(m.vector_inf_norm().val() == inf, "vector_inf_norm is {:?}, the largest magnitude is {:?}", m.vector_inf_norm(), inf);
    ensure!(same("argument after the norms", &m.map(&|x: &T| x.val().to_bits()), &Tab::from(n, 1, |i, _| v[i].val().to_bits())).is_ok(), "a norm changed its vector");
    // general p
    let p = match s.pick(&[30, 30, 20, 20, 15]) {
        4 => {
            s.label("large p");
            let top = if T::IS32 { 25 } else { 200 };
            (8 + s.below(top - 7)) as f64 - s.below(4) as f64 / 4.0
        }
        0 => 1.0 + s.below(8) as f64,
        1 => 1.0 + s.below(57) as f64 / 8.0,
        3 => {
            // next to an integer
            s.label("nearly integer p");
            let e = 2f64.powi(-(s.range(3, 40) as i32));
            let k = 1.0 + s.below(7) as f64;
            if k > 1.0 && s.bool() { k - e } else { k + e }
        }
        _ => 1.0 + s.unit() * 7.0,
    };
    let p = T::of(p).val();
    s.label_if(p.fract() != 0.0, "fractional p");
    s.label_if(p == 1.0 || p == 2.0, "p of one or two");
    // the sum of powers stays in range
    let w = if p <= 9.0 { if T::IS32 { 10 } else { 60 } } else { (if T::IS32 { 100.0 } else { 800.0 } / p) as i64 - 1 };
    let v: Vec<T> = entries(s, n, w);
    s.note(|| format!("p = {:?}, v = {:?}", p, v));
    let (want, lns) = pnorm(&v, p);
    let lnx = v.iter().filter(|x| x.val() != 0.0).fold(0.0f64, |a, x| a.max(x.val().abs().ln().abs()));
    let m = Matrix::vector(v.clone());
    near("vector_p_norm", m.vector_p_norm(T::of(p)).val(), want, c * (nf + lns.abs() + p * lnx + 8.0))
}

fn norms_int(s: &mut Src) -> R {
    let n = s.range(1, 8);
    let v: Vec<i64> = (0..n).map(|_| s.int(9)).collect();
    let f: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    vec_labels(s, &f);
    s.note(|| format!("v = {:?}", v));
    let m = Matrix::vector(f);
    let one: i64 = v.iter().map(|x| x.abs()).sum();
    let sq: i64 = v.iter().map(|x| x * x).sum();
    let mx: i64 = v.iter().map(|x| x.abs()).max().unwrap();
    ensure!(m.vector_1_norm() == one as f64, "vector_1_norm is {:?}, expected {}", m.vector_1_norm(), one);
    ensure!(m.vector_inf_norm() == mx as f64, "vector_inf_norm is {:?}, expected {}", m.vector_inf_norm(), mx);
    near("vector_2_norm", m.vector_2_norm(), (sq as f64).sqrt(), 1e-14)?;
    for p in 1..7u32 {
        let t: i64 = v.iter().map(|x| x.abs().pow(p)).sum();
        near("vector_p_norm", m.vector_p_norm(p as f64), (t as f64).powf(1.0 / p as f64), 1e-13)?;
    }
    // f32
    let m = Matrix::vector(v.iter().map(|x| *x as f32).collect());
    ensure!(m.vector_1_norm() == one as f32 && m.vector_inf_norm() == mx as f32, "f32: 1-norm {:?}, inf-norm {:?}, expected {} and {}", m.vector_1_norm(), m.vector_inf_norm(), one, mx);
    near("f32 vector_2_norm", m.vector_2_norm() as f64, (sq as f64).sqrt(), 1e-5)?;
    near("f32 vector_p_norm", m.vector_p_norm(3.0) as f64, (v.iter().map(|x| x.abs().pow(3)).sum::<i64>() as f64).cbrt(), 1e-5)
}

fn axioms<T: Fl>(s: &mut Src) -> R {
    let n = vlen(s).min(60);
    let w = if T::IS32 { 9 } else { 50 };
    let a: Vec<T> = entries(s, n, w);
    let b: Vec<T> = match s.below(4) {
        0 => a.iter().map(|x| -*x).collect(),
        1 => a.iter().map(|x| *x + *x).collect(),
        _ => entries(s, n, w),
    };
    vec_labels(s, &a);
    let f = s.int(6) as f64 * 2f64.powi(s.int(4) as i32) * (if s.bool() { 1.25 } else { 1.0 });
    let p = T::of(1.0 + s.below(49) as f64 / 8.0);
    s.note(|| format!("a = {:?}, b = {:?}, factor {}, p {:?}", a, b, f, p));
    let sum: Vec<T> = a.iter().zip(&b).map(|(x, y)| *x + *y).collect();
    let scaled: Vec<T> = a.iter().map(|x| *x * T::of(f)).collect();
    let all = |v: &[T]| -> [f64; 5] {
        let m = Matrix::vector(v.to_vec());
        [m.vector_1_norm().val(), m.vector_2_norm().val(), m.vector_inf_norm().val(), m.vector_p_norm(p).val(), m.frobenius_norm().val()]
    };
    let names = ["1-norm", "2-norm", "inf-norm", "p-norm", "Frobenius norm"];
    let (na, nb, ns, nf) = (all(&a), all(&b), all(&sum), all(&scaled));
    let tol = 64.0 * T::EPS * (n as f64 + p.val() * 60.0 + 8.0);
    for k in 0..5 {
        let zero = a.iter().all(|x| x.val() == 0.0);
        ensure!(na[k] >= 0.0 && (na[k] == 0.0) == zero, "the {} of {} is {:?}", names[k], if zero { "the zero vector" } else { "a non-zero vector" }, na[k]);
        ensure!(ns[k] <= (na[k] + nb[k]) * (1.0 + tol), "triangle inequality of the {}: {:?} > {:?} + {:?}", names[k], ns[k], na[k], nb[k]);
        let want = f.abs() * na[k];
        ensure!((nf[k] - want).abs() <= tol * want, "homogeneity of the {}: {:?} scaled by {} gives {:?}", names[k], na[k], f, nf[k]);
    }
    // ordering of the norms: inf <= p <= 1, 2 <= 1
    ensure!(na[2] <= na[3] * (1.0 + tol) && na[3] <= na[0] * (1.0 + tol), "norms out of order: inf {:?}, p {:?}, one {:?}", na[2], na[3], na[0]);
    ensure!(na[2] <= na[1] * (1.0 + tol) && na[1] <= na[0] * (1.0 + tol), "norms out of order: inf {:?}, two {:?}, one {:?}", na[2], na[1], na[0]);
    // permuting or negating entries changes nothing beyond rounding
    let rev: Vec<T> = a.iter().rev().map(|x| -*x).collect();
    let nr = all(&rev);
    for k in 0..5 {
        ensure!((nr[k] - na[k]).abs() <= tol * na[k], "the {} changes from {:?} to {:?} when the vector is reversed and negated", names[k], na[k], nr[k]);
    }
    Ok(())
}

fn frob<T: Fl>(s: &mut Src) -> R {
    let (r, c) = shape(s);
    shape_labels(s, r, c);
    let w = if T::IS32 { 40 } else { 250 };
    let v: Vec<T> = entries(s, r * c, w);
    let t = Tab::from(r, c, |i, j| v[i * c + j]);
    s.note(|| format!("{:?}", t));
    let m = t.lib();
    let want = pnorm(&v, 2.0).0;
    let n = (r * c) as f64;
    near("frobenius_norm", m.frobenius_norm().val(), want, 8.0 * T::EPS * (n + 8.0))?;
    let d: Vec<f64> = (0..r.min(c)).map(|i| t.at(i, i).val()).collect();
    let (sum, abs): (f64, f64) = d.iter().fold((0.0, 0.0), |a, x| (a.0 + x, a.1 + x.abs()));
    ensure!((m.trace().val() - sum).abs() <= 8.0 * T::EPS * d.len() as f64 * abs, "trace of a {}x{} matrix is {:?}, the diagonal sums to {:?}", r, c, m.trace(), sum);
    // exact on integers
    let t = Tab::from(r, c, |_, _| s.int(9));
    let m = Matrix::new(r, c, t.flat().iter().map(|x| T::of(*x as f64)).collect::<Vec<T>>());
    let tr: i64 = (0..r.min(c)).map(|i| t.at(i, i)).sum();
    s.note(|| format!("integers {:?}", t));
    ensure!(m.trace().val() == tr as f64, "trace of {:?} is {:?}, expected {}", t, m.trace(), tr);
    ensure!(m.t().trace().val() == tr as f64, "trace of the transpose is {:?}, expected {}", m.t().trace(), tr);
    let sq: i64 = t.flat().iter().map(|x| x * x).sum();
    near("frobenius_norm", m.frobenius_norm().val(), (sq as f64).sqrt(), 8.0 * T::EPS * (n + 8.0))
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Copy, PartialEq, Debug)]
enum Diff {
    Close,
    Far,
}

/// A pair of values with a known verdict.
fn pair<T: Fl>(s: &mut Src, base: f64) -> (T, T, Diff, &'static str) {
    let tol = T::approx_epsilon().val();
    let sg = if s.bool() { -1.0 } else { 1.0 };
    match s.pick(&[30, 20, 15, 15, 15, 5, 5, 5, 5, 5, 15]) {
        0 => {
            // clearly different
            let d = tol * (1.5 + s.below(1000) as f64);
            let b = if T::IS32 { s.int(3) as f64 } else { base };
            (T::of(b), T::of(b + sg * d), Diff::Far, "a little too far")
        }
        1 => (T::of(base), T::of(base + sg * (1.0 + s.below(100) as f64)), Diff::Far, "far"),
        2 => {
            // clearly close
            let d = tol * 0.45 * s.unit();
            let b = if T::IS32 { s.int(2) as f64 } else { base };
            (T::of(b), T::of(b + sg * d), Diff::Close, "close")
        }
        3 => (T::of(0.0), T::of(sg) * T::approx_epsilon(), Diff::Far, "exactly the tolerance"),
        4 => {
            // the next value below the tolerance
            let t = T::approx_epsilon();
            let v = if T::IS32 { T::of(f32::from_bits((t.val() as f32).to_bits() - 1) as f64) } else { T::of(f64::from_bits(t.val().to_bits() - 1)) };
            (T::of(0.0), T::of(sg) * v, Diff::Close, "just below the tolerance")
        }
        5 => (T::of(base), T::nan(), Diff::Far, "NaN"),
        6 => (T::nan(), T::nan(), Diff::Far, "both NaN"),
        7 => (T::of(base), T::infinity() * T::of(sg), Diff::Far, "infinity"),
        8 => (T::infinity(), T::neg_infinity(), Diff::Far, "opposite infinities"),
        9 => (T::of(0.0), T::of(-0.0), Diff::Close, "signed zeros"),
        _ => {
            // neighbouring values of any size: their difference is exact, so the verdict is too
            let top = if T::IS32 { 100 } else { 900 };
            let e = if s.bool() { s.int(12) as i32 + if T::IS32 { 4 } else { 33 } } else { s.int(top) as i32 };
            let x = T::of((1.0 + s.below(16) as f64 / 16.0) * 2f64.powi(e)) * T::of(sg);
            let k = 1 + s.below(3);
            let y = if T::IS32 { f32::from_bits((x.val() as f32).to_bits() + k as u32) as f64 } else { f64::from_bits(x.val().to_bits() + k) };
            let y = T::of(y);
            let d = (x - y).abs();
            (x, y, if d < T::approx_epsilon() { Diff::Close } else { Diff::Far }, "neighbouring floats")
        }
    }
}

fn base<T: Fl>(s: &mut Src) -> f64 {
    // values at which the spacing of floats is far below the tolerance, or (f32) integers
    s.int(1000) as f64 / 8.0
}

fn approx<T: Fl>(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let mut a: Tab<T> = Tab::from(r, c, |_, _| T::of(base::<T>(s)));
    let mut b = a.clone();
    let k = match s.pick(&[70, 10, 20]) {
        0 => 1,
        1 => 0,
        _ => s.range(2, 4),
    };
    let mut want = true;
    for _ in 0..k {
        let (i, j) = (s.range(0, r - 1), s.range(0, c - 1));
        let bs = base::<T>(s);
        let (mut x, mut y, d, l) = pair::<T>(s, bs);
        if s.bool() {
            std::mem::swap(&mut x, &mut y);
        }
        s.label(l);
        a.rows[i][j] = x;
        b.rows[i][j] = y;
        let _ = d;
    }
    // verdict from the elements (positions may have been hit twice)
    let tol = T::approx_epsilon();
    for i in 0..r {
        for j in 0..c {
            let d = if a.at(i, j).val() > b.at(i, j).val() { a.at(i, j) - b.at(i, j) } else { b.at(i, j) - a.at(i, j) };
            if !(d.val() < tol.val()) {
                want = false;
            }
        }
    }
    s.note(|| format!("{:?} against {:?}", a, b));
    s.nontrivial_if(r * c >= 4 && k == 1);
    let (ma, mb) = (a.lib(), b.lib());
    ensure!(ma.approx_eq(&mb) == want, "approx_eq is {}, expected {}", !want, want);
    ensure!(mb.approx_eq(&ma) == want, "approx_eq with the operands exchanged is {}, expected {}", !want, want);
    // other shapes are never equal
    let o = match s.below(5) {
        0 => Tab::from(r + 1, c, |i, j| if i < r { a.at(i, j) } else { T::of(0.0) }),
        1 => Tab::from(r, c + 1, |i, j| if j < c { a.at(i, j) } else { T::of(0.0) }),
        2 if r > 1 => Tab::from(r - 1, c, |i, j| a.at(i, j)),
        3 if c > 1 => Tab::from(r, c - 1, |i, j| a.at(i, j)),
        _ if r != c => Tab { r: c, c: r, rows: a.flat().chunks(r).map(|x| x.to_vec()).collect() },
        _ => Tab::from(1, r * c + 1, |_, _| T::of(1.0)),
    };
    let mo = o.lib();
    ensure!(!ma.approx_eq(&mo) && !mo.approx_eq(&ma), "a {}x{} matrix is approximately equal to a {}x{} one", r, c, o.r, o.c);
    Ok(())
}

fn symmetry<T: Fl>(s: &mut Src) -> R {
    let n = match s.pick(&[60, 30, 10]) {
        0 => s.range(1, 5),
        1 => s.range(2, 9),
        _ => gen::tail(s, 2, 40, 140),
    };
    let b: Tab<T> = Tab::from(n, n, |_, _| T::of(base::<T>(s)));
    let mut a = Tab::from(n, n, |i, j| if i <= j { b.at(i, j) } else { b.at(j, i) });
    let mut want = true;
    if n > 1 && s.chance(7, 8) {
        let i = s.range(0, n - 1);
        let mut j = s.range(0, n - 2);
        if j >= i {
            j += 1;
        }
        let bs = base::<T>(s);
        let (x, y, d, l) = pair::<T>(s, bs);
        a.rows[i][j] = x;
        a.rows[j][i] = y;
        want = d == Diff::Close;
        s.label(l);
        s.nontrivial_if(n >= 2);
    }
    s.note(|| format!("{:?}", a));
    let m = a.lib();
    ensure!(m.is_symmetric() == want, "is_symmetric is {}, expected {}", !want, want);
    ensure!(m.is_non_symmetric() != want, "is_non_symmetric is {}, expected {}", want, !want);
    ensure!(m.t().is_symmetric() == want, "is_symmetric of the transpose is {}, expected {}", !want, want);
    // a non-square matrix is never symmetric
    let (r, c) = if s.bool() { (n, n + s.range(1, 3)) } else { (n + s.range(1, 3), n) };
    let w = Tab::from(r, c, |i, j| if i < n && j < n { b.at(i.min(j), i.max(j)) } else { T::of(0.0) });
    ensure!(!w.lib().is_symmetric() && w.lib().is_non_symmetric(), "a {}x{} matrix is called symmetric", r, c);
    Ok(())
}

/// All single positions of one shape: equal everywhere except there.
fn every_position(s: &mut Src) -> R {
    let (r, c) = (s.range(1, 9), s.range(1, 9));
    s.nontrivial_if(r * c >= 4);
    shape_labels(s, r, c);
    let a: Tab<f64> = Tab::from(r, c, |_, _| base::<f64>(s));
    s.note(|| format!("{:?}", a));
    for i in 0..r {
        for j in 0..c {
            for d in [1.0, -1.0, 2e-6, -2e-6, f64::NAN] {
                let mut b = a.clone();
                b.rows[i][j] += d;
                ensure!(!a.lib().approx_eq(&b.lib()), "a difference of {:?} at ({}, {}) is not noticed", d, i, j);
            }
            let mut b = a.clone();
            b.rows[i][j] += 4e-7;
            ensure!(a.lib().approx_eq(&b.lib()), "a difference of 4e-7 at ({}, {}) makes matrices different", i, j);
            if r == c && i != j {
                let y = Tab::from(r, r, |p, q| a.at(p.min(q), p.max(q)));
                ensure!(y.lib().is_symmetric(), "a symmetric matrix is called non-symmetric");
                let mut z = y.clone();
                z.rows[i][j] += 1.0;
                ensure!(!z.lib().is_symmetric(), "an asymmetry at ({}, {}) is not noticed", i, j);
            }
        }
    }
    Ok(())
}

fn squares(s: &mut Src) -> R {
    let (r, c) = if s.bool() { shape(s) } else { let n = s.range(1, 40); (n, n) };
    shape_labels(s, r, c);
    s.note(|| format!("{}x{}", r, c));
    let m: Matrix<u8> = Matrix::new(r, c, vec![1; r * c]);
    ensure!(m.is_square() == (r == c), "is_square of a {}x{} matrix is {}", r, c, m.is_square());
    ensure!(m.is_not_square() == (r != c), "is_not_square of a {}x{} matrix is {}", r, c, m.is_not_square());
    Ok(())
}

fn scalar<T: Fl>(s: &mut Src) -> R {
    let bs = base::<T>(s);
    let (x, y, d, l) = pair::<T>(s, bs);
    s.label(l);
    s.nontrivial();
    s.note(|| format!("{:?} against {:?} ({})", x, y, l));
    let want = d == Diff::Close;
    ensure!(x.approx_eq(&y) == want && y.approx_eq(&x) == want, "{:?} and {:?}: approx_eq is {} / {}, expected {}", x, y, x.approx_eq(&y), y.approx_eq(&x), want);
    let e = T::approx_epsilon();
    ensure!(x.approx_eq_eps(&y, &e) == want && y.approx_eq_eps(&x, &e) == want, "{:?} and {:?}: approx_eq_eps at the own tolerance is {} / {}, expected {}", x, y, x.approx_eq_eps(&y, &e), y.approx_eq_eps(&x, &e), want);
    // a chosen tolerance: values k/64, exact
    let (a, b) = (s.int(640) as f64 / 64.0, s.int(640) as f64 / 64.0);
    let t = match s.below(3) {
        0 => (a - b).abs(),
        1 => s.below(1280) as f64 / 64.0,
        _ => (a - b).abs() + 1.0 / 64.0,
    };
    let want = (a - b).abs() < t;
    let (a, b, t) = (T::of(a), T::of(b), T::of(t));
    ensure!(a.approx_eq_eps(&b, &t) == want && b.approx_eq_eps(&a, &t) == want, "{:?} and {:?} with tolerance {:?}: {} / {}, expected {}", a, b, t, a.approx_eq_eps(&b, &t), b.approx_eq_eps(&a, &t), want);
    ensure!(a.approx_eq(&a) && !a.approx_eq_eps(&a, &T::of(0.0)), "{:?} against itself", a);
    ensure!((T::approx_epsilon().val() - 1e-6).abs() < 1e-12, "the tolerance is {:?}", T::approx_epsilon());
    Ok(())
}

// ---------------------------------------------------------------- C22

thread_local! {
    static FILE: Cell<u64> = const { Cell::new(0) };
}
static NEXT_FILE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

fn scratch_dir() -> PathBuf {
    match std::env::var("LA_PBT_SCRATCH") {
        Ok(d) => PathBuf::from(d),
        Err(_) => std::env::temp_dir().join(format!("la-pbt-scratch-{}", std::process::id())),
    }
}

/// A per-thread scratch file; overwritten by every case.
fn scratch(body: &[u8], odd_name: usize) -> String {
    let k = FILE.with(|f| {
        if f.get() == 0 {
            f.set(NEXT_FILE.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
            let _ = std::fs::create_dir_all(scratch_dir());
        }
        f.get()
    });
    let name = match odd_name {
        0 => format!("t{}.csv", k),
        1 => format!("a b,é {}.csv", k),
        2 => format!("t{}.csv ", k),
        3 => format!(" t{}.csv", k),
        4 => format!("t{}", k),
        5 => format!("t{}.csv\n", k),
        6 => format!("~$HOME%20{}.csv", k),
        7 => format!("\"t{}.csv\"", k),
        8 => format!("-t{}.csv?x=*", k),
        9 => format!("t{}.csv.gz", k),
        10 => format!("T\\t{}.CSV", k),
        11 => format!("./t{}.csv", k),
        _ => format!("/../{}/t{}.csv", scratch_dir().file_name().and_then(|x| x.to_str()).unwrap_or("."), k),
    };
    let p = format!("{}/{}", scratch_dir().to_str().unwrap(), name);
    std::fs::write(&p, body).expect("write scratch file");
    p
}

/// Called at the end of a worker.
pub fn cleanup() {
    if std::env::var("LA_PBT_SCRATCH").is_err() {
        let _ = std::fs::remove_dir_all(scratch_dir());
    }
}

fn fnv(t: &str) -> u64 {
    t.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3))
}

fn pad(s: &mut Src, on: bool) -> &'static str {
    if !on {
        return "";
    }
    ["", " ", "\t", "  ", " \t ", "\u{a0}", "\u{3000}"][s.pick(&[40, 30, 10, 10, 6, 2, 2])]
}

struct Layout {
    padded: bool,
    crlf: u64,
    final_newline: bool,
}
fn layout(s: &mut Src) -> Layout {
    let l = Layout { padded: s.bool(), crlf: s.below(4), final_newline: !s.chance(1, 3) };
    s.label_if(l.padded, "padded fields");
    s.label_if(l.crlf == 1, "CRLF");
    s.label_if(l.crlf == 2, "mixed line endings");
    s.label_if(!l.final_newline, "no final newline");
    l
}

fn write_file(s: &mut Src, lines: &[Vec<String>], l: &Layout) -> String {
    let mut o = String::new();
    for (i, row) in lines.iter().enumerate() {
        for (j, f) in row.iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            let p = pad(s, l.padded);
            o.push_str(p);
            o.push_str(f);
            let p = pad(s, l.padded);
            o.push_str(p);
        }
        if i + 1 < lines.len() || l.final_newline {
            let crlf = l.crlf == 1 || (l.crlf == 2 && s.bool());
            o.push_str(if crlf { "\r\n" } else { "\n" });
        }
    }
    o
}

fn show(body: &str) -> String {
    if body.len() > 300 {
        format!("file of {} bytes", body.len())
    } else {
        format!("file {:?}", body)
    }
}

fn table_shape(s: &mut Src) -> (usize, usize) {
    match s.pick(&[60, 25, 10, 5]) {
        0 => (s.range(1, 5), s.range(1, 5)),
        1 => (s.range(1, 12), s.range(1, 12)),
        2 => {
            if s.bool() {
                (1, s.range(1, 60))
            } else {
                (s.range(1, 60), 1)
            }
        }
        _ => (gen::tail(s, 1, 40, 130), gen::tail(s, 1, 40, 130)),
    }
}

fn csv_text(s: &mut Src) -> R {
    let (r, c) = table_shape(s);
    let l = layout(s);
    let mut cells = vec![];
    for i in 0..r {
        // a blank line is a row of one empty field, except that an unterminated last line must have something in it
        let empty_ok = c > 1 || i + 1 < r || l.final_newline;
        let mut row = vec![];
        for _ in 0..c {
            let k = s.below(8);
            let f = match k {
                0 if empty_ok => String::new(),
                1 => ["a b", "x\ty", "\"q\"", "é", "-", "#", "1;2", "''", "0", "NaN", "|", "\\n", "a\u{2028}b", "日本", ".", "a\rb", "a\u{b}b", "a\u{c}b", "a\u{85}b", "a\0b", "a\u{1c}b", "a\u{2029}b", "\u{feff}", "\u{feff}a", "a\u{feff}", "\u{200b}b"][s.below(26) as usize].to_string(),
                2 => {
                    // any characters that a field can have, at its ends too
                    let f: String = (0..s.range(1, 4))
                        .map(|_| {
                            let x = match s.below(5) {
                                0 => s.below(0x20),
                                1 => 0x20 + s.below(0x60),
                                2 => 0x7f + s.below(0x180),
                                3 => 0x2000 + s.below(0x100),
                                _ => s.below(0x11_0000),
                            };
                            char::from_u32(x as u32).filter(|c| *c != ',' && *c != '\n').unwrap_or('x')
                        })
                        .collect();
                    match f.trim() {
                        "" => "y".to_string(),
                        x => x.to_string(),
                    }
                }
                _ => {
                    let n = if s.chance(1, 200) { s.range(7, 5000) } else { s.range(1, 6) };
                    (0..n).map(|_| if n > 6 && s.chance(1, 50) { 'é' } else { char::from_u32(97 + s.below(26) as u32).unwrap() }).collect()
                }
            };
            row.push(f);
        }
        cells.push(row);
    }
    let body = write_file(s, &cells, &l);
    s.note(|| show(&body));
    s.nontrivial_if(r >= 2 && c >= 2);
    let odd = if s.chance(1, 8) { s.range(1, 12) } else { 0 };
    s.label_if(odd > 0, "unusual file name");
    let path = scratch(body.as_bytes(), odd);
    let m = la::util::read_csv(&path, &fnv);
    same("read_csv", &m, &Tab::from(r, c, |i, j| fnv(&cells[i][j])))?;
    // the parser must see the trimmed field itself
    let bad = Cell::new(false);
    let m = la::util::read_csv(&path, &|t: &str| {
        if t.trim() != t {
            bad.set(true);
        }
        t.len()
    });
    ensure!(!bad.get(), "the parser was given a field with surrounding whitespace");
    same("read_csv", &m, &Tab::from(r, c, |i, j| cells[i][j].len()))
}

impl Elem for u64 {
    fn make(s: &mut Src) -> u64 {
        s.below(1 << 62)
    }
    fn same(&self, o: &u64) -> bool {
        self == o
    }
}
impl Elem for i16 {
    fn make(s: &mut Src) -> i16 {
        s.int(30000) as i16
    }
    fn same(&self, o: &i16) -> bool {
        self == o
    }
}

fn csv_numbers(s: &mut Src) -> R {
    let (r, c) = table_shape(s);
    let l = layout(s);
    s.nontrivial_if(r >= 2 && c >= 2);
    if s.bool() {
        let t: Tab<i64> = Tab::make(s, r, c);
        let cells: Vec<Vec<String>> = t.rows.iter().map(|r| r.iter().map(|x| x.to_string()).collect()).collect();
        let body = write_file(s, &cells, &l);
        s.note(|| show(&body));
        let path = scratch(body.as_bytes(), 0);
        same("read_csv of integers", &la::util::read_csv(&path, &|t: &str| t.parse::<i64>().unwrap()), &t)
    } else {
        let t: Tab<f64> = Tab::make(s, r, c);
        let cells: Vec<Vec<String>> = t.rows.iter().map(|r| r.iter().map(|x| if s.bool() { format!("{:?}", x) } else { format!("{:e}", x) }).collect()).collect();
        let body = write_file(s, &cells, &l);
        s.note(|| show(&body));
        let path = scratch(body.as_bytes(), 0);
        same("read_csv of floats", &la::util::read_csv(&path, &|t: &str| t.parse::<f64>().unwrap()), &t)
    }
}

/// Beyond the reader's 8 KiB buffer, and beyond 16384 elements.
fn csv_large(s: &mut Src) -> R {
    let (r, c) = match s.below(25) {
        // beyond what fits in 16 bits
        24 => {
            let k = s.range(65530, 80000);
            if s.chance(2, 3) {
                (k, 1)
            } else {
                (1, k)
            }
        }
        x => match x / 4 {
        0 => (s.range(1, 3), s.range(2000, 20000)),
        1 => (s.range(2000, 20000), s.range(1, 3)),
        2 => (s.range(100, 200), s.range(80, 200)),
        3 => ([16383, 16384, 16385][s.below(3) as usize], 1),
        4 => (1, [16383, 16384, 16385][s.below(3) as usize]),
        _ => (128, 128 + s.range(0, 1)),
        },
    };
    let l = layout(s);
    let wide = s.chance(1, 4);
    let mut k = s.below(1000);
    let seed = s.below(1 << 30);
    let cells: Vec<Vec<String>> = (0..r)
        .map(|_| {
            (0..c)
                .map(|_| {
                    k = splitmix(&mut { seed.wrapping_add(k) });
                    if wide {
                        format!("{}", k)
                    } else {
                        format!("{}", k % 1000)
                    }
                })
                .collect()
        })
        .collect();
    // padding without one choice per field
    let mut body = String::new();
    for (i, row) in cells.iter().enumerate() {
        body.push_str(&row.join(if l.padded { " , " } else { "," }));
        if i + 1 < r || l.final_newline {
            body.push_str(if l.crlf == 1 || (l.crlf == 2 && i % 3 == 0) { "\r\n" } else { "\n" });
        }
    }
    s.note(|| format!("{}x{}, {}", r, c, show(&body)));
    s.nontrivial_if(r >= 2 && c >= 2);
    s.label_if(r * c > 16384, "more than 16384 fields");
    s.label_if(r > 65536, "more than 65536 lines");
    s.label_if(body.len() > 8192, "longer than 8 KiB");
    s.label_if(body.len() / r > 8192, "lines longer than 8 KiB");
    let path = scratch(body.as_bytes(), 0);
    let m = la::util::read_csv(&path, &|t: &str| t.parse::<u64>().unwrap());
    same("read_csv of a large file", &m, &Tab::from(r, c, |i, j| cells[i][j].parse::<u64>().unwrap()))
}

/// Lines whose lengths differ by much, and by round numbers; sometimes the total is that of a table.
fn csv_far_ragged(s: &mut Src) -> R {
    let d = match s.pick(&[60, 30, 5]) {
        0 => 1usize << s.range(3, 10),
        1 => s.range(1, 1500),
        _ => 1 << 16,
    };
    let c = d + s.range(1, 40);
    let r = if d > 2000 { 2 } else { s.range(2, 5) };
    let mut lens = vec![c; r];
    let i = s.range(0, r - 1);
    let j = (i + s.range(1, r - 1)) % r;
    let k = s.below(3);
    if k != 1 {
        lens[i] += d;
    }
    if k != 0 {
        lens[j] -= d;
    }
    s.label("lengths far apart");
    s.nontrivial();
    s.note(|| format!("lines of {:?} fields", lens));
    let mut body = String::new();
    for n in &lens {
        body.push_str(&"1,".repeat(n - 1));
        body.push_str("1\n");
    }
    let path = scratch(body.as_bytes(), 0);
    match refuses(|| la::util::read_csv(&path, &|_: &str| 1u8)) {
        Ok(()) => Ok(()),
        Err(m) => fail(format!("a file whose lines have {:?} fields is read as a {}x{} matrix", lens, m.rows(), m.cols())),
    }
}

fn csv_refused(s: &mut Src) -> R {
    let l = layout(s);
    if s.chance(1, 40) {
        return csv_far_ragged(s);
    }
    let (r, c) = (s.range(2, 7), s.range(1, 6));
    let mut cells: Vec<Vec<String>> = (0..r).map(|_| (0..c).map(|_| format!("{}", s.int(99))).collect()).collect();
    let kind = s.pick(&[20, 20, 20, 15, 5, 5, 15, 10, 12]);
    let label;
    match kind {
        0 => {
            label = "one line too long";
            let i = s.range(0, r - 1);
            for _ in 0..s.range(1, 6) {
                cells[i].push("7".into());
            }
        }
        1 => {
            label = "one line too short";
            if c == 1 {
                return discard();
            }
            let i = s.range(0, r - 1);
            let k = s.range(1, c - 1);
            cells[i].truncate(k);
        }
        2 => {
            label = "compensating lengths";
            if c == 1 {
                return discard();
            }
            let i = s.range(0, r - 1);
            let mut j = s.range(0, r - 2);
            if j >= i {
                j += 1;
            }
            for _ in 0..s.range(1, c - 1) {
                let f = cells[i].pop().unwrap();
                cells[j].push(f);
            }
        }
        3 => {
            label = "blank line";
            if c == 1 {
                return discard();
            }
            let i = s.range(0, r - 1);
            cells.insert(i, vec![String::new()]);
        }
        4 => {
            s.label("empty file");
            s.note(|| "empty file".into());
            let path = scratch(b"", 0);
            return match refuses(|| la::util::read_csv(&path, &|_: &str| 0u8)) {
                Ok(()) => Ok(()),
                Err(m) => fail(format!("an empty file is read as a {}x{} matrix", m.rows(), m.cols())),
            };
        }
        5 => {
            s.label("missing file");
            s.note(|| "missing file".into());
            let path = scratch(b"1,2\n", 0);
            std::fs::remove_file(&path).unwrap();
            let path = if s.bool() { path } else { scratch_dir().join("no-such-directory").join("x.csv").to_str().unwrap().to_string() };
            return match refuses(|| la::util::read_csv(&path, &|_: &str| 0u8)) {
                Ok(()) => Ok(()),
                Err(m) => fail(format!("a missing file is read as a {}x{} matrix", m.rows(), m.cols())),
            };
        }
        6 => {
            label = "field the parser rejects";
            let (i, j) = (s.range(0, r - 1), s.range(0, c - 1));
            cells[i][j] = ["x", "1.5.2", "--1", "1 2", "1;2", "9e", "\"1\""][s.below(7) as usize].to_string();
        }
        8 => {
            s.label("not UTF-8");
            let mut body = write_file(s, &cells, &l).into_bytes();
            let bad: &[u8] = [&b"\xff"[..], b"\x80", b"\xc3", b"\xe9t\xe9", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf0\x9f\x98"][s.below(7) as usize];
            let at = s.range(0, body.len());
            body.splice(at..at, bad.iter().cloned());
            s.note(|| format!("{:?}", body));
            if std::str::from_utf8(&body).is_ok() {
                return discard();
            }
            s.nontrivial();
            let path = scratch(&body, 0);
            return match refuses(|| la::util::read_csv(&path, &fnv)) {
                Ok(()) => Ok(()),
                Err(m) => fail(format!("a file that is not UTF-8 ({:?}) is read as a {}x{} matrix", body, m.rows(), m.cols())),
            };
        }
        _ => {
            label = "trailing comma on some lines";
            let k = s.range(1, r - 1);
            for row in cells.iter_mut().take(k) {
                row.push(String::new());
            }
        }
    }
    s.label(label);
    let body = write_file(s, &cells, &l);
    s.note(|| format!("{}: {}", label, show(&body)));
    s.nontrivial();
    let path = scratch(body.as_bytes(), 0);
    if kind == 6 {
        return match refuses(|| la::util::read_csv(&path, &|t: &str| t.parse::<i64>().unwrap())) {
            Ok(()) => Ok(()),
            Err(m) => fail(format!("a file with a field that the parser rejects is read as a {}x{} matrix", m.rows(), m.cols())),
        };
    }
    // every field is accepted by this parser: only the lengths can be at fault
    match refuses(|| la::util::read_csv(&path, &fnv)) {
        Ok(()) => Ok(()),
        Err(m) => fail(format!("a file whose lines have {:?} fields is read as a {}x{} matrix", cells.iter().map(|r| r.len()).collect::<Vec<_>>(), m.rows(), m.cols())),
    }
}

// ---------------------------------------------------------------- C23

type Opt = Option<i32>;
impl Elem for Opt {
    fn make(s: &mut Src) -> Opt {
        if s.bool() {
            Some(s.int(100000) as i32)
        } else {
            None
        }
    }
    fn same(&self, o: &Opt) -> bool {
        self == o
    }
}
#[derive(Clone, Copy, PartialEq)]
pub struct Letter(char);
impl Debug for Letter {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl Elem for Letter {
    fn make(s: &mut Src) -> Letter {
        Letter(if s.chance(1, 3) { ['é', 'ß', '\n', '\'', 'λ', '→', '\u{7f}', '"'][s.below(8) as usize] } else { char::from_u32(97 + s.below(26) as u32).unwrap() })
    }
    fn same(&self, o: &Letter) -> bool {
        self == o
    }
}

/// Take the printed form apart into chunks of equal width, one per element.
fn take_apart(text: &str, r: usize, c: usize) -> Result<Vec<Vec<String>>, Bad> {
    let mut it = text.strip_prefix('\n').map_or_else(|| fail(format!("the text does not start with a newline: {:?}", text)), Ok)?;
    ensure!(it.ends_with('\n'), "the last line does not end: {:?}", text);
    it = &it[..it.len() - 1];
    let lines: Vec<&str> = it.split('\n').collect();
    ensure!(lines.len() == r, "{} lines for {} rows: {:?}", lines.len(), r, text);
    let len = lines[0].chars().count();
    let mut out = Vec::new();
    for l in &lines {
        ensure!(l.chars().count() == len, "lines of different lengths: {}", text);
        ensure!(l.starts_with('|') && l.ends_with(" |"), "line {:?} is not of the form \"| elements |\"", l);
        let ch: Vec<char> = l.chars().collect();
        let inner = &ch[1..len - 2];
        ensure!(!inner.is_empty() && inner.len() % c == 0, "line {:?} does not divide into {} equally wide columns", l, c);
        let w = inner.len() / c;
        out.push(inner.chunks(w).map(|x| x.iter().collect()).collect());
    }
    Ok(out)
}

fn debug_text<T: Elem>(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<T> = Tab::make(s, r, c);
    s.note(|| format!("{:?}", t));
    let widths: Vec<usize> = t.flat().iter().map(|x| format!("{:?}", x).chars().count()).collect();
    let mixed = widths.iter().any(|w| *w != widths[0]);
    shape_labels(s, r, c);
    s.label_if(mixed, "mixed widths");
    s.nontrivial_if(c >= 2 && mixed);
    let m = t.lib();
    let text = format!("{:?}", m);
    let parts = take_apart(&text, r, c)?;
    for i in 0..r {
        for j in 0..c {
            let want = format!("{:?}", t.at(i, j));
            let got = &parts[i][j];
            ensure!(got.starts_with(' ') && got.trim_start_matches(' ') == want.trim_start_matches(' ') && got.ends_with(&want), "column {} of line {} is {:?}, expected {:?} aligned to the right after at least one space, in:{}", j, i, got, want, text);
        }
    }
    same("the printed matrix", &m, &t)?;
    ensure!(format!("{:?}", m) == text, "printing twice gives two texts");
    // inside other text and nested values
    let nested = format!("{:?}", Some((1, &m)));
    ensure!(nested.contains(&text), "the text inside another value is different: {:?}", nested);
    let mut w = String::new();
    let _ = write!(w, "{:?}", m);
    ensure!(w == text, "writing into a string gives another text");
    Ok(())
}

/// `print` writes the debug text to standard output: run in a child process.
fn print_out(s: &mut Src) -> R {
    let (r, c) = (s.range(1, 6), s.range(1, 6));
    let t: Tab<i64> = Tab::from(r, c, |_, _| s.int(2000));
    shape_labels(s, r, c);
    s.note(|| format!("{:?}", t));
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["print".to_string(), r.to_string(), c.to_string()])
        .args(t.flat().iter().map(|x| if *x < 0 { format!("n{}", -x) } else { format!("{}", x) }))
        .output();
    let o = match o {
        Ok(o) if o.status.success() => o,
        Ok(o) if o.status.code() == Some(101) => return fail("print panicked".into()),
        _ => return discard(),
    };
    let got = String::from_utf8_lossy(&o.stdout).to_string();
    let want = format!("{:?}", t.lib());
    ensure!(got.trim_end_matches('\n') == want.trim_end_matches('\n') && got.ends_with('\n'), "print writes {:?}, the debug text is {:?}", got, want);
    Ok(())
}

fn read_back_int(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<i64> = Tab::make(s, r, c);
    shape_labels(s, r, c);
    s.note(|| format!("{:?}", t));
    let text = format!("{:?}", t.lib());
    let mut rows = vec![];
    for l in text.lines().skip(1) {
        rows.push(l.trim_matches('|').split_whitespace().map(|x| x.parse::<i64>().map_err(|_| Bad::Fail { msg: format!("{:?} in {:?} is not a number", x, l), sig: String::new() })).collect::<Result<Vec<_>, _>>()?);
    }
    ensure!(rows == t.rows, "reading the text back gives {:?}, not {:?}", rows, t.rows);
    Ok(())
}
fn read_back_float(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<f64> = Tab::make(s, r, c);
    shape_labels(s, r, c);
    s.note(|| format!("{:?}", t));
    let text = format!("{:?}", t.lib());
    let lines: Vec<&str> = text.lines().skip(1).collect();
    ensure!(lines.len() == r, "{} lines for {} rows", lines.len(), r);
    for (i, l) in lines.iter().enumerate() {
        let v: Vec<&str> = l.trim_matches('|').split_whitespace().collect();
        ensure!(v.len() == c, "{} elements in line {:?} of {} columns", v.len(), l, c);
        for j in 0..c {
            let x: f64 = v[j].parse().map_err(|_| Bad::Fail { msg: format!("{:?} is not a number", v[j]), sig: String::new() })?;
            ensure!(x.same(&t.at(i, j)), "element ({}, {}) reads back as {:?}, not {:?}", i, j, x, t.at(i, j));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

#[cfg(feature = "lits")]
mod literals {
    use super::super::lits;
    use super::*;

    fn shape_no(s: &mut Src) -> (usize, usize, usize) {
        let k = s.below(lits::SHAPES.len() as u64) as usize;
        let (r, c) = lits::SHAPES[k];
        shape_labels(s, r, c);
        s.nontrivial_if(r >= 2 && c >= 2);
        (k, r, c)
    }

    fn logged(k: usize, vals: &[i64]) -> R {
        let (r, c) = lits::SHAPES[k];
        let mut n = 0usize;
        let m = lits::rect(k, || {
            let v = vals[n % vals.len()].wrapping_add((n / vals.len()) as i64);
            n += 1;
            v
        });
        ensure!(n == r * c, "a {}x{} literal evaluated {} element expressions", r, c, n);
        same("literal", &m, &Tab::from(r, c, |i, j| vals[(i * c + j) % vals.len()].wrapping_add(((i * c + j) / vals.len()) as i64)))
    }

    pub fn lit_log(s: &mut Src) -> R {
        let (k, r, c) = shape_no(s);
        let v: Vec<i64> = (0..r * c).map(|_| s.int(1000)).collect();
        s.note(|| format!("{}x{} literal of {:?}", r, c, v));
        logged(k, &v)
    }

    pub fn lit_types(s: &mut Src) -> R {
        let (k, r, c) = shape_no(s);
        s.note(|| format!("{}x{} literal", r, c));
        fn one<T: Elem>(s: &mut Src, k: usize, r: usize, c: usize) -> R {
            let t: Tab<T> = Tab::make(s, r, c);
            let v = t.flat();
            let mut n = 0;
            let m = lits::rect(k, || {
                n += 1;
                v[n - 1]
            });
            same("literal", &m, &t)
        }
        match s.below(8) {
            0 => one::<f64>(s, k, r, c),
            1 => one::<f32>(s, k, r, c),
            2 => one::<bool>(s, k, r, c),
            3 => one::<&'static str>(s, k, r, c),
            4 => one::<(u16, i8, bool)>(s, k, r, c),
            5 => one::<[u32; 5]>(s, k, r, c),
            6 => one::<char>(s, k, r, c),
            _ => one::<Option<i32>>(s, k, r, c),
        }
    }

    pub fn lit_every(s: &mut Src) -> R {
        let v: Vec<i64> = (0..7).map(|_| s.int(1000)).collect();
        s.nontrivial();
        s.note(|| format!("all shapes, values {:?}", v));
        for k in 0..lits::SHAPES.len() {
            logged(k, &v)?;
        }
        Ok(())
    }

    fn must_refuse(k: usize) -> R {
        match refuses(|| lits::ragged(k)) {
            Ok(()) => Ok(()),
            Err(m) => fail(format!("the literal with rows of {:?} elements builds a {}x{} matrix {:?}", lits::RAGGED[k], m.rows(), m.cols(), m.get_data())),
        }
    }
    pub fn lit_ragged(s: &mut Src) -> R {
        let k = s.below(lits::RAGGED.len() as u64) as usize;
        let l = lits::RAGGED[k];
        s.note(|| format!("rows of {:?} elements", l));
        s.nontrivial_if(l.len() >= 2 && l.iter().any(|x| *x >= 2));
        s.label_if(l.iter().sum::<usize>() % l.len() == 0, "total divisible by the number of rows");
    
        must_refuse(k)
    }
    pub fn lit_every_ragged(s: &mut Src) -> R {
        let _ = s.bool();
        s.nontrivial();
        for k in 0..lits::RAGGED.len() {
            must_refuse(k)?;
        }
        Ok(())
    }

    fn two(a: i64, b: i64) -> i64 {
        a * 1000 + b
    }
    struct P {
        x: i64,
        y: i64,
    }

    /// Element expressions of every syntactic kind.
    pub fn lit_exprs(s: &mut Src) -> R {
        let (a, b, c) = (s.int(50), s.int(50), s.int(50));
        let q = s.bool();
        s.note(|| format!("a = {}, b = {}, c = {}, q = {}", a, b, c, q));
        s.nontrivial();
        let p = P { x: b, y: c };
        let v = [a, b, c];
        let arr: Tab<i64> = Tab { r: 3, c: 4, rows: vec![vec![-a, a + b * c, two(a, b), if q { a } else { b }], vec![match a { 0 => b, _ => c }, { let t = a; t + 1 }, v[1], (|x: i64| x - b)(c)], vec![p.x - p.y, (a as i32) as i64, a.max(b), *&c]] };
        let m = m!(
            -a, a + b * c, two(a, b), if q { a } else { b };
            match a { 0 => b, _ => c }, { let t = a; t + 1 }, v[1], (|x: i64| x - b)(c);
            p.x - p.y, (a as i32) as i64, a.max(b), *&c
        );
        same("literal of expressions", &m, &arr)?;
        // comparisons, generics, nested macros and literals
        let m = m!(a < b, a == b, !q; q && a > b, matches!(a, 0..=10), [1, 2].contains(&a));
        same("literal of conditions", &m, &Tab { r: 2, c: 3, rows: vec![vec![a < b, a == b, !q], vec![q && a > b, (0..=10).contains(&a), a == 1 || a == 2]] })?;
        let m = m!(m!(a, b; b, c).get(1, 0), Vec::<i64>::new().len() as i64; m!(a).get(0, 0), (a, b).1);
        same("literal of literals", &m, &Tab { r: 2, c: 2, rows: vec![vec![b, 0], vec![a, b]] })?;
        // names the macro itself might use
        let (_rows, _cols, _data, rows, cols) = (a, b, c, a - 1, b - 1);
        let m = m!(_rows, _cols, _data; rows, cols, _rows + _cols);
        same("literal of local names", &m, &Tab { r: 2, c: 3, rows: vec![vec![a, b, c], vec![a - 1, b - 1, a + b]] })?;
        // one row, one column, floats, strings
        let m = m!(1.5, -2.0, 1e300);
        same("row literal", &m, &Tab { r: 1, c: 3, rows: vec![vec![1.5, -2.0, 1e300]] })?;
        let m = m!("a"; "bb"; "");
        same("column literal", &m, &Tab { r: 3, c: 1, rows: vec![vec!["a"], vec!["bb"], vec![""]] })?;
        // effects happen in reading order, each once
        let mut log = Vec::new();
        let m = m!({ log.push(0); a }, { log.push(1); b }; { log.push(2); c }, { log.push(3); a });
        ensure!(log == [0, 1, 2, 3], "element expressions are evaluated in the order {:?}", log);
        same("literal with effects", &m, &Tab { r: 2, c: 2, rows: vec![vec![a, b], vec![c, a]] })?;
        // control flow out of an element expression
        fn early(x: Option<i64>, y: i64) -> Option<Matrix<i64>> {
            Some(m!(y, x?; if y > 40 { return None } else { y }, 1))
        }
        let m = early(Some(a), b);
        ensure!(m.is_some() == (b <= 40) && early(None, b).is_none(), "a literal with ? and return: {:?}", m);
        if let Some(m) = m {
            same("literal with ? and return", &m, &Tab { r: 2, c: 2, rows: vec![vec![b, a], vec![b, 1]] })?;
        }
        let mut made = Vec::new();
        for k in 0..6 {
            made.push(m!(k, if k == a.rem_euclid(6) { break } else { k }, if k % 2 == 0 { continue } else { 0 }));
        }
        let n = a.rem_euclid(6) as usize / 2;
        ensure!(made.len() == n, "a literal with break and continue is completed {} times, not {}", made.len(), n);
        // a place that an earlier element has changed, and a borrow that ends with the element
        let mut z = [a, b];
        let m = m!({ z[0] += 1; z[0] }, z[0], *z.iter().max().unwrap(); { z.swap(0, 1); z[0] }, z[1], z.len() as i64);
        same("literal of changing places", &m, &Tab { r: 2, c: 3, rows: vec![vec![a + 1, a + 1, b.max(a + 1)], vec![b, a + 1, 2]] })?;
        // inference from the context
        let m: Matrix<u8> = m!(1, 2; 3, 255);
        ensure!(m.get(1, 1) == 255 && m.rows() == 2, "a literal of bytes is {:?}", m);
        let m: Matrix<Option<i64>> = m!(None, Some(a); Some(b), None);
        ensure!(m.get_data() == &vec![None, Some(a), Some(b), None], "a literal of options is {:?}", m);
        let m: Matrix<fn(i64, i64) -> i64> = m!(two, i64::max, i64::min);
        ensure!(m.get(0, 0)(a, b) == two(a, b) && m.get(0, 2)(a, b) == a.min(b), "a literal of functions calls others");
        // as an operand and as an argument
        let x = m!(a, b; c, a) + m!(1, 2; 3, 4);
        same("sum of literals", &x, &Tab { r: 2, c: 2, rows: vec![vec![a + 1, b + 2], vec![c + 3, a + 4]] })
    }
    impl Elem for u32 {
        fn make(s: &mut Src) -> u32 {
            s.below(1 << 30) as u32
        }
        fn same(&self, o: &u32) -> bool {
            self == o
        }
    }
}
#[cfg(feature = "lits")]
use literals::*;

// ---------------------------------------------------------------- C26

fn check_shape<T: Copy>(m: &Matrix<T>, r: usize, c: usize) -> R {
    ensure!(m.rows() == r && m.cols() == c && m.get_data().len() == r * c, "random({}, {}) is {}x{} with {} elements", r, c, m.rows(), m.cols(), m.get_data().len());
    Ok(())
}

fn rnd_shape(s: &mut Src) -> R {
    let (r, c) = shape(s);
    shape_labels(s, r, c);
    s.nontrivial_if(r * c >= 4);
    let k = s.below(7);
    s.note(|| format!("{}x{}, type {}", r, c, k));
    match k {
        0 => {
            let m = Matrix::<f64>::random(r, c);
            check_shape(&m, r, c)?;
            for x in m.get_data() {
                ensure!(*x >= 0.0 && *x < 1.0, "element {:?} outside [0, 1)", x);
            }
        }
        1 => {
            let m = Matrix::<f32>::random(r, c);
            check_shape(&m, r, c)?;
            for x in m.get_data() {
                ensure!(*x >= 0.0 && *x < 1.0, "element {:?} outside [0, 1)", x);
            }
        }
        2 => check_shape(&Matrix::<u64>::random(r, c), r, c)?,
        3 => check_shape(&Matrix::<bool>::random(r, c), r, c)?,
        4 => check_shape(&Matrix::<i8>::random(r, c), r, c)?,
        5 => {
            let m = Matrix::<char>::random(r, c);
            check_shape(&m, r, c)?;
            for x in m.get_data() {
                ensure!(char::from_u32(*x as u32).is_some(), "an element is not a character");
            }
        }
        _ => {
            let m = Matrix::<(u32, f64)>::random(r, c);
            check_shape(&m, r, c)?;
            for x in m.get_data() {
                ensure!(x.1 >= 0.0 && x.1 < 1.0, "element {:?} outside [0, 1)", x);
            }
        }
    }
    Ok(())
}

/// u64 draws: at most 4096 per case, so a repeat has probability below 2^-41 per case.
fn rnd_distinct(s: &mut Src) -> R {
    let (r, c) = if s.chance(1, 30) { (s.range(20, 160), s.range(20, 160)) } else { loop_shape(s) };
    let calls = s.range(1, (4096 / (r * c)).clamp(1, 40));
    s.note(|| format!("{} calls of random({}, {})", calls, r, c));
    s.nontrivial_if(r * c >= 4);
    s.label_if(calls > 1, "several calls");
    let mut seen = std::collections::HashMap::new();
    for k in 0..calls {
        let m = Matrix::<u64>::random(r, c);
        for i in 0..r {
            for j in 0..c {
                if let Some(o) = seen.insert(m.get(i, j), (k, i, j)) {
                    return fail(format!("the same 64-bit draw at (call, row, column) {:?} and {:?}", o, (k, i, j)));
                }
            }
        }
    }
    if r * c >= 8 {
        // floats: 53 or 24 random bits; equal neighbours everywhere are impossible by chance
        let m = Matrix::<f64>::random(r, c);
        let d = m.get_data();
        let eq = d.windows(2).filter(|w| w[0] == w[1]).count();
        ensure!(eq < 4, "{} of {} neighbouring f64 elements are equal", eq, d.len() - 1);
        let m = Matrix::<f32>::random(r, c);
        let d = m.get_data();
        let eq = d.windows(2).filter(|w| w[0] == w[1]).count();
        ensure!(eq < 5, "{} of {} neighbouring f32 elements are equal", eq, d.len() - 1);
    }
    Ok(())
}

fn loop_shape(s: &mut Src) -> (usize, usize) {
    match s.below(4) {
        0 => (s.range(1, 6), s.range(1, 6)),
        1 => (gen::tail(s, 1, 60, 1200), s.range(1, 3)),
        2 => (s.range(1, 3), gen::tail(s, 1, 60, 1200)),
        _ => (gen::tail(s, 1, 24, 60), gen::tail(s, 1, 24, 150)),
    }
}

/// Over n calls every position sees a value below 1/2 and one at or above it, apart from a chance
/// of 2^(1-n) per position.
fn rnd_spread(s: &mut Src) -> R {
    let (r, c) = loop_shape(s);
    let n = 72;
    s.note(|| format!("{} calls of random({}, {})", n, r, c));
    s.nontrivial_if(r * c >= 4);
    let is32 = s.bool();
    let mut lo = vec![false; r * c];
    let mut hi = vec![false; r * c];
    let mut eqn = vec![0usize; r * c];
    for _ in 0..n {
        let d: Vec<f64> = if is32 { Matrix::<f32>::random(r, c).get_data().iter().map(|x| *x as f64).collect() } else { Matrix::<f64>::random(r, c).get_data().clone() };
        for k in 0..r * c {
            if d[k] < 0.5 {
                lo[k] = true;
            } else {
                hi[k] = true;
            }
            if d[k] < d[(k + 1) % (r * c)] {
                eqn[k] += 1;
            }
        }
    }
    for k in 0..r * c {
        ensure!(lo[k] && hi[k], "element ({}, {}) is {} one half in {} calls", k / c, k % c, if lo[k] { "below" } else { "at least" }, n);
        // neighbours are independent: each order occurs
        ensure!(r * c == 1 || (eqn[k] > 0 && eqn[k] < n), "element ({}, {}) is always on the same side of the next one in {} calls", k / c, k % c, n);
    }
    Ok(())
}

/// The draws at a position over the calls, at least 128 bits of them, are no other position's.
fn copies<T: Copy>(s: &mut Src, name: &'static str, random: fn(usize, usize) -> Matrix<T>, bits: usize, word: fn(T) -> u64) -> R {
    let (r, c) = loop_shape(s);
    let n = 128 / bits + s.range(0, 3);
    s.note(|| format!("{} calls of random::<{}>({}, {})", n, name, r, c));
    s.label(name);
    s.nontrivial_if(r * c >= 4);
    let mut at = vec![Vec::with_capacity(n); r * c];
    let mut whole = std::collections::HashMap::new();
    for k in 0..n {
        let m = random(r, c);
        check_shape(&m, r, c)?;
        let w: Vec<u64> = m.get_data().iter().map(|&x| word(x)).collect();
        for (a, x) in at.iter_mut().zip(&w) {
            a.push(*x);
        }
        if r * c * bits >= 128 {
            if let Some(o) = whole.insert(w, k) {
                return fail(format!("calls {} and {} of random::<{}>({}, {}) return the same matrix", o, k, name, r, c));
            }
        }
    }
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut seen = std::collections::HashMap::new();
    for (k, a) in at.into_iter().enumerate() {
        let not: Vec<u64> = a.iter().map(|x| !x & mask).collect();
        ensure!(a.iter().any(|x| *x != a[0]), "element ({}, {}) is the same in {} calls", k / c, k % c, n);
        if let Some(o) = seen.get(&not) {
            let o: usize = *o;
            return fail(format!("elements ({}, {}) and ({}, {}) are complements in {} calls", o / c, o % c, k / c, k % c, n));
        }
        if let Some(o) = seen.insert(a, k) {
            return fail(format!("elements ({}, {}) and ({}, {}) are the same in {} calls", o / c, o % c, k / c, k % c, n));
        }
    }
    Ok(())
}

fn rnd_copies(s: &mut Src) -> R {
    match s.below(9) {
        0 => copies::<u8>(s, "u8", Matrix::<u8>::random, 8, |x| x as u64),
        1 => copies::<i8>(s, "i8", Matrix::<i8>::random, 8, |x| x as u8 as u64),
        2 => copies::<u16>(s, "u16", Matrix::<u16>::random, 16, |x| x as u64),
        3 => copies::<u32>(s, "u32", Matrix::<u32>::random, 32, |x| x as u64),
        4 => copies::<bool>(s, "bool", Matrix::<bool>::random, 1, |x| x as u64),
        5 => copies::<f32>(s, "f32", Matrix::<f32>::random, 20, |x| (x as f64 * (1 << 20) as f64) as u64),
        6 => copies::<f64>(s, "f64", Matrix::<f64>::random, 50, |x| (x * (1u64 << 50) as f64) as u64),
        7 => copies::<(u8, bool)>(s, "(u8, bool)", Matrix::<(u8, bool)>::random, 9, |x| x.0 as u64 * 2 + x.1 as u64),
        _ => copies::<i16>(s, "i16", Matrix::<i16>::random, 16, |x| x as u16 as u64),
    }
}

fn rnd_bits(s: &mut Src) -> R {
    let (r, c) = (s.range(1, 6), s.range(1, 6));
    let n = 90;
    s.note(|| format!("{} calls of random({}, {})", n, r, c));
    s.nontrivial_if(r * c >= 4);
    let mut or = vec![0u64; r * c];
    let mut and = vec![u64::MAX; r * c];
    let mut xor = vec![0u64; r * c];
    let mut same = vec![u64::MAX; r * c];
    for _ in 0..n {
        let m = Matrix::<u64>::random(r, c);
        let d = m.get_data();
        for k in 0..r * c {
            or[k] |= d[k];
            and[k] &= d[k];
            let y = d[k] ^ d[(k + 1) % (r * c)];
            xor[k] |= y;
            same[k] &= y;
        }
    }
    for k in 0..r * c {
        ensure!(or[k] == u64::MAX && and[k] == 0, "bits {:x} of element {} never change in {} calls", !or[k] | and[k], k, n);
        ensure!(r * c == 1 || (xor[k] == u64::MAX && same[k] == 0), "bits of elements {} and {} always move together in {} calls", k, (k + 1) % (r * c), n);
    }
    Ok(())
}

/// Threads draw independently: no repeats across threads.
/// The sub-command of `rnd_processes`: draws printed by a process of their own.
pub fn draws(args: &[String]) {
    let n: Vec<usize> = args.iter().filter_map(|x| x.parse().ok()).collect();
    if n.len() < 2 {
        return;
    }
    let v: Vec<String> = Matrix::<u64>::random(n[0], n[1]).get_data().iter().map(|x| x.to_string()).collect();
    println!("{}", v.join(" "));
}

/// Several processes, started together, draw different elements.
fn rnd_processes(s: &mut Src) -> R {
    let (r, c) = (s.range(1, 6), s.range(1, 6));
    let k = s.range(2, 4);
    s.note(|| format!("{} processes calling random({}, {})", k, r, c));
    s.nontrivial_if(r * c >= 4);
    let exe = std::env::current_exe().map_err(|_| Bad::Discard)?;
    let run = || std::process::Command::new(&exe).arg("draws").arg(r.to_string()).arg(c.to_string()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn();
    let kids: Vec<_> = (0..k).map(|_| run()).collect();
    let mut seen = std::collections::HashSet::new();
    for x in Matrix::<u64>::random(r, c).get_data() {
        seen.insert(*x);
    }
    let mut off = false;
    for kid in kids {
        let out = match kid.and_then(|k| k.wait_with_output()) {
            Ok(o) if o.status.success() => o,
            _ => {
                off = true;
                continue;
            }
        };
        let v: Vec<u64> = String::from_utf8_lossy(&out.stdout).split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if v.len() != r * c {
            off = true;
            continue;
        }
        for x in v {
            ensure!(seen.insert(x), "two processes drew the same 64-bit value {:x}", x);
        }
    }
    if off {
        return discard();
    }
    Ok(())
}

fn rnd_threads(s: &mut Src) -> R {
    let (r, c) = (s.range(1, 8), s.range(1, 8));
    let k = s.range(2, 4);
    s.note(|| format!("{} threads of random({}, {})", k, r, c));
    s.nontrivial_if(r * c >= 4);
    let hs: Vec<_> = (0..k).map(|_| std::thread::spawn(move || Matrix::<u64>::random(r, c))).collect();
    let mut seen = std::collections::HashSet::new();
    for h in hs {
        let m = h.join().map_err(|_| Bad::Fail { msg: "random panicked in a thread".into(), sig: String::new() })?;
        check_shape(&m, r, c)?;
        for x in m.get_data() {
            ensure!(seen.insert(*x), "two threads drew the same 64-bit value {:x}", x);
        }
    }
    Ok(())
}
