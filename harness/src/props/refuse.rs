//! C05: ill-shaped or out-of-range requests are refused and change nothing.

use super::tab::{shape, Tab};
use crate::engine::*;
use crate::rat::Zp;
use la::*;

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C05",
        rule: "a shape and a request that does not fit it are drawn (bounds exceeded by one, by a lot, swapped between rows and columns, equal element counts with other shapes); the call must panic (Cholesky: return None) and an in-place receiver must be unchanged. Non-trivial: the matrix is not square or has at least 4 elements.",
        groups: vec![
            Group { name: "construction", f: construction, quick: 20000, thorough: 400000 },
            Group { name: "element access", f: access, quick: 60000, thorough: 1500000 },
            Group { name: "shape mismatch", f: mismatch, quick: 60000, thorough: 1500000 },
            Group { name: "selection", f: selection, quick: 60000, thorough: 1500000 },
            Group { name: "blocks, exhaustive bounds", f: all_blocks, quick: 400, thorough: 8000 },
            Group { name: "square-only and right-hand sides f64", f: numeric::<f64>, quick: 40000, thorough: 1000000 },
            Group { name: "square-only and right-hand sides f32", f: numeric::<f32>, quick: 10000, thorough: 300000 },
        ],
        assumptions: &["panics unwind (the default); the refusal is observed by catching the panic"],
    }]
}

fn must<T: std::fmt::Debug>(what: String, f: impl FnOnce() -> T) -> R {
    match refuses(f) {
        Ok(()) => Ok(()),
        Err(v) => {
            let mut t = format!("{:?}", v);
            t.truncate(300);
            fail(format!("{} was not refused; it returned {}", what, t))
        }
    }
}

/// An index that is out of range for `n`: just past the end, below some other bound, or far away.
fn past(s: &mut Src, n: usize, other: usize) -> usize {
    let far = match s.pick(&[40, 20, 20, 10, 5, 5, 6, 6, 3]) {
        // offsets that wrap around the address space onto an element
        6 => (usize::MAX / other.max(1)).wrapping_add(1 + s.range(0, n + 1)),
        7 => 0usize.wrapping_sub(other.max(1) * s.range(0, 4)).wrapping_sub(n * s.range(0, 4)).wrapping_add(s.range(0, n)),
        8 => usize::MAX - s.range(0, 2),
        0 => n,
        1 => n + s.range(0, 5),
        2 => n.max(other.saturating_sub(1)),
        3 => n * other.max(1) + s.range(0, 2),
        4 => usize::MAX / 2,
        _ => 1 << 40,
    };
    far.max(n)
}

fn zeros(r: usize, c: usize) -> Vec<Zp> {
    (0..r * c).map(|i| Zp::of(i as i64 + 1)).collect()
}
fn table(r: usize, c: usize) -> Matrix<Zp> {
    Matrix::new(r, c, zeros(r, c))
}

/// (n, rows, cols) with rows * cols = n + a multiple of 2^64.
fn wrapping_shape(s: &mut Src, n: usize) -> (usize, usize, usize) {
    let (n, a, b) = if s.chance(1, 3) {
        let k = s.range(1, 63);
        (0, 1usize << k, 1usize << (64 - k))
    } else {
        let b = 2 * s.range(1, 20) + 1;
        // Newton's iteration for the inverse of an odd number
        let mut inv = b;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2usize.wrapping_sub(b.wrapping_mul(inv)));
        }
        (n, n.wrapping_mul(inv), b)
    };
    // n a multiple of b gives no overflow
    let (n, a, b) = if a.checked_mul(b).is_some() { (0, 1 << 63, 2) } else { (n, a, b) };
    if s.bool() {
        (n, a, b)
    } else {
        (n, b, a)
    }
}

fn construction(s: &mut Src) -> R {
    let (r, c) = shape(s);
    s.nontrivial_if(r * c >= 4 || r != c);
    let op = s.below(9);
    s.note(|| format!("construction request {} near {}x{}", op, r, c));
    match op {
        0 => {
            let n = r * c;
            let k = match s.below(4) {
                0 => n + 1,
                1 => n - 1,
                2 => n + s.range(1, 40),
                _ => s.range(0, n.max(1) * 2),
            };
            if k == n {
                return discard();
            }
            must(format!("new({}, {}, {} elements)", r, c, k), || Matrix::new(r, c, vec![Zp(1); k]))
        }
        8 => {
            // the number of elements wraps around the address space
            let (n, a, b) = wrapping_shape(s, r * c);
            match s.below(4) {
                0 | 1 => must(format!("new({}, {}, {} elements)", a, b, n), || Matrix::new(a, b, vec![Zp(1); n])),
                2 => must(format!("zero({}, {})", a, b), || Matrix::<Zp>::zero(a, b)),
                _ => must(format!("random({}, {})", a, b), || Matrix::<f64>::random(a, b)),
            }
        }
        1 => must("new(0, n, [])".into(), || Matrix::new(0, c, Vec::<Zp>::new())),
        2 => must("new(n, 0, [])".into(), || Matrix::new(r, 0, Vec::<Zp>::new())),
        3 => must("vector([])".into(), || Matrix::vector(Vec::<Zp>::new())),
        4 => must("row_vector([])".into(), || Matrix::row_vector(Vec::<Zp>::new())),
        5 => must("diag([])".into(), || Matrix::diag(Vec::<Zp>::new())),
        6 => {
            let n = r.min(c);
            let k = if s.bool() { n + s.range(1, 5) } else { s.range(0, n - 1) };
            must(format!("block_diag({}, {}, {} elements)", r, c, k), || Matrix::block_diag(r, c, vec![Zp(1); k]))
        }
        _ => {
            // as many diagonal elements as the longer side has
            if r == c {
                return discard();
            }
            let k = r.max(c);
            must(format!("block_diag({}, {}, {} elements)", r, c, k), || Matrix::block_diag(r, c, vec![Zp(1); k]))
        }
    }
}

fn access(s: &mut Src) -> R {
    let (r, c) = shape(s);
    s.nontrivial_if(r * c >= 4 || r != c);
    let mut m = table(r, c);
    let keep = m.clone();
    // at least one index out of range
    let (i, j) = match s.below(3) {
        0 => (past(s, r, c), s.range(0, c - 1)),
        1 => (s.range(0, r - 1), past(s, c, r)),
        _ => (past(s, r, c), past(s, c, r)),
    };
    let w = format!("({}, {}) of a {}x{} matrix", i, j, r, c);
    let op = s.below(7);
    s.note(|| format!("access request {} {}", op, w));
    match op {
        0 => must(format!("get{}", w), || m.get(i, j))?,
        1 => must(format!("get_ref{}", w), || *m.get_ref(i, j))?,
        2 => must(format!("get_mref{}", w), || *m.get_mref(i, j))?,
        3 => must(format!("set{}", w), || m.set(i, j, Zp(7)))?,
        4 => must(format!("index {}", w), || m[(i, j)])?,
        5 => must(format!("write through get_mref{}", w), || *m.get_mref(i, j) = Zp(9))?,
        _ => {
            let k = if s.bool() { c + s.range(1, 3) } else { s.range(0, c - 1) };
            must(format!("reduce with {} initial values on {} columns", k, c), || m.reduce(&vec![Zp(0); k], &|a: &Zp, b: &Zp| *a + *b))?
        }
    }
    if m != keep {
        return fail(format!("the matrix changed although the request {} was refused", w));
    }
    Ok(())
}

/// A shape different from (r, c): transposed, same element count, one row/column more, ...
fn other_shape(s: &mut Src, r: usize, c: usize) -> (usize, usize) {
    match s.below(6) {
        0 => (c, r),
        1 => (r + 1, c),
        2 => (r, c + 1),
        3 => {
            let divs: Vec<usize> = (1..=r * c).filter(|d| r * c % d == 0).collect();
            let d = divs[s.range(0, divs.len() - 1)];
            (d, r * c / d)
        }
        4 => (s.range(1, r + 3), c),
        _ => (s.range(1, r + 3), s.range(1, c + 3)),
    }
}

fn mismatch(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let (r2, c2) = other_shape(s, r, c);
    s.nontrivial_if(r * c >= 4 || r != c);
    s.label_if(r * c == r2 * c2, "same element count");
    let m = table(r, c);
    let n = table(r2, c2);
    let same = (r, c) == (r2, c2);
    let op = s.below(20);
    s.note(|| format!("mismatch request {}: {}x{} with {}x{}", op, r, c, r2, c2));
    let w = |o: &str| format!("{}x{} {} {}x{}", r, c, o, r2, c2);
    let inplace = |o: &str, f: &dyn Fn(&mut Matrix<Zp>, &Matrix<Zp>)| -> R {
        let mut x = m.clone();
        must(w(o), || f(&mut x, &n))?;
        if x != m {
            return fail(format!("{} was refused but changed its receiver", w(o)));
        }
        Ok(())
    };
    match op {
        0..=11 if same => discard(),
        0 => must(w("+"), || &m + &n),
        1 => must(w("+"), || m.clone() + n.clone()),
        2 => must(w("+"), || if s.bool() { m.clone() + &n } else { &m + n.clone() }),
        3 => must(w("-"), || &m - &n),
        4 => must(w("-"), || m.clone() - n.clone()),
        5 => must(w("-"), || if s.bool() { m.clone() - &n } else { &m - n.clone() }),
        6 => must(w("elem_mul"), || m.elem_mul(&n)),
        7 => must(w("elem_div"), || m.elem_div(&n)),
        8 => inplace("madd", &|x, y| x.madd(y)),
        9 => inplace("msub", &|x, y| x.msub(y)),
        10 => inplace("melem_mul", &|x, y| x.melem_mul(y)),
        11 => inplace("melem_div", &|x, y| x.melem_div(y)),
        12..=16 if c == r2 => discard(),
        12 => must(w("*"), || &m * &n),
        13 => must(w("*"), || m.clone() * n.clone()),
        14 => must(w("*"), || if s.bool() { m.clone() * &n } else { &m * n.clone() }),
        15 | 16 => inplace("mmul", &|x, y| x.mmul(y)),
        17 if r != r2 => must(w("cr"), || m.cr(&n)),
        18 if r != r2 => must(w("|"), || m.clone() | &n),
        19 if c != c2 => must(w("cb"), || m.cb(&n)),
        _ => discard(),
    }
}

fn selection(s: &mut Src) -> R {
    let (r, c) = shape(s);
    s.nontrivial_if(r * c >= 4 || r != c);
    let m = table(r, c);
    let op = s.below(9);
    s.note(|| format!("selection request {} on {}x{}", op, r, c));
    match op {
        0 => {
            let (i, j) = if s.bool() { (past(s, r, c), s.range(0, c - 1)) } else { (s.range(0, r - 1), past(s, c, r)) };
            must(format!("minor({}, {}) of {}x{}", i, j, r, c), || m.minor(i, j))
        }
        1 => {
            let n = s.range(1, 9);
            let (r, c) = if s.bool() { (1, n) } else { (n, 1) };
            let (i, j) = (s.range(0, r - 1), s.range(0, c - 1));
            must(format!("minor({}, {}) of {}x{}", i, j, r, c), || table(r, c).minor(i, j))
        }
        2 | 3 => {
            // a block with exactly one bound wrong
            let r0 = s.range(0, r - 1);
            let c0 = s.range(0, c - 1);
            let (r1, c1) = (s.range(r0 + 1, r), s.range(c0 + 1, c));
            let (mut a, mut b, mut e, mut f) = (r0, c0, r1, c1);
            match s.below(7) {
                0 => e = r + s.range(1, 3),
                1 => f = c + s.range(1, 3),
                6 => {
                    // bounds near the top of the address space, with the size kept
                    let k = past(s, r, c).min(usize::MAX - r);
                    a += k - r0;
                    e = a + (r1 - r0);
                }
                2 => {
                    a = r0 + 1;
                    e = a - s.range(0, 1);
                }
                3 => {
                    b = c0 + 1;
                    f = b - s.range(0, 1);
                }
                4 => {
                    // the block is shifted past the edge, keeping its size
                    let k = (r - r1) + s.range(1, 3);
                    a += k;
                    e += k;
                }
                _ => {
                    let k = (c - c1) + s.range(1, 3);
                    b += k;
                    f += k;
                }
            }
            must(format!("sub_matrix({}, {}, {}, {}) of {}x{}", a, b, e, f, r, c), || m.sub_matrix(a, b, e, f))
        }
        4 => {
            let j = past(s, c, r);
            must(format!("get_column({}) of {}x{}", j, r, c), || m.get_column(j))
        }
        5 => {
            let mut p: Vec<usize> = (0..s.range(1, r + 2)).map(|_| s.range(0, r - 1)).collect();
            let k = s.range(0, p.len() - 1);
            p[k] = past(s, r, c);
            must(format!("permute_rows({:?}) of {}x{}", p, r, c), || m.permute_rows(&p))
        }
        6 => {
            let mut p: Vec<usize> = (0..s.range(1, c + 2)).map(|_| s.range(0, c - 1)).collect();
            let k = s.range(0, p.len() - 1);
            p[k] = past(s, c, r);
            must(format!("permute_columns({:?}) of {}x{}", p, r, c), || m.permute_columns(&p))
        }
        7 => {
            let n = if s.bool() { r + s.range(1, 3) } else { s.range(0, r - 1) };
            // at least one row stays selected
            let sel: Vec<bool> = (0..n).map(|i| i == 0 || s.bool()).collect();
            must(format!("select_rows with {} flags on {}x{}", n, r, c), || m.select_rows(&sel))
        }
        _ => {
            let n = if s.bool() { c + s.range(1, 3) } else { s.range(0, c - 1) };
            let sel: Vec<bool> = (0..n).map(|i| i == 0 || s.bool()).collect();
            must(format!("select_columns with {} flags on {}x{}", n, r, c), || m.select_columns(&sel))
        }
    }
}

/// Every block request with bounds up to one past the edges of a small matrix.
fn all_blocks(s: &mut Src) -> R {
    let (r, c) = (s.range(1, 6), s.range(1, 6));
    let m = table(r, c);
    s.nontrivial_if(r != c);
    s.note(|| format!("every ill-formed block of {}x{}", r, c));
    for r0 in 0..r + 2 {
        for r1 in 0..r + 3 {
            for c0 in 0..c + 2 {
                for c1 in 0..c + 3 {
                    if r0 < r1 && c0 < c1 && r1 <= r && c1 <= c {
                        continue;
                    }
                    must(format!("sub_matrix({}, {}, {}, {}) of {}x{}", r0, c0, r1, c1, r, c), || m.sub_matrix(r0, c0, r1, c1))?;
                }
            }
        }
    }
    Ok(())
}

fn numeric<F: crate::cf::Fl>(s: &mut Src) -> R {
    let (r, c) = (s.range(1, 7), s.range(1, 7));
    let f = |s: &mut Src, r: usize, c: usize| -> Matrix<F> {
        let t: Tab<F> = Tab::from(r, c, |i, j| F::of(s.int(4) as f64 + if i == j { 9.0 } else { 0.0 }));
        t.lib()
    };
    let m = f(s, r, c);
    s.nontrivial_if(r * c >= 4 || r != c);
    let op = s.below(20);
    s.note(|| format!("numeric request {} on {:?}", op, m));
    let w = |o: &str| format!("{} of a {}x{} matrix", o, r, c);
    if op < 11 && r == c {
        return discard();
    }
    if op >= 14 && c == 1 {
        return discard();
    }
    match op {
        0 => must(w("det"), || m.det().val()),
        1 => must(w("inverse"), || m.inverse()),
        2 => must(w("is_singular"), || m.is_singular()),
        3 => must(w("is_non_singular"), || m.is_non_singular()),
        4 => must(w("LU det"), || LUDecomposition::new(&m).det().val()),
        5 => {
            let n = s.range(1, 3);
            let b = f(s, r, n);
            must(w("solve"), || m.solve(&b))
        }
        6 => {
            let n = s.range(1, 3);
            let b = f(s, r, n);
            must(w("LU solve"), || LUDecomposition::new(&m).solve(&b))
        }
        7 => must(w("eigendecomposition"), || EigenDecomposition::new(&m).get_real_eigenvalues().len()),
        8 => match CholeskyDecomposition::new(&m) {
            None => Ok(()),
            Some(d) => fail(format!("Cholesky accepted a {}x{} matrix: {:?}", r, c, d.get_l())),
        },
        9 => must(w("LU is_singular"), || LUDecomposition::new(&m).is_singular()),
        10 => must(w("LU is_non_singular"), || LUDecomposition::new(&m).is_non_singular()),
        11 | 12 | 13 => {
            // right-hand sides of the wrong height
            let n = s.range(1, 3);
            let h = if s.bool() { r + s.range(1, 3) } else { s.range(1, r) };
            if h == r {
                return discard();
            }
            let b = f(s, h, n);
            let a = f(s, r, r);
            let spd: Matrix<F> = Tab::from(r, r, |i, j| F::of(if i == j { 4.0 + r as f64 } else { 1.0 })).lib();
            match s.below(4) {
                0 => must(format!("solve of {}x{} with {} rows", r, r, h), || a.solve(&b)),
                1 => must(format!("LU solve of {}x{} with {} rows", r, r, h), || LUDecomposition::new(&a).solve(&b)),
                2 => must(format!("QR solve of {}x{} with {} rows", r, r, h), || QRDecomposition::new(&a).solve(&b)),
                _ => must(format!("Cholesky solve of {}x{} with {} rows", r, r, h), || {
                    let d = CholeskyDecomposition::new(&spd);
                    match d {
                        Some(d) => d.solve(&b),
                        None => panic!("not accepted"),
                    }
                }),
            }
        }
        14 => must(w("vector_euclidean_norm"), || m.vector_euclidean_norm().val()),
        15 => must(w("length"), || m.length().val()),
        16 => must(w("vector_1_norm"), || m.vector_1_norm().val()),
        17 => must(w("vector_2_norm"), || m.vector_2_norm().val()),
        18 => must(w("vector_p_norm"), || m.vector_p_norm(F::of(3.0)).val()),
        _ => must(w("vector_inf_norm"), || m.vector_inf_norm().val()),
    }
}
