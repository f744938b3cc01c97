//! Structural properties at sizes far beyond the others: thousands of rows, columns or elements,
//! where counters wrap, blocks end and buffers are exceeded.  Elements are a hash of their position.

use super::tab::{same, Tab};
use crate::engine::*;
use crate::ensure;
use la::*;

/// A value between -2^20 and 2^20 for a position.
fn h(seed: u64, k: u64) -> i64 {
    (splitmix(&mut seed.wrapping_add(k.wrapping_mul(0x9e37))) >> 43) as i64 - (1 << 20)
}

/// Around powers of two, or anything up to 70000.
fn long(s: &mut Src, top: u64) -> usize {
    if s.chance(2, 3) {
        let k = s.range(10, top as usize);
        ((1usize << k) + s.range(0, 2)) - 1
    } else {
        s.range(600, (1 << top) + 5000)
    }
}

pub fn big_shape(s: &mut Src) -> (usize, usize) {
    let (r, c) = match s.below(3) {
        0 => (s.range(1, 3), long(s, 16)),
        1 => (long(s, 16), s.range(1, 3)),
        _ => (s.range(140, 420), s.range(140, 420)),
    };
    s.label(if r == 1 || c == 1 { "vector" } else if r < 4 { "wide" } else if c < 4 { "tall" } else { "block" });
    s.label_if(r > 65536 || c > 65536, "a side above 65536");
    s.label_if(r * c > 65536, "more than 65536 elements");
    s.nontrivial();
    (r, c)
}

fn make(s: &mut Src, r: usize, c: usize) -> Tab<i64> {
    let seed = s.below(1 << 40);
    Tab::from(r, c, |i, j| h(seed, (i * c + j) as u64))
}

/// A position, often at an end.
fn pos(s: &mut Src, n: usize) -> usize {
    match s.below(4) {
        0 => n - 1,
        1 => 0,
        _ => s.range(0, n - 1),
    }
}

pub fn container(s: &mut Src) -> R {
    let (r, c) = big_shape(s);
    let mut t = make(s, r, c);
    s.note(|| format!("{}x{}", r, c));
    let mut m = t.lib();
    same("new", &m, &t)?;
    ensure!(m == t.lib() && !(m != t.lib()), "a {}x{} matrix does not equal its copy", r, c);
    let (i, j) = (pos(s, r), pos(s, c));
    let o = m.clone();
    match s.below(3) {
        0 => m.set(i, j, 1 << 40),
        1 => *m.get_mref(i, j) = 1 << 40,
        _ => m.get_mut_data()[i * c + j] = 1 << 40,
    }
    same("the clone after a write", &o, &t)?;
    ensure!(m != o && !(m == o), "a {}x{} matrix equals one that differs at ({}, {})", r, c, i, j);
    t.rows[i][j] = 1 << 40;
    same("write", &m, &t)?;
    // many more places, each written in one way and read in all
    for k in 0..40 {
        let (i, j) = if s.bool() {
            (pos(s, r), pos(s, c))
        } else {
            // around a power of two, in elements or in rows
            let x = (1usize << s.range(8, 16)) + s.range(0, 2) - 1;
            if s.bool() {
                let x = x.min(r * c - 1);
                (x / c, x % c)
            } else {
                (x.min(r - 1), pos(s, c))
            }
        };
        ensure!(m.get(i, j) == t.at(i, j) && *m.get_ref(i, j) == t.at(i, j) && m[(i, j)] == t.at(i, j), "element ({}, {}) of a {}x{} matrix is read as {:?}, {:?} and {:?} and is {:?}", i, j, r, c, m.get(i, j), m.get_ref(i, j), m[(i, j)], t.at(i, j));
        let v = (1 << 41) + k;
        if s.bool() {
            m.set(i, j, v);
        } else {
            *m.get_mref(i, j) = v;
        }
        t.rows[i][j] = v;
        ensure!(m.get(i, j) == v, "element ({}, {}) of a {}x{} matrix does not hold what was written", i, j, r, c);
    }
    same("writes", &m, &t)?;
    same("map", &m.map(&|x: &i64| *x as f64 / 2.0), &t.map(|x| x as f64 / 2.0))?;
    m.mmap(&|x: &i64| x ^ 5);
    let t = t.map(|x| x ^ 5);
    same("mmap", &m, &t)?;
    let init: Vec<i64> = (0..c as i64).collect();
    let w = Tab::from(1, c, |_, j| (0..r).fold(j as i64, |a, i| a.wrapping_mul(3) ^ t.at(i, j)));
    same("reduce", &m.reduce(&init, &|a: &i64, x: &i64| a.wrapping_mul(3) ^ *x), &w)?;
    same("zero", &Matrix::<i64>::zero(r, c), &Tab::from(r, c, |_, _| 0))?;
    same("id", &Matrix::<i64>::id(r, c), &Tab::from(r, c, |i, j| (i == j) as i64))?;
    let d: Vec<i64> = (0..r.min(c)).map(|i| t.at(i, i)).collect();
    same("block_diag", &Matrix::block_diag(r, c, d.clone()), &Tab::from(r, c, |i, j| if i == j { d[i] } else { 0 }))?;
    if d.len() > 3 {
        same("diag", &Matrix::diag(d.clone()), &Tab::from(d.len(), d.len(), |i, j| if i == j { d[i] } else { 0 }))?;
    }
    let f = t.flat();
    same("vector", &Matrix::vector(f.clone()), &Tab::from(r * c, 1, |i, _| f[i]))?;
    same("row_vector", &Matrix::row_vector(f.clone()), &Tab::from(1, r * c, |_, j| f[j]))?;
    same("zero_vector", &Matrix::<i64>::zero_vector(r), &Tab::from(r, 1, |_, _| 0))?;
    same("one_vector", &Matrix::<i64>::one_vector(r), &Tab::from(r, 1, |_, _| 1))
}

pub fn rearrange(s: &mut Src) -> R {
    let (r, c) = big_shape(s);
    let t = make(s, r, c);
    let m = t.lib();
    let seed = s.below(1 << 40);
    let what;
    match s.below(12) {
        0 | 1 => {
            what = "t";
            same(what, &m.t(), &t.t())?;
        }
        2 => {
            what = "cr";
            let k = if s.bool() { s.range(1, 3) } else { c };
            let o = make(s, r, k);
            let w = Tab::from(r, c + k, |i, j| if j < c { t.at(i, j) } else { o.at(i, j - c) });
            same(what, &m.cr(&o.lib()), &w)?;
            same("|", &(m.clone() | &o.lib()), &w)?;
        }
        3 => {
            what = "cb";
            let k = if s.bool() { s.range(1, 3) } else { r };
            let o = make(s, k, c);
            same(what, &m.cb(&o.lib()), &Tab::from(r + k, c, |i, j| if i < r { t.at(i, j) } else { o.at(i - r, j) }))?;
        }
        4 => {
            what = "minor";
            if r < 2 || c < 2 {
                return discard();
            }
            let (a, b) = (pos(s, r), pos(s, c));
            same(what, &m.minor(a, b), &Tab::from(r - 1, c - 1, |i, j| t.at(i + (i >= a) as usize, j + (j >= b) as usize)))?;
        }
        5 => {
            what = "sub_matrix";
            let (a, b) = (s.range(0, (r - 1).min(5)), s.range(0, (c - 1).min(5)));
            let (e, f) = (s.range(a + 1, r), s.range(b + 1, c));
            let (e, f) = if s.chance(1, 3) { (r, c) } else { (e, f) };
            same(what, &m.sub_matrix(a, b, e, f), &Tab::from(e - a, f - b, |i, j| t.at(i + a, j + b)))?;
        }
        6 => {
            what = "get_column";
            let j = pos(s, c);
            same(what, &m.get_column(j), &Tab::from(r, 1, |i, _| t.at(i, j)))?;
        }
        7 => {
            what = "permute_rows";
            let n = if s.bool() { r } else { s.range(1, r) };
            let p: Vec<usize> = (0..n).map(|k| h(seed, k as u64).unsigned_abs() as usize % r).collect();
            same(what, &m.permute_rows(&p), &Tab::from(n, c, |i, j| t.at(p[i], j)))?;
        }
        8 => {
            what = "permute_columns";
            let n = if s.bool() { c } else { s.range(1, c) };
            let p: Vec<usize> = (0..n).map(|k| h(seed, k as u64).unsigned_abs() as usize % c).collect();
            same(what, &m.permute_columns(&p), &Tab::from(r, n, |i, j| t.at(i, p[j])))?;
        }
        k => {
            // keep one in three, or nearly all; the last one always, so that something is left
            let rows = k < 11 && (k == 9 || s.bool());
            let n = if rows { r } else { c };
            let few = s.bool();
            let keep: Vec<bool> = (0..n).map(|i| i + 1 == n || (h(seed, i as u64).rem_euclid(3) == 0) == few).collect();
            let p: Vec<usize> = (0..n).filter(|&i| keep[i]).collect();
            let sel = s.bool();
            if rows {
                what = "select or filter rows";
                let x = if sel { m.select_rows(&keep) } else { m.filter_rows(&|_: &Matrix<i64>, i: usize| keep[i]) };
                same(what, &x, &Tab::from(p.len(), c, |i, j| t.at(p[i], j)))?;
            } else {
                what = "select or filter columns";
                let x = if sel { m.select_columns(&keep) } else { m.filter_columns(&|_: &Matrix<i64>, j: usize| keep[j]) };
                same(what, &x, &Tab::from(r, p.len(), |i, j| t.at(i, p[j])))?;
            }
        }
    }
    s.note(|| format!("{} of {}x{}", what, r, c));
    same("the source", &m, &t)
}

pub fn inplace(s: &mut Src) -> R {
    let (r, c) = big_shape(s);
    let (t, o) = (make(s, r, c), make(s, r, c).map(|x| if x == 0 { 1 } else { x }));
    s.note(|| format!("{}x{}", r, c));
    let (m, b) = (t.lib(), o.lib());
    let mut x = m.clone();
    let (what, want) = match s.below(9) {
        0 | 1 => {
            x.mt();
            ("mt", t.t())
        }
        2 => {
            x.mneg();
            ("mneg", t.map(|x| -x))
        }
        3 => {
            x.mscale(-7);
            ("mscale", t.map(|x| x * -7))
        }
        4 => {
            x.madd(&b);
            ("madd", Tab::from(r, c, |i, j| t.at(i, j) + o.at(i, j)))
        }
        5 => {
            x.msub(&b);
            ("msub", Tab::from(r, c, |i, j| t.at(i, j) - o.at(i, j)))
        }
        6 => {
            x.melem_mul(&b);
            ("melem_mul", Tab::from(r, c, |i, j| t.at(i, j) * o.at(i, j)))
        }
        7 => {
            x.melem_div(&b);
            ("melem_div", Tab::from(r, c, |i, j| t.at(i, j) / o.at(i, j)))
        }
        _ => {
            x.mmap(&|x: &i64| x * 3 + 1);
            ("mmap", t.map(|x| x * 3 + 1))
        }
    };
    s.label(what);
    same(what, &x, &want)?;
    same("the argument", &b, &o)
}

pub fn arith(s: &mut Src) -> R {
    let (r, c) = big_shape(s);
    let (t, o) = (make(s, r, c), make(s, r, c).map(|x| if x == 0 { 1 } else { x }));
    s.note(|| format!("{}x{}", r, c));
    let (m, b) = (t.lib(), o.lib());
    let z = |f: &dyn Fn(i64, i64) -> i64| Tab::from(r, c, |i, j| f(t.at(i, j), o.at(i, j)));
    match s.below(8) {
        0 => same("+", &(&m + &b), &z(&|x, y| x + y))?,
        1 => same("-", &(&m - &b), &z(&|x, y| x - y))?,
        2 => same("unary -", &-&m, &t.map(|x| -x))?,
        3 => same("scale", &m.scale(11), &t.map(|x| x * 11))?,
        4 => same("elem_mul", &m.elem_mul(&b), &z(&|x, y| x * y))?,
        5 => same("elem_div", &m.elem_div(&b), &z(&|x, y| x / y))?,
        k => {
            // a long inner dimension, or a long outer one
            let (p, q, n) = if k == 6 { (s.range(1, 3), s.range(1, 3), long(s, 16)) } else { (long(s, 14), s.range(1, 3), s.range(1, 4)) };
            let (a, d) = (make(s, p, n), make(s, n, q));
            s.label(if k == 6 { "long inner dimension" } else { "long outer dimension" });
            let (a, d) = if k == 7 && s.bool() { (d.t(), a.t()) } else { (a, d) };
            same("product", &(a.lib() * d.lib()), &a.mul(&d))?
        }
    }
    same("left operand", &m, &t)?;
    same("right operand", &b, &o)
}

/// Integer elements: the sums are exact, so only the roots round.
pub fn norms(s: &mut Src) -> R {
    let (r, c) = big_shape(s);
    let t = make(s, r, c).map(|x| (x % 1024) as f64);
    let t = if s.chance(1, 3) {
        // all alike but one
        let (i, j) = (pos(s, r), pos(s, c));
        let mut u = t.map(|_| 1.0);
        u.rows[i][j] = -5000.0;
        u
    } else {
        t
    };
    s.note(|| format!("{}x{}", r, c));
    let near = |what: &str, x: f64, w: f64| -> R {
        ensure!((x - w).abs() <= 1e-10 * w, "{} is {:e}, expected {:e} ({}x{})", what, x, w, r, c);
        Ok(())
    };
    let m = t.lib();
    let f = t.flat();
    let sq: f64 = f.iter().map(|x| x * x).sum();
    near("frobenius_norm", m.frobenius_norm(), sq.sqrt())?;
    let tr: f64 = (0..r.min(c)).map(|i| t.at(i, i)).sum();
    ensure!(m.trace() == tr, "trace is {}, expected {} ({}x{})", m.trace(), tr, r, c);
    let v = Matrix::vector(f.clone());
    ensure!(v.vector_1_norm() == f.iter().map(|x| x.abs()).sum::<f64>(), "vector_1_norm is {} ({} elements)", v.vector_1_norm(), f.len());
    ensure!(v.vector_inf_norm() == f.iter().fold(0.0, |a: f64, x| a.max(x.abs())), "vector_inf_norm is {} ({} elements)", v.vector_inf_norm(), f.len());
    near("vector_2_norm", v.vector_2_norm(), sq.sqrt())?;
    near("vector_euclidean_norm", v.vector_euclidean_norm(), sq.sqrt())?;
    near("length", v.length(), sq.sqrt())?;
    let p4: f64 = f.iter().map(|x| x * x * x * x).sum();
    let g = v.vector_p_norm(4.0);
    ensure!((g - p4.sqrt().sqrt()).abs() <= 1e-10 * g, "vector_p_norm(4) is {:e}, expected {:e} ({} elements)", g, p4.sqrt().sqrt(), f.len());
    Ok(())
}

pub fn approx(s: &mut Src) -> R {
    let (r, c) = big_shape(s);
    let t = make(s, r, c).map(|x| x as f64 / 1024.0);
    s.note(|| format!("{}x{}", r, c));
    let m = t.lib();
    let mut o = m.clone();
    ensure!(m.approx_eq(&o), "a {}x{} matrix is not approximately equal to its copy", r, c);
    let (i, j) = (pos(s, r), pos(s, c));
    let near = s.bool();
    o.set(i, j, t.at(i, j) + if near { 1e-7 } else { 1e-5 });
    ensure!(m.approx_eq(&o) == near && o.approx_eq(&m) == near, "{}x{} matrices that differ at ({}, {}) by {}: approx_eq is {}", r, c, i, j, o.get(i, j) - t.at(i, j), !near);
    ensure!(r == c || !m.approx_eq(&Matrix::new(c, r, t.flat())), "matrices of different shapes are approximately equal");
    let n = s.range(140, 300);
    let seed = s.below(1 << 40);
    let q = Tab::from(n, n, |i, j| h(seed, (i.min(j) * n + i.max(j)) as u64) as f64 / 1024.0);
    let mut q = q.lib();
    ensure!(q.is_symmetric() && !q.is_non_symmetric(), "a symmetric matrix of {} rows is not", n);
    let (i, j) = (pos(s, n), pos(s, n));
    if i != j {
        let v = q.get(i, j);
        q.set(i, j, v + if near { 1e-7 } else { 1e-5 });
        ensure!(q.is_symmetric() == near && q.is_non_symmetric() != near, "a matrix of {} rows asymmetric at ({}, {}) by {}: is_symmetric is {}", n, i, j, q.get(i, j) - v, !near);
    }
    Ok(())
}
