//! C01 (container model), C02 (rearrangement), C03 (in-place forms), C04 (arithmetic).

use super::tab::{same, shape, shape_labels, Elem, Tab};
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::rat::{Nc, Rat, Zp};
use la::Matrix;
use num::traits::{One, Zero};
use num::Num;
use std::fmt::Debug;
use std::ops::{Add, Mul, Neg};

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a shape, elements and (for histories) up to 40 operations on a pool of matrices are drawn; every accessor of every pool matrix is compared with a row-table model after each step. Non-trivial: a history of at least 6 operations in which at least 3 changed a matrix of 4 or more elements, or a constructor on a non-square shape of 4 or more elements.",
            groups: vec![
                Group { name: "history over a ring", f: history, quick: 16000, thorough: 600000 },
                Group { name: "history, plain data f64", f: plain_history::<f64>, quick: 6000, thorough: 200000 },
                Group { name: "history, plain data struct", f: plain_history::<(u16, i8, bool)>, quick: 3000, thorough: 100000 },
                Group { name: "history, plain data array", f: plain_history::<[u32; 5]>, quick: 3000, thorough: 100000 },
                Group { name: "history, plain data str", f: plain_history::<&'static str>, quick: 2000, thorough: 60000 },
                Group { name: "constructors", f: constructors, quick: 20000, thorough: 500000 },
                Group { name: "equality", f: equality, quick: 30000, thorough: 600000 },
                Group { name: "map and reduce", f: map_reduce, quick: 15000, thorough: 400000 },
                Group { name: "very large", f: super::big::container, quick: 16, thorough: 300 },
            ],
            assumptions: &["element types are plain Copy values with ordinary operator semantics", "writers through get_mut_data overwrite elements but do not change the element count"],
        },
        Property {
            id: "C02",
            rule: "a shape, elements, an operation and in-range indices are drawn; the result is compared element by element with the definition on a row table. Non-trivial: non-square source with at least 4 elements.",
            groups: vec![
                Group { name: "Zp", f: rearrange::<Zp>, quick: 60000, thorough: 2000000 },
                Group { name: "f64", f: rearrange::<f64>, quick: 20000, thorough: 600000 },
                Group { name: "u8", f: rearrange::<u8>, quick: 10000, thorough: 300000 },
                Group { name: "struct", f: rearrange::<(u16, i8, bool)>, quick: 10000, thorough: 300000 },
                Group { name: "array", f: rearrange::<[u32; 5]>, quick: 10000, thorough: 300000 },
                Group { name: "str", f: rearrange::<&'static str>, quick: 5000, thorough: 200000 },
                Group { name: "all blocks of one matrix", f: all_blocks, quick: 300, thorough: 6000 },
                Group { name: "all minors and columns", f: all_minors, quick: 1500, thorough: 30000 },
                Group { name: "composition laws", f: laws, quick: 8000, thorough: 300000 },
                Group { name: "nearly all, nearly in order", f: nearly_all, quick: 10000, thorough: 300000 },
                Group { name: "very large", f: super::big::rearrange, quick: 20, thorough: 300 },
            ],
            assumptions: &["selections keep at least one row and one column (an empty matrix is outside the library's domain)"],
        },
        Property {
            id: "C03",
            rule: "operands and a chain of in-place operations are drawn; after each step the receiver is compared with the value-returning form applied to the previous value, and the argument with its copy. Non-trivial: non-square operands with at least 4 elements.",
            groups: vec![
                Group { name: "chain over a field", f: inplace_chain, quick: 15000, thorough: 600000 },
                Group { name: "floats", f: inplace_float, quick: 15000, thorough: 500000 },
                Group { name: "transpose, every shape", f: transpose_shapes, quick: 1600, thorough: 10000 },
                Group { name: "operator forms", f: operator_forms, quick: 20000, thorough: 500000 },
                Group { name: "operator forms, non-commutative", f: operator_forms_nc, quick: 6000, thorough: 200000 },
                Group { name: "larger products", f: mmul_large, quick: 300, thorough: 5000 },
                Group { name: "mmul, non-commutative", f: mmul_nc, quick: 8000, thorough: 200000 },
                Group { name: "very large", f: super::big::inplace, quick: 20, thorough: 300 },
            ],
            assumptions: &[],
        },
        Property {
            id: "C04",
            rule: "conformable operands are drawn over an element type; the result is compared with the definition evaluated on row tables (exactly, or within accumulated rounding for floats). Non-trivial: at least 4 elements in each operand, not all shapes equal.",
            groups: vec![
                Group { name: "exact field", f: arith_zp, quick: 20000, thorough: 800000 },
                Group { name: "i32", f: arith_i32, quick: 15000, thorough: 400000 },
                Group { name: "unsigned", f: arith_usize, quick: 8000, thorough: 200000 },
                Group { name: "rational", f: arith_rat, quick: 10000, thorough: 300000 },
                Group { name: "complex", f: arith_complex, quick: 8000, thorough: 200000 },
                Group { name: "product, non-commutative", f: product_nc, quick: 15000, thorough: 500000 },
                Group { name: "f64", f: arith_float::<f64>, quick: 20000, thorough: 600000 },
                Group { name: "f32", f: arith_float::<f32>, quick: 15000, thorough: 400000 },
                Group { name: "larger products", f: product_large, quick: 300, thorough: 6000 },
                Group { name: "zeros, infinities and NaN f64", f: arith_nonfinite::<f64>, quick: 20000, thorough: 600000 },
                Group { name: "zeros, infinities and NaN f32", f: arith_nonfinite::<f32>, quick: 10000, thorough: 300000 },
                Group { name: "identity and structured products", f: structured, quick: 8000, thorough: 200000 },
                Group { name: "very large", f: super::big::arith, quick: 30, thorough: 400 },
            ],
            assumptions: &["integer operands are small enough that no exact result overflows"],
        },
    ]
}

impl Elem for Nc {
    fn make(s: &mut Src) -> Nc {
        Nc([Zp::of(s.int(50)), Zp::of(s.int(50)), Zp::of(s.int(50)), Zp::of(s.int(50))])
    }
    fn same(&self, o: &Nc) -> bool {
        self == o
    }
}
impl Elem for i32 {
    fn make(s: &mut Src) -> i32 {
        s.int(1000) as i32
    }
    fn same(&self, o: &i32) -> bool {
        self == o
    }
}
impl Elem for Rat {
    fn make(s: &mut Src) -> Rat {
        Rat::new(s.int(12) as i128, 1 + s.below(6) as i128)
    }
    fn same(&self, o: &Rat) -> bool {
        self == o
    }
}
type Cx = num::Complex<i64>;
impl Elem for Cx {
    fn make(s: &mut Src) -> Cx {
        Cx::new(s.int(100), s.int(100))
    }
    fn same(&self, o: &Cx) -> bool {
        self == o
    }
}

fn zp(s: &mut Src) -> Zp {
    Zp::make(s)
}

// ---------------------------------------------------------------- C01

fn construct_any(s: &mut Src) -> (Matrix<Zp>, Tab<Zp>, &'static str) {
    let (r, c) = shape(s);
    let o = Zp::zero();
    let i1 = Zp::one();
    match s.pick(&[40, 8, 8, 8, 8, 8, 8, 6, 6]) {
        0 => {
            let t = Tab::make(s, r, c);
            (t.lib(), t, "new")
        }
        1 => (Matrix::id(r, c), Tab::from(r, c, |i, j| if i == j { i1 } else { o }), "id"),
        2 => (Matrix::zero(r, c), Tab::from(r, c, |_, _| o), "zero"),
        3 => {
            let n = r.min(40);
            let d: Vec<Zp> = (0..n).map(|_| zp(s)).collect();
            (Matrix::diag(d.clone()), Tab::from(n, n, |i, j| if i == j { d[i] } else { o }), "diag")
        }
        4 => {
            let d: Vec<Zp> = (0..r.min(c)).map(|_| zp(s)).collect();
            (Matrix::block_diag(r, c, d.clone()), Tab::from(r, c, |i, j| if i == j { d[i] } else { o }), "block_diag")
        }
        5 => {
            let t: Tab<Zp> = Tab::make(s, r, 1);
            (Matrix::vector(t.flat()), t, "vector")
        }
        6 => {
            let t: Tab<Zp> = Tab::make(s, 1, c);
            (Matrix::row_vector(t.flat()), t, "row_vector")
        }
        7 => (Matrix::zero_vector(r), Tab::from(r, 1, |_, _| o), "zero_vector"),
        _ => (Matrix::one_vector(r), Tab::from(r, 1, |_, _| i1), "one_vector"),
    }
}

fn constructors(s: &mut Src) -> R {
    let (m, t, name) = construct_any(s);
    s.label(name);
    shape_labels(s, t.r, t.c);
    s.note(|| format!("{} {:?}", name, t));
    same(name, &m, &t)?;
    // the same constructors over other numeric element types
    let (r, c) = shape(s);
    match s.below(6) {
        0 => {
            same("id f64", &Matrix::<f64>::id(r, c), &Tab::from(r, c, |i, j| if i == j { 1.0 } else { 0.0 }))?;
            same("zero f64", &Matrix::<f64>::zero(r, c), &Tab::from(r, c, |_, _| 0.0))
        }
        1 => {
            same("id u8", &Matrix::<u8>::id(r, c), &Tab::from(r, c, |i, j| (i == j) as u8))?;
            same("one_vector u8", &Matrix::<u8>::one_vector(r), &Tab::from(r, 1, |_, _| 1u8))
        }
        2 => {
            let d: Vec<f64> = (0..r.min(c)).map(|_| f64::make(s)).collect();
            same("block_diag f64", &Matrix::block_diag(r, c, d.clone()), &Tab::from(r, c, |i, j| if i == j { d[i] } else { 0.0 }))
        }
        3 => {
            let d: Vec<f64> = (0..r).map(|_| f64::make(s)).collect();
            same("diag f64", &Matrix::diag(d.clone()), &Tab::from(r, r, |i, j| if i == j { d[i] } else { 0.0 }))
        }
        4 => {
            let t: Tab<char> = Tab::make(s, r, 1);
            same("vector char", &Matrix::vector(t.flat()), &t)?;
            same("row_vector char", &Matrix::row_vector(t.flat()), &t.t())
        }
        _ => {
            let t: Tab<()> = Tab::make(s, r, c);
            ensure!(Matrix::new(r, c, t.flat()).rows() == r && Matrix::new(r, c, t.flat()).cols() == c, "shape of a {}x{} matrix of ()", r, c);
            let t: Tab<bool> = Tab::make(s, r, c);
            same("new bool", &t.lib(), &t)
        }
    }
}

fn history(s: &mut Src) -> R {
    let mut pool: Vec<(Matrix<Zp>, Tab<Zp>)> = Vec::new();
    for _ in 0..s.range(1, 3) {
        let (m, t, name) = construct_any(s);
        s.note(|| format!("#{} = {} {:?}", 0, name, t));
        same(name, &m, &t)?;
        pool.push((m, t));
    }
    let steps = s.range(1, 40);
    let mut changed = 0;
    let mut done = 0;
    for _ in 0..steps {
        if s.chance(1, 24) {
            break;
        }
        done += 1;
        let k = s.range(0, pool.len() - 1);
        let op = s.pick(&[16, 10, 10, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 8, 4, 4, 4]);
        let other = s.range(0, pool.len() - 1);
        let (r, c) = (pool[k].1.r, pool[k].1.c);
        if r * c >= 4 {
            changed += 1;
        }
        let oshape = (pool[other].1.r, pool[other].1.c);
        let arg: Tab<Zp> = if oshape == (r, c) { pool[other].1.clone() } else { Tab::make(s, r, c) };
        let argm = arg.lib();
        let what;
        match op {
            0 => {
                let (i, j, v) = (s.range(0, r - 1), s.range(0, c - 1), zp(s));
                what = format!("#{}.set({}, {}, {:?})", k, i, j, v);
                let (m, t) = &mut pool[k];
                m.set(i, j, v);
                t.rows[i][j] = v;
            }
            1 => {
                let (i, j, v) = (s.range(0, r - 1), s.range(0, c - 1), zp(s));
                what = format!("*#{}.get_mref({}, {}) = {:?}", k, i, j, v);
                let (m, t) = &mut pool[k];
                *m.get_mref(i, j) = v;
                t.rows[i][j] = v;
            }
            2 => {
                let (i, j, v) = (s.range(0, r - 1), s.range(0, c - 1), zp(s));
                what = format!("#{}.get_mut_data()[{}] = {:?}", k, i * c + j, v);
                let (m, t) = &mut pool[k];
                m.get_mut_data()[i * c + j] = v;
                t.rows[i][j] = v;
            }
            3 => {
                let b = zp(s);
                what = format!("#{}.mmap(x -> x*x + {:?})", k, b);
                let (m, t) = &mut pool[k];
                m.mmap(&|x: &Zp| *x * *x + b);
                *t = t.map(|x| x * x + b);
            }
            4 => {
                what = format!("#{}.mneg()", k);
                let (m, t) = &mut pool[k];
                m.mneg();
                *t = t.map(|x| -x);
            }
            5 => {
                let b = zp(s);
                what = format!("#{}.mscale({:?})", k, b);
                let (m, t) = &mut pool[k];
                m.mscale(b);
                *t = t.map(|x| b * x);
            }
            6 => {
                what = format!("#{}.madd({:?})", k, arg);
                let (m, t) = &mut pool[k];
                m.madd(&argm);
                *t = Tab::from(r, c, |i, j| t.at(i, j) + arg.at(i, j));
            }
            7 => {
                what = format!("#{}.msub({:?})", k, arg);
                let (m, t) = &mut pool[k];
                m.msub(&argm);
                *t = Tab::from(r, c, |i, j| t.at(i, j) - arg.at(i, j));
            }
            8 => {
                what = format!("#{}.melem_mul({:?})", k, arg);
                let (m, t) = &mut pool[k];
                m.melem_mul(&argm);
                *t = Tab::from(r, c, |i, j| t.at(i, j) * arg.at(i, j));
            }
            9 => {
                let one = Zp::one();
                let z = arg.map(|x| if x.is_zero() { one } else { x });
                what = format!("#{}.melem_div({:?})", k, z);
                let zm = z.lib();
                let (m, t) = &mut pool[k];
                m.melem_div(&zm);
                *t = Tab::from(r, c, |i, j| t.at(i, j) / z.at(i, j));
            }
            10 | 11 => {
                what = format!("#{}.mt()", k);
                let (m, t) = &mut pool[k];
                m.mt();
                *t = t.t();
            }
            12 => {
                let n = s.range(1, 6);
                let z: Tab<Zp> = Tab::make(s, c, n);
                what = format!("#{}.mmul({:?})", k, z);
                let zm = z.lib();
                let (m, t) = &mut pool[k];
                m.mmul(&zm);
                *t = t.mul(&z);
                same("argument of mmul", &zm, &z)?;
            }
            13 => {
                let from = s.bool() && pool.len() == 4;
                what = if from { format!("#{}.clone_from(#{})", other, k) } else { format!("push #{}.clone()", k) };
                let copy = (pool[k].0.clone(), pool[k].1.clone());
                if pool.len() < 4 {
                    pool.push(copy);
                } else if from {
                    pool[other].0.clone_from(&copy.0);
                    pool[other].1 = copy.1;
                } else {
                    pool[other] = copy;
                }
            }
            14 => {
                what = format!("#{} = #{}.t()", other, k);
                let v = (pool[k].0.t(), pool[k].1.t());
                pool[other] = v;
            }
            15 => {
                what = format!("#{}.get_mut_data().reverse()", k);
                let (m, t) = &mut pool[k];
                m.get_mut_data().reverse();
                *t = Tab::from(r, c, |i, j| t.at(r - 1 - i, c - 1 - j));
            }
            _ => {
                let b = zp(s);
                what = format!("#{} = #{}.map(x -> x + {:?})", other, k, b);
                let v = (pool[k].0.map(&|x: &Zp| *x + b), pool[k].1.map(|x| x + b));
                pool[other] = v;
            }
        }
        s.note(|| what.clone());
        same("argument", &argm, &arg)?;
        for (n, (m, t)) in pool.iter().enumerate() {
            same(&format!("#{} after {}", n, what), m, t)?;
        }
        for a in 0..pool.len() {
            for b in 0..pool.len() {
                let eq = (pool[a].1.r, pool[a].1.c) == (pool[b].1.r, pool[b].1.c) && pool[a].1.rows == pool[b].1.rows;
                ensure!((pool[a].0 == pool[b].0) == eq && (pool[a].0 != pool[b].0) != eq, "== of #{} and #{} is {}, expected {}", a, b, pool[a].0 == pool[b].0, eq);
            }
        }
    }
    s.nontrivial_if(done >= 6 && changed >= 3);
    s.label_if(done >= 20, "20 or more operations");
    Ok(())
}

fn plain_history<T: Elem>(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let mut t: Tab<T> = Tab::make(s, r, c);
    let mut m = t.lib();
    let keep = (m.clone(), t.clone());
    s.note(|| format!("{:?}", t));
    same("new", &m, &t)?;
    let n = s.range(1, 24);
    for _ in 0..n {
        let (i, j, v) = (s.range(0, t.r - 1), s.range(0, t.c - 1), T::make(s));
        let op = s.below(7);
        match op {
            0 => m.set(i, j, v),
            1 => *m.get_mref(i, j) = v,
            2 => m.get_mut_data()[i * t.c + j] = v,
            3 => {
                m.mt();
                t = t.t();
            }
            4 => {
                m.mmap(&|_x: &T| v);
                t = t.map(|_| v);
            }
            5 => {
                // exchange two elements through the data vector
                let k = s.range(0, t.r * t.c - 1);
                m.get_mut_data().swap(i * t.c + j, k);
                let (a, b) = (t.rows[i][j], t.rows[k / t.c][k % t.c]);
                t.rows[i][j] = b;
                let cc = t.c;
                t.rows[k / cc][k % cc] = a;
            }
            _ => {
                let mut z = m.clone();
                m = z.map(&|x: &T| *x);
                same("source of map", &z, &t)?;
                // onto a matrix of another shape
                z.mt();
                z.clone_from(&m);
                same("clone_from", &z, &t)?;
            }
        }
        if op < 3 {
            t.rows[i][j] = v;
        }
        s.note(|| format!("op {} at ({}, {})", op, i, j));
        same("after a step", &m, &t)?;
    }
    same("the clone taken at the start", &keep.0, &keep.1)?;
    s.nontrivial_if(n >= 6 && r * c >= 4);
    shape_labels(s, r, c);
    Ok(())
}

fn equality(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<f64> = Tab::from(r, c, |_, _| s.int(3) as f64);
    let m = t.lib();
    shape_labels(s, r, c);
    let mut u = t.clone();
    let (i, j) = (s.range(0, r - 1), s.range(0, c - 1));
    let mut expect = true;
    match s.below(7) {
        0 => {}
        1 => {
            // a difference in one position, possibly tiny
            let old = u.rows[i][j];
            u.rows[i][j] = if s.bool() { old + 1.0 } else { f64::from_bits(old.to_bits() ^ 1) };
            expect = u.rows[i][j] == old;
            s.label("one element differs");
        }
        2 => {
            u.rows[i][j] = f64::NAN;
            expect = false;
            let z = u.lib();
            ensure!(z != z.clone(), "a matrix holding NaN equals its copy");
            let same = &z;
            ensure!(!(z == *same) && z != *same, "a matrix holding NaN equals itself");
            s.label("NaN");
        }
        3 => {
            // same elements, other shape
            let f = t.flat();
            let divs: Vec<usize> = (1..=r * c).filter(|d| r * c % d == 0).collect();
            let d = divs[s.range(0, divs.len() - 1)];
            u = Tab::from(d, r * c / d, |i, j| f[i * (r * c / d) + j]);
            expect = d == r;
            s.label("same elements, other shape");
        }
        4 => {
            u = u.map(|x| if x == 0.0 { -0.0 } else { x });
        }
        5 => {
            // a prefix
            if r > 1 {
                u = Tab::from(r - 1, c, |i, j| t.at(i, j));
                expect = false;
            }
            s.label("fewer rows");
        }
        _ => {
            u = t.t();
            expect = r == c && t.rows == u.rows;
        }
    }
    let z = u.lib();
    s.note(|| format!("{:?} vs {:?}", t, u));
    if s.chance(1, 3) {
        let mut w = m.clone();
        w.clone_from(&z);
        same("clone_from", &w, &u)?;
    }
    ensure!((m == z) == expect && (z == m) == expect && (m != z) != expect, "{:?} == {:?} gives {} / {}, expected {}", t, u, m == z, z == m, expect);
    Ok(())
}

fn map_reduce(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<Zp> = Tab::make(s, r, c);
    let m = t.lib();
    shape_labels(s, r, c);
    s.note(|| format!("{:?}", t));
    let k = zp(s);
    same("map", &m.map(&|x: &Zp| *x * k + Zp::one()), &t.map(|x| x * k + Zp::one()))?;
    same("map to another type", &m.map(&|x: &Zp| (x.0 as u16, (x.0 % 100) as i8, x.0 % 2 == 0)), &t.map(|x| (x.0 as u16, (x.0 % 100) as i8, x.0 % 2 == 0)))?;
    same("source of map", &m, &t)?;
    // order-sensitive reduction, per column, in row order
    let init: Vec<Zp> = (0..c).map(|_| zp(s)).collect();
    let got = m.reduce(&init, &|a: &Zp, x: &Zp| *a * k + *x);
    let want = Tab::from(1, c, |_, j| {
        let mut a = init[j];
        for i in 0..r {
            a = a * k + t.at(i, j);
        }
        a
    });
    same("reduce", &got, &want)?;
    // accumulator of another type: the rows seen, newest last
    let init: Vec<[u32; 5]> = (0..c).map(|j| [j as u32, 0, 0, 0, 0]).collect();
    let got = m.reduce(&init, &|a: &[u32; 5], x: &Zp| [a[0], a[1] + 1, a[3], x.0, a[4].wrapping_mul(31).wrapping_add(x.0)]);
    let want = Tab::from(1, c, |_, j| {
        let mut a = init[j];
        for i in 0..r {
            let x = t.at(i, j);
            a = [a[0], a[1] + 1, a[3], x.0, a[4].wrapping_mul(31).wrapping_add(x.0)];
        }
        a
    });
    same("reduce to another type", &got, &want)?;
    same("source of reduce", &m, &t)
}

// ---------------------------------------------------------------- C02

fn rearrange<T: Elem>(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<T> = Tab::make(s, r, c);
    let m = t.lib();
    shape_labels(s, r, c);
    s.note(|| format!("{:?}", t));
    let op = s.below(14);
    let what;
    let got;
    let want;
    match op {
        0 => {
            what = "t".to_string();
            got = m.t();
            want = t.t();
        }
        1 | 2 => {
            let cap = if s.chance(1, 8) { 70 } else { 7 };
            let c2 = s.range(1, cap);
            let u: Tab<T> = Tab::make(s, r, c2);
            let n = u.lib();
            what = format!("{} {:?}", if op == 1 { "cr" } else { "|" }, u);
            got = if op == 1 { m.cr(&n) } else { m.clone() | &n };
            want = Tab::from(r, c + c2, |i, j| if j < c { t.at(i, j) } else { u.at(i, j - c) });
            same("argument", &n, &u)?;
        }
        3 => {
            let cap = if s.chance(1, 8) { 70 } else { 7 };
            let r2 = s.range(1, cap);
            let u: Tab<T> = Tab::make(s, r2, c);
            let n = u.lib();
            what = format!("cb {:?}", u);
            got = m.cb(&n);
            want = Tab::from(r + r2, c, |i, j| if i < r { t.at(i, j) } else { u.at(i - r, j) });
            same("argument", &n, &u)?;
        }
        4 => {
            if r < 2 || c < 2 {
                return discard();
            }
            let (i, j) = (s.range(0, r - 1), s.range(0, c - 1));
            what = format!("minor({}, {})", i, j);
            got = m.minor(i, j);
            want = Tab::from(r - 1, c - 1, |a, b| t.at(if a < i { a } else { a + 1 }, if b < j { b } else { b + 1 }));
        }
        5 | 6 => {
            let r0 = s.range(0, r - 1);
            let c0 = s.range(0, c - 1);
            let r1 = if s.chance(1, 3) { r } else { s.range(r0 + 1, r) };
            let c1 = if s.chance(1, 3) { c } else { s.range(c0 + 1, c) };
            s.label_if(r1 == r || c1 == c, "block reaching the edge");
            s.label_if(r1 - r0 == r || c1 - c0 == c, "block of full width or height");
            what = format!("sub_matrix({}, {}, {}, {})", r0, c0, r1, c1);
            got = m.sub_matrix(r0, c0, r1, c1);
            want = Tab::from(r1 - r0, c1 - c0, |i, j| t.at(r0 + i, c0 + j));
        }
        7 => {
            let j = s.range(0, c - 1);
            what = format!("get_column({})", j);
            got = m.get_column(j);
            want = Tab::from(r, 1, |i, _| t.at(i, j));
        }
        8 => {
            let p = index_list(s, r);
            what = format!("permute_rows({:?})", p);
            got = m.permute_rows(&p);
            want = Tab::from(p.len(), c, |i, j| t.at(p[i], j));
        }
        9 => {
            let p = index_list(s, c);
            what = format!("permute_columns({:?})", p);
            got = m.permute_columns(&p);
            want = Tab::from(r, p.len(), |i, j| t.at(i, p[j]));
        }
        10 => {
            let sel = selector(s, r);
            let idx: Vec<usize> = (0..r).filter(|i| sel[*i]).collect();
            what = format!("select_rows({:?})", sel);
            got = m.select_rows(&sel);
            want = Tab::from(idx.len(), c, |i, j| t.at(idx[i], j));
        }
        11 => {
            let sel = selector(s, c);
            let idx: Vec<usize> = (0..c).filter(|i| sel[*i]).collect();
            what = format!("select_columns({:?})", sel);
            got = m.select_columns(&sel);
            want = Tab::from(r, idx.len(), |i, j| t.at(i, idx[j]));
        }
        12 => {
            // a predicate that looks at the matrix it is given, in a random column
            let sel = selector(s, r);
            let col = s.range(0, c - 1);
            let key = t.at(s.range(0, r - 1), col);
            let by_value = s.bool();
            let keep = |x: &T, i: usize| if by_value { x.same(&key) } else { sel[i] };
            let idx: Vec<usize> = (0..r).filter(|i| keep(&t.at(*i, col), *i)).collect();
            what = format!("filter_rows keeping {:?}", idx);
            got = m.filter_rows(&|x: &Matrix<T>, i: usize| x.rows() == r && x.cols() == c && keep(x.get_ref(i, col), i));
            want = Tab::from(idx.len(), c, |i, j| t.at(idx[i], j));
        }
        _ => {
            let sel = selector(s, c);
            let row = s.range(0, r - 1);
            let key = t.at(row, s.range(0, c - 1));
            let by_value = s.bool();
            let keep = |x: &T, i: usize| if by_value { x.same(&key) } else { sel[i] };
            let idx: Vec<usize> = (0..c).filter(|i| keep(&t.at(row, *i), *i)).collect();
            what = format!("filter_columns keeping {:?}", idx);
            got = m.filter_columns(&|x: &Matrix<T>, i: usize| x.rows() == r && x.cols() == c && keep(x.get_ref(row, i), i));
            want = Tab::from(r, idx.len(), |i, j| t.at(i, idx[j]));
        }
    }
    s.label(["t", "cr", "|", "cb", "minor", "sub_matrix", "sub_matrix", "get_column", "permute_rows", "permute_columns", "select_rows", "select_columns", "filter_rows", "filter_columns"][op as usize]);
    s.note(|| what.clone());
    same(&what, &got, &want)?;
    same("source", &m, &t)
}

/// Lists that are nearly in order: runs, reversals, rotations, and those with a few places changed.
pub fn ordered_list(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    match s.below(6) {
        0 => {
            let (a, b) = (s.range(0, n - 1), s.range(0, n - 1));
            p = (a.min(b)..=a.max(b)).collect();
        }
        1 => p.reverse(),
        2 => p.rotate_left(s.range(0, n - 1)),
        3 => {
            // the front (or the back) in order, the rest shuffled
            let k = s.range(0, n - 1);
            let q = gen::perm(s, n - k);
            if s.bool() {
                p.truncate(k);
                p.extend(q.iter().map(|i| i + k));
            } else {
                p = q.into_iter().chain(n - k..n).collect();
            }
        }
        _ => {}
    }
    for _ in 0..s.below(4) {
        let k = p.len() - 1;
        let (i, j) = (s.range(0, k), s.range(0, k));
        match s.below(3) {
            0 => p.swap(i, j),
            1 => p[i] = s.range(0, n - 1),
            _ => {
                let x = p.remove(i);
                p.insert(j.min(p.len()), x);
            }
        }
    }
    p
}

/// Index lists and selectors that are nearly the whole matrix in order, and blocks that are most of it.
fn nearly_all(s: &mut Src) -> R {
    let (mut r, mut c) = (gen::tail(s, 2, 30, 300), gen::tail(s, 1, 3, 12));
    if s.bool() {
        std::mem::swap(&mut r, &mut c);
    }
    let t: Tab<i64> = Tab::from(r, c, |i, j| (i * 1000 + j) as i64);
    let m = t.lib();
    shape_labels(s, r, c);
    s.nontrivial_if(r.max(c) > 8);
    let what;
    let got;
    let want;
    match s.below(6) {
        0 | 1 => {
            let p = ordered_list(s, r);
            what = format!("permute_rows({:?})", p);
            got = m.permute_rows(&p);
            want = Tab::from(p.len(), c, |i, j| t.at(p[i], j));
        }
        2 | 3 => {
            let p = ordered_list(s, c);
            what = format!("permute_columns({:?})", p);
            got = m.permute_columns(&p);
            want = Tab::from(r, p.len(), |i, j| t.at(i, p[j]));
        }
        4 => {
            let part = |s: &mut Src, n: usize| {
                let a = if s.bool() { 0 } else { s.range(0, (n - 1).min(3)) };
                let b = if s.bool() { n } else { s.range(n - (n - a - 1).min(3), n) };
                (a, b)
            };
            let ((r0, r1), (c0, c1)) = (part(s, r), part(s, c));
            what = format!("sub_matrix({}, {}, {}, {})", r0, c0, r1, c1);
            got = m.sub_matrix(r0, c0, r1, c1);
            want = Tab::from(r1 - r0, c1 - c0, |i, j| t.at(r0 + i, c0 + j));
        }
        _ => {
            let rows = s.bool();
            let n = if rows { r } else { c };
            let mut keep = vec![true; n];
            for _ in 0..s.below(4) {
                let i = s.range(0, n - 1);
                keep[i] = false;
            }
            if keep.iter().all(|k| !k) {
                return discard();
            }
            let p: Vec<usize> = (0..n).filter(|&i| keep[i]).collect();
            what = format!("{} all but {:?}", if rows { "rows" } else { "columns" }, (0..n).filter(|&i| !keep[i]).collect::<Vec<_>>());
            if rows {
                got = m.select_rows(&keep);
                want = Tab::from(p.len(), c, |i, j| t.at(p[i], j));
                same("filter_rows", &m.filter_rows(&|_: &Matrix<i64>, i: usize| keep[i]), &want)?;
            } else {
                got = m.select_columns(&keep);
                want = Tab::from(r, p.len(), |i, j| t.at(i, p[j]));
                same("filter_columns", &m.filter_columns(&|_: &Matrix<i64>, i: usize| keep[i]), &want)?;
            }
        }
    }
    s.note(|| format!("{} of {}x{}", what, r, c));
    same(&what, &got, &want)?;
    same("the source", &m, &t)
}

fn index_list(s: &mut Src, n: usize) -> Vec<usize> {
    match s.below(5) {
        4 => ordered_list(s, n),
        0 => gen::perm(s, n),
        1 => {
            let k = s.range(1, n);
            let mut p = gen::perm(s, n);
            p.truncate(k);
            p
        }
        2 => {
            let k = s.range(1, 2 * n + 2);
            (0..k).map(|_| s.range(0, n - 1)).collect()
        }
        _ => {
            let i = s.range(0, n - 1);
            vec![i; s.range(1, 4)]
        }
    }
}

fn selector(s: &mut Src, n: usize) -> Vec<bool> {
    let den = s.range(1, 4) as u64;
    let mut v: Vec<bool> = (0..n).map(|_| !s.chance(1, den + 1)).collect();
    let must = s.range(0, n - 1);
    v[must] = true;
    v
}

fn all_blocks(s: &mut Src) -> R {
    let (r, c) = (s.range(1, 9), s.range(1, 9));
    let t: Tab<i64> = Tab::from(r, c, |i, j| (i * 100 + j) as i64);
    let m = t.lib();
    s.nontrivial_if(r != c);
    s.note(|| format!("every block of a {}x{} matrix", r, c));
    for r0 in 0..r {
        for r1 in r0 + 1..=r {
            for c0 in 0..c {
                for c1 in c0 + 1..=c {
                    let g = m.sub_matrix(r0, c0, r1, c1);
                    let w = Tab::from(r1 - r0, c1 - c0, |i, j| t.at(r0 + i, c0 + j));
                    same(&format!("{}x{} sub_matrix({}, {}, {}, {})", r, c, r0, c0, r1, c1), &g, &w)?;
                }
            }
        }
    }
    Ok(())
}

fn all_minors(s: &mut Src) -> R {
    let (r, c) = (s.range(2, 12), s.range(2, 12));
    let t: Tab<i64> = Tab::from(r, c, |i, j| (i * 100 + j) as i64);
    let m = t.lib();
    s.nontrivial_if(r != c);
    s.note(|| format!("every minor and column of a {}x{} matrix", r, c));
    for i in 0..r {
        for j in 0..c {
            let w = Tab::from(r - 1, c - 1, |a, b| t.at(if a < i { a } else { a + 1 }, if b < j { b } else { b + 1 }));
            same(&format!("{}x{} minor({}, {})", r, c, i, j), &m.minor(i, j), &w)?;
        }
    }
    for j in 0..c {
        same("get_column", &m.get_column(j), &Tab::from(r, 1, |i, _| t.at(i, j)))?;
    }
    Ok(())
}

fn laws(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<Zp> = Tab::make(s, r, c);
    let m = t.lib();
    shape_labels(s, r, c);
    s.note(|| format!("{:?}", t));
    ensure!(m.t().t() == m, "transposing twice does not give the matrix back");
    let p = gen::perm(s, r);
    let mut inv = vec![0; r];
    for i in 0..r {
        inv[p[i]] = i;
    }
    ensure!(m.permute_rows(&p).permute_rows(&inv) == m, "permuting rows by {:?} and back", p);
    let q = gen::perm(s, c);
    ensure!(m.permute_rows(&p).permute_columns(&q) == m.permute_columns(&q).permute_rows(&p), "row and column permutations do not commute");
    ensure!(m.permute_columns(&q).t() == m.t().permute_rows(&q), "transposition does not exchange row and column permutation");
    ensure!(m.cr(&m).t() == m.t().cb(&m.t()), "(A|A)' differs from A' over A'");
    if c > 1 {
        let k = s.range(1, c - 1);
        ensure!(m.sub_matrix(0, 0, r, k).cr(&m.sub_matrix(0, k, r, c)) == m, "splitting at column {} and concatenating", k);
    }
    if r > 1 {
        let k = s.range(1, r - 1);
        ensure!(m.sub_matrix(0, 0, k, c).cb(&m.sub_matrix(k, 0, r, c)) == m, "splitting at row {} and concatenating", k);
    }
    ensure!(m.sub_matrix(0, 0, r, c) == m, "the whole matrix as a block");
    let mut cols = m.get_column(0);
    for j in 1..c {
        cols = cols.cr(&m.get_column(j));
    }
    ensure!(cols == m, "the columns concatenated");
    Ok(())
}

// ---------------------------------------------------------------- C03

fn unchanged<T: Elem>(m: &Matrix<T>, t: &Tab<T>) -> R {
    same("the argument after the call", m, t)
}

/// Library against library: the in-place form against the value-returning form.
fn agree<T: Elem>(what: &str, a: &Matrix<T>, b: &Matrix<T>) -> R {
    ensure!(a.rows() == b.rows() && a.cols() == b.cols(), "{}: in place {}x{}, by value {}x{}", what, a.rows(), a.cols(), b.rows(), b.cols());
    for (k, (x, y)) in a.get_data().iter().zip(b.get_data()).enumerate() {
        ensure!(x.same(y), "{}: element ({}, {}) is {:?} in place and {:?} by value", what, k / a.cols(), k % a.cols(), x, y);
    }
    Ok(())
}

fn inplace_chain(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<Zp> = Tab::make(s, r, c);
    let mut m = t.lib();
    shape_labels(s, r, c);
    s.note(|| format!("{:?}", t));
    for _ in 0..s.range(1, 8) {
        let (r, c) = (m.rows(), m.cols());
        let before = m.clone();
        let u: Tab<Zp> = Tab::make(s, r, c).map(|x: Zp| if x.is_zero() { Zp::one() } else { x });
        let mut n = u.lib();
        if s.chance(1, 8) {
            n = m.clone();
        }
        let nt = Tab::from(r, c, |i, j| n.get(i, j));
        let k = zp(s);
        let op = s.below(9);
        let what = ["mt", "mneg", "mscale", "madd", "msub", "melem_mul", "melem_div", "mmul", "mmap"][op as usize];
        s.note(|| what.to_string());
        s.label(what);
        let want = match op {
            0 => {
                m.mt();
                before.t()
            }
            1 => {
                m.mneg();
                -&before
            }
            2 => {
                m.mscale(k);
                before.scale(k)
            }
            3 => {
                m.madd(&n);
                &before + &n
            }
            4 => {
                m.msub(&n);
                &before - &n
            }
            5 => {
                m.melem_mul(&n);
                before.elem_mul(&n)
            }
            6 => {
                if nt.rows.iter().flatten().any(|x| x.is_zero()) {
                    continue;
                }
                m.melem_div(&n);
                before.elem_div(&n)
            }
            7 => {
                let k = s.range(1, 12);
                let u: Tab<Zp> = Tab::make(s, c, k);
                let n = u.lib();
                m.mmul(&n);
                unchanged(&n, &u)?;
                &before * &n
            }
            _ => {
                m.mmap(&|x: &Zp| *x * k + Zp::one());
                before.map(&|x: &Zp| *x * k + Zp::one())
            }
        };
        agree(what, &m, &want)?;
        unchanged(&n, &nt)?;
        if r * c > 4000 {
            break;
        }
    }
    Ok(())
}

fn inplace_float(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<f64> = Tab::make(s, r, c);
    let u: Tab<f64> = Tab::make(s, r, c);
    shape_labels(s, r, c);
    s.note(|| format!("{:?} with {:?}", t, u));
    let a = t.lib();
    let b = u.lib();
    let k = f64::make(s);
    let ip = |f: &dyn Fn(&mut Matrix<f64>)| {
        let mut x = a.clone();
        f(&mut x);
        x
    };
    agree("mt", &ip(&|x| x.mt()), &a.t())?;
    agree("mneg", &ip(&|x| x.mneg()), &-&a)?;
    agree("mscale", &ip(&|x| x.mscale(k)), &a.scale(k))?;
    agree("madd", &ip(&|x| x.madd(&b)), &(&a + &b))?;
    agree("msub", &ip(&|x| x.msub(&b)), &(&a - &b))?;
    agree("melem_mul", &ip(&|x| x.melem_mul(&b)), &a.elem_mul(&b))?;
    agree("melem_div", &ip(&|x| x.melem_div(&b)), &a.elem_div(&b))?;
    agree("mmap", &ip(&|x| x.mmap(&|v: &f64| v * 2.0)), &a.map(&|v: &f64| v * 2.0))?;
    unchanged(&b, &u)?;
    // products over integers held in floats: exact in any order of summation
    // (no zeros, so that no zero sum depends on the sign of a zero term)
    let nz = |s: &mut Src| {
        let v = s.int(50) as f64;
        if v == 0.0 { 51.0 } else { v }
    };
    let ti: Tab<f64> = Tab::from(r, c, |_, _| nz(s));
    let n = s.range(1, 8);
    let ui: Tab<f64> = Tab::from(c, n, |_, _| nz(s));
    let (x, y) = (ti.lib(), ui.lib());
    let mut z = x.clone();
    z.mmul(&y);
    agree("mmul", &z, &(&x * &y))?;
    unchanged(&y, &ui)?;
    // a structured factor, and elements that are not finite; the sign of a zero depends on the order of summation
    let special = s.chance(1, 2);
    let tx: Tab<f64> = Tab::from(r, c, |_, _| {
        if special && s.chance(1, 6) {
            [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0][s.below(5) as usize]
        } else {
            nz(s)
        }
    });
    let d: Vec<f64> = match s.below(4) {
        0 | 1 => vec![1.0; c],
        2 => vec![[0.0, -1.0, 2.0][s.below(3) as usize]; c],
        _ => (0..c).map(|_| s.int(3) as f64).collect(),
    };
    let q = if s.chance(1, 4) { gen::perm(s, c) } else { (0..c).collect() };
    let tri = s.chance(1, 6);
    let ty: Tab<f64> = Tab::from(c, c, |i, j| if q[i] == j { d[i] } else if tri && i < j { nz(s) } else { 0.0 });
    s.label_if(d.iter().all(|x| *x == 1.0) && !tri && q.iter().enumerate().all(|(i, j)| i == *j), "times the identity");
    let left = s.bool() && r == c;
    let (p, q) = if left { (&ty, &tx) } else { (&tx, &ty) };
    let (x, y) = (p.lib(), q.lib());
    let mut z = x.clone();
    z.mmul(&y);
    let plus_zero = |m: &Matrix<f64>| m.map(&|x: &f64| if *x == 0.0 { 0.0 } else { *x });
    agree("mmul by a structured matrix", &plus_zero(&z), &plus_zero(&(&x * &y)))?;
    unchanged(&y, q)
}

/// Every shape up to 40x40 (quick) in turn: case k is shape k.
fn transpose_shapes(s: &mut Src) -> R {
    let r = gen::tail(s, 1, 40, 140);
    let c = gen::tail(s, 1, 40, 140);
    let t: Tab<i64> = Tab::from(r, c, |i, j| (i * 1000 + j) as i64);
    let mut m = t.lib();
    s.nontrivial_if(r != c && r > 1 && c > 1);
    s.note(|| format!("{}x{}", r, c));
    m.mt();
    same("mt", &m, &t.t())?;
    agree("mt", &m, &t.lib().t())?;
    m.mt();
    same("mt twice", &m, &t)
}

fn forms<T: Elem>(what: &str, ms: Vec<Matrix<T>>) -> R {
    for i in 1..ms.len() {
        agree(&format!("{} form {}", what, i), &ms[i], &ms[0])?;
    }
    Ok(())
}

fn operator_forms(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let k = s.range(1, 9);
    let (ta, tb): (Tab<Zp>, Tab<Zp>) = (Tab::make(s, r, c), Tab::make(s, r, c));
    let tc: Tab<Zp> = Tab::make(s, c, k);
    shape_labels(s, r, c);
    s.note(|| format!("{:?}, {:?}, {:?}", ta, tb, tc));
    let (a, b, d) = (ta.lib(), tb.lib(), tc.lib());
    forms("+", vec![&a + &b, a.clone() + b.clone(), a.clone() + &b, &a + b.clone()])?;
    forms("-", vec![&a - &b, a.clone() - b.clone(), a.clone() - &b, &a - b.clone()])?;
    forms("*", vec![&a * &d, a.clone() * d.clone(), a.clone() * &d, &a * d.clone()])?;
    forms("unary -", vec![-&a, -a.clone()])?;
    forms("|", vec![a.cr(&b), a.clone() | &b])?;
    forms("+ itself", vec![&a + &a, a.clone() + &a])?;
    same("after all forms", &a, &ta)?;
    same("after all forms", &b, &tb)?;
    same("after all forms", &d, &tc)?;
    // and once more over floats (single operations: bit equality)
    let (ta, tb): (Tab<f64>, Tab<f64>) = (Tab::make(s, r, c), Tab::make(s, r, c));
    let (a, b) = (ta.lib(), tb.lib());
    forms("f64 +", vec![&a + &b, a.clone() + b.clone(), a.clone() + &b, &a + b.clone()])?;
    forms("f64 -", vec![&a - &b, a.clone() - b.clone(), a.clone() - &b, &a - b.clone()])?;
    forms("f64 unary -", vec![-&a, -a.clone()])
}

fn operator_forms_nc(s: &mut Src) -> R {
    let (r, c, k) = (s.range(1, 6), s.range(1, 6), s.range(1, 6));
    let ta: Tab<Nc> = Tab::make(s, r, c);
    let tc: Tab<Nc> = Tab::make(s, c, k);
    s.nontrivial_if(r * c >= 4 && c * k >= 4);
    s.note(|| format!("{:?}, {:?}", ta, tc));
    let (a, d) = (ta.lib(), tc.lib());
    forms("*", vec![&a * &d, a.clone() * d.clone(), a.clone() * &d, &a * d.clone()])?;
    same("*", &(a.clone() * d.clone()), &ta.mul(&tc))?;
    same("after", &a, &ta)?;
    same("after", &d, &tc)
}

fn mmul_nc(s: &mut Src) -> R {
    let (r, c, k) = (s.range(1, 6), s.range(1, 6), s.range(1, 6));
    let ta: Tab<Nc> = Tab::make(s, r, c);
    let tc: Tab<Nc> = Tab::make(s, c, k);
    s.nontrivial_if(r * c >= 4 && c * k >= 4);
    s.note(|| format!("{:?}, {:?}", ta, tc));
    let mut m = ta.lib();
    m.mmul(&tc.lib());
    agree("mmul", &m, &(&ta.lib() * &tc.lib()))
}

/// Products of matrices with some dimension in the tens or hundreds, square ones included.
fn mmul_large(s: &mut Src) -> R {
    let big = |s: &mut Src| if s.chance(1, 8) { s.range(100, 300) } else { gen::tail(s, 9, 70, 140) };
    let d = [if s.bool() { s.range(1, 8) } else { big(s) }, big(s), if s.bool() { s.range(1, 8) } else { big(s) }];
    let (r, c) = (d[0], d[1]);
    let k = if s.bool() { c } else { d[2] };
    if r * c * k > 2_300_000 || (r * c * k > 400_000 && s.chance(3, 4)) {
        return discard();
    }
    let ta: Tab<Zp> = Tab::make(s, r, c);
    let tc: Tab<Zp> = Tab::make(s, c, k);
    s.nontrivial();
    s.label_if(c == k, "square right operand");
    s.label_if(r == c && c == k, "square operands");
    s.note(|| format!("{}x{} by {}x{}", r, c, c, k));
    let (a, b) = (ta.lib(), tc.lib());
    let mut m = a.clone();
    m.mmul(&b);
    same("mmul", &m, &ta.mul(&tc))?;
    agree("mmul", &m, &(&a * &b))?;
    same("argument of mmul", &b, &tc)?;
    if r == c && s.bool() {
        let mut m = a.clone();
        let n = m.clone();
        m.mmul(&n);
        agree("mmul by a copy of itself", &m, &(&a * &a))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn dims3(s: &mut Src) -> (usize, usize, usize) {
    match s.pick(&[60, 20, 8, 6, 6]) {
        0 => (s.range(1, 5), s.range(1, 5), s.range(1, 5)),
        1 => (s.range(1, 12), s.range(1, 12), s.range(1, 12)),
        2 => (s.range(1, 40), s.range(1, 40), s.range(1, 40)),
        3 => {
            // inner or outer product of long vectors
            if s.bool() {
                (1, s.range(1, 300), 1)
            } else {
                (s.range(1, 60), 1, s.range(1, 60))
            }
        }
        _ => {
            let v = [s.range(1, 3), s.range(1, 150), s.range(1, 3)];
            let p = gen::perm(s, 3);
            (v[p[0]], v[p[1]], v[p[2]])
        }
    }
}

fn labels3(s: &mut Src, d: (usize, usize, usize)) {
    let (m, k, n) = d;
    s.nontrivial_if(m * k >= 4 && k * n >= 4 && !(m == k && k == n));
    s.label_if(m == 1 || n == 1, "vector operand");
    s.label_if(k == 1, "outer product");
    s.label_if(m * k * n > 4096, "large product");
}

/// Products with several dimensions in the tens or hundreds, over elements whose arithmetic is
/// exact: the field, machine integers, and floats that hold small integers.
fn product_large(s: &mut Src) -> R {
    let one = |s: &mut Src| match s.below(8) {
        0 => s.range(100, 300),
        1 => s.range(1, 8),
        _ => gen::tail(s, 9, 70, 140),
    };
    let (m, k, n) = if s.chance(1, 3) {
        let n = gen::tail(s, 9, 70, 100);
        (n, n, n)
    } else {
        (one(s), one(s), one(s))
    };
    if m * k * n > 1_200_000 || (m * k * n > 300_000 && s.bool()) {
        return discard();
    }
    labels3(s, (m, k, n));
    s.note(|| format!("{}x{} by {}x{}", m, k, k, n));
    let kind = s.below(4);
    if kind == 0 {
        let (a, b): (Tab<Zp>, Tab<Zp>) = (Tab::make(s, m, k), Tab::make(s, k, n));
        return same("*", &(&a.lib() * &b.lib()), &a.mul(&b));
    }
    let sparse = s.bool();
    let mut ints = |r: usize, c: usize| Tab::from(r, c, |_, _| if sparse && s.chance(4, 5) { 0 } else { s.int(9) });
    let (a, b): (Tab<i64>, Tab<i64>) = (ints(m, k), ints(k, n));
    let want = a.mul(&b);
    match kind {
        1 => same("*", &(&a.lib() * &b.lib()), &want),
        2 => same("*", &(a.map(|x| x as f64).lib() * b.map(|x| x as f64).lib()), &want.map(|x| x as f64)),
        _ => same("*", &(&a.map(|x| x as f32).lib() * &b.map(|x| x as f32).lib()), &want.map(|x| x as f32)),
    }
}

/// All operations of a ring with negation and exact equality; `div` when division is exact.
fn ring<T>(s: &mut Src, d: (usize, usize, usize), div: bool) -> R
where
    T: Elem + Num + Neg<Output = T>,
{
    let (m, k, n) = d;
    labels3(s, d);
    let a: Tab<T> = Tab::make(s, m, k);
    let b: Tab<T> = Tab::make(s, m, k);
    let c: Tab<T> = Tab::make(s, k, n);
    s.note(|| format!("{:?}, {:?}, {:?}", a, b, c));
    let (la, lb, lc) = (a.lib(), b.lib(), c.lib());
    same("+", &(&la + &lb), &Tab::from(m, k, |i, j| a.at(i, j) + b.at(i, j)))?;
    same("-", &(&la - &lb), &Tab::from(m, k, |i, j| a.at(i, j) - b.at(i, j)))?;
    same("unary -", &-&la, &a.map(|x| -x))?;
    let f = T::make(s);
    same("scale", &la.scale(f), &a.map(|x| f * x))?;
    same("elem_mul", &la.elem_mul(&lb), &Tab::from(m, k, |i, j| a.at(i, j) * b.at(i, j)))?;
    let inplace = |what: &str, f: &dyn Fn(&mut Matrix<T>), want: &Tab<T>| {
        let mut x = la.clone();
        f(&mut x);
        same(what, &x, want)
    };
    inplace("madd", &|x| x.madd(&lb), &Tab::from(m, k, |i, j| a.at(i, j) + b.at(i, j)))?;
    inplace("msub", &|x| x.msub(&lb), &Tab::from(m, k, |i, j| a.at(i, j) - b.at(i, j)))?;
    inplace("mneg", &|x| x.mneg(), &a.map(|x| -x))?;
    inplace("mscale", &|x| x.mscale(f), &a.map(|x| f * x))?;
    inplace("melem_mul", &|x| x.melem_mul(&lb), &Tab::from(m, k, |i, j| a.at(i, j) * b.at(i, j)))?;
    if div {
        let b1 = b.map(|x| if x.is_zero() { T::one() } else { x });
        same("elem_div", &la.elem_div(&b1.lib()), &Tab::from(m, k, |i, j| a.at(i, j) / b1.at(i, j)))?;
    }
    let want = a.mul(&c);
    same("*", &(&la * &lc), &want)?;
    let mut x = la.clone();
    x.mmul(&lc);
    same("mmul", &x, &want)?;
    same("operand", &la, &a)?;
    same("operand", &lb, &b)?;
    same("operand", &lc, &c)?;
    if m == k {
        same("square", &(&la * &la), &a.mul(&a))?;
    }
    Ok(())
}

fn arith_zp(s: &mut Src) -> R {
    let d = dims3(s);
    ring::<Zp>(s, d, true)
}
fn arith_i32(s: &mut Src) -> R {
    let d = dims3(s);
    ring::<i32>(s, d, true)
}
fn arith_rat(s: &mut Src) -> R {
    let d = (s.range(1, 6), s.range(1, 6), s.range(1, 6));
    ring::<Rat>(s, d, true)
}
fn arith_complex(s: &mut Src) -> R {
    let d = (s.range(1, 7), s.range(1, 7), s.range(1, 7));
    ring::<Cx>(s, d, false)
}
fn arith_usize(s: &mut Src) -> R {
    let d = dims3(s);
    let (m, k, n) = d;
    labels3(s, d);
    let a: Tab<usize> = Tab::from(m, k, |_, _| s.below(1000) as usize);
    let b: Tab<usize> = Tab::from(m, k, |_, _| s.below(1000) as usize);
    let c: Tab<usize> = Tab::from(k, n, |_, _| s.below(1000) as usize);
    s.note(|| format!("{:?}, {:?}, {:?}", a, b, c));
    same("+", &(&a.lib() + &b.lib()), &Tab::from(m, k, |i, j| a.at(i, j) + b.at(i, j)))?;
    let big = Tab::from(m, k, |i, j| a.at(i, j) + b.at(i, j));
    same("-", &(&big.lib() - &b.lib()), &a)?;
    same("*", &(&a.lib() * &c.lib()), &a.mul(&c))
}

fn product_nc(s: &mut Src) -> R {
    let d = (s.range(1, 7), s.range(1, 7), s.range(1, 7));
    labels3(s, d);
    let (m, k, n) = d;
    let a: Tab<Nc> = Tab::make(s, m, k);
    let b: Tab<Nc> = Tab::make(s, m, k);
    let c: Tab<Nc> = Tab::make(s, k, n);
    s.note(|| format!("{:?}, {:?}", a, c));
    same("*", &(&a.lib() * &c.lib()), &a.mul(&c))?;
    same("+", &(&a.lib() + &b.lib()), &Tab::from(m, k, |i, j| a.at(i, j) + b.at(i, j)))
}

fn arith_float<F: crate::cf::Fl + Elem>(s: &mut Src) -> R {
    let d = dims3(s);
    let (m, k, n) = d;
    labels3(s, d);
    let sp = if F::IS32 { gen::SPAN32 } else { gen::SPAN64 };
    let mk = |s: &mut Src, r, c| {
        let g = gen::plain(s, r, c, sp);
        Tab::from(r, c, |i, j| F::of(g.at(i, j)))
    };
    let (a, b, c): (Tab<F>, Tab<F>, Tab<F>) = (mk(s, m, k), mk(s, m, k), mk(s, k, n));
    s.note(|| format!("{:?}, {:?}, {:?}", a, b, c));
    let (la, lb, lc) = (a.lib(), b.lib(), c.lib());
    // one correctly rounded operation per element
    same("+", &(&la + &lb), &Tab::from(m, k, |i, j| a.at(i, j) + b.at(i, j)))?;
    same("-", &(&la - &lb), &Tab::from(m, k, |i, j| a.at(i, j) - b.at(i, j)))?;
    same("unary -", &-&la, &a.map(|x| -x))?;
    let f = F::of(s.int(9) as f64 / 4.0);
    same("scale", &la.scale(f), &a.map(|x| f * x))?;
    same("elem_mul", &la.elem_mul(&lb), &Tab::from(m, k, |i, j| a.at(i, j) * b.at(i, j)))?;
    same("elem_div", &la.elem_div(&lb), &Tab::from(m, k, |i, j| a.at(i, j) / b.at(i, j)))?;
    let inplace = |what: &str, f: &dyn Fn(&mut Matrix<F>), want: &Tab<F>| {
        let mut x = la.clone();
        f(&mut x);
        same(what, &x, want)
    };
    inplace("madd", &|x| x.madd(&lb), &Tab::from(m, k, |i, j| a.at(i, j) + b.at(i, j)))?;
    inplace("msub", &|x| x.msub(&lb), &Tab::from(m, k, |i, j| a.at(i, j) - b.at(i, j)))?;
    inplace("mneg", &|x| x.mneg(), &a.map(|x| -x))?;
    inplace("mscale", &|x| x.mscale(f), &a.map(|x| f * x))?;
    inplace("melem_mul", &|x| x.melem_mul(&lb), &Tab::from(m, k, |i, j| a.at(i, j) * b.at(i, j)))?;
    inplace("melem_div", &|x| x.melem_div(&lb), &Tab::from(m, k, |i, j| a.at(i, j) / b.at(i, j)))?;
    let p = &la * &lc;
    ensure!(p.rows() == m && p.cols() == n, "product of {}x{} and {}x{} is {}x{}", m, k, k, n, p.rows(), p.cols());
    for i in 0..m {
        for j in 0..n {
            let (mut z, mut w) = (0.0f64, 0.0f64);
            for l in 0..k {
                let t = a.at(i, l).val() * c.at(l, j).val();
                z += t;
                w += t.abs();
            }
            let tol = 2.0 * (k as f64 + 2.0) * F::EPS * w + F::MINPOS;
            let e = (p.get(i, j).val() - z).abs();
            s.stat("product error / bound", e / tol);
            ensure!(e <= tol, "product element ({}, {}) is {:?}, expected {:?} (within {:e})", i, j, p.get(i, j), z, tol);
        }
    }
    Ok(())
}

/// Signed zeros, infinities and NaN take part in arithmetic like any other float: an element of a
/// product is NaN exactly if one of its terms is NaN or two terms are opposite infinities.
fn arith_nonfinite<F: crate::cf::Fl + Elem>(s: &mut Src) -> R {
    let d = if s.chance(1, 60) {
        let n = gen::tail(s, 6, 70, 100);
        if s.bool() { (n, n, n) } else { (s.range(1, 70), n, s.range(1, 12)) }
    } else {
        (s.range(1, 5), s.range(1, 5), s.range(1, 5))
    };
    let (m, k, n) = d;
    labels3(s, d);
    let special = 1 + s.below(4);
    let el = |s: &mut Src| {
        F::of(if s.chance(special, 10) {
            [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN][s.below(5) as usize]
        } else {
            s.int(64) as f64 / 4.0
        })
    };
    let (a, b, c): (Tab<F>, Tab<F>, Tab<F>) = (Tab::from(m, k, |_, _| el(s)), Tab::from(m, k, |_, _| el(s)), Tab::from(k, n, |_, _| el(s)));
    s.note(|| format!("{:?}, {:?}, {:?}", a, b, c));
    let (la, lb, lc) = (a.lib(), b.lib(), c.lib());
    same("+", &(&la + &lb), &Tab::from(m, k, |i, j| a.at(i, j) + b.at(i, j)))?;
    same("-", &(&la - &lb), &Tab::from(m, k, |i, j| a.at(i, j) - b.at(i, j)))?;
    same("unary -", &-&la, &a.map(|x| -x))?;
    let f = el(s);
    same("scale", &la.scale(f), &a.map(|x| f * x))?;
    same("elem_mul", &la.elem_mul(&lb), &Tab::from(m, k, |i, j| a.at(i, j) * b.at(i, j)))?;
    same("elem_div", &la.elem_div(&lb), &Tab::from(m, k, |i, j| a.at(i, j) / b.at(i, j)))?;
    let inplace = |what: &str, f: &dyn Fn(&mut Matrix<F>), want: &Tab<F>| {
        let mut x = la.clone();
        f(&mut x);
        same(what, &x, want)
    };
    inplace("madd", &|x| x.madd(&lb), &Tab::from(m, k, |i, j| a.at(i, j) + b.at(i, j)))?;
    inplace("msub", &|x| x.msub(&lb), &Tab::from(m, k, |i, j| a.at(i, j) - b.at(i, j)))?;
    inplace("mneg", &|x| x.mneg(), &a.map(|x| -x))?;
    inplace("mscale", &|x| x.mscale(f), &a.map(|x| f * x))?;
    inplace("melem_mul", &|x| x.melem_mul(&lb), &Tab::from(m, k, |i, j| a.at(i, j) * b.at(i, j)))?;
    inplace("melem_div", &|x| x.melem_div(&lb), &Tab::from(m, k, |i, j| a.at(i, j) / b.at(i, j)))?;
    let p = &la * &lc;
    let mut q = la.clone();
    q.mmul(&lc);
    for (what, p) in [("product", p), ("mmul", q)] {
        ensure!(p.rows() == m && p.cols() == n, "{} of {}x{} and {}x{} is {}x{}", what, m, k, k, n, p.rows(), p.cols());
        for i in 0..m {
            for j in 0..n {
                // the finite terms are multiples of 1/16 of moderate size: their sum is exact, and no
                // order of summation overflows
                let t: Vec<f64> = (0..k).map(|l| a.at(i, l).val() * c.at(l, j).val()).collect();
                let want: f64 = t.iter().sum();
                s.label_if(want.is_nan(), "an element of the product is NaN");
                s.label_if(want.is_infinite(), "an element of the product is infinite");
                let got = p.get(i, j).val();
                ensure!(got == want || (got.is_nan() && want.is_nan()), "{} element ({}, {}) is {:?}, expected {:?}", what, i, j, got, want);
            }
        }
    }
    Ok(())
}

fn structured(s: &mut Src) -> R {
    let (r, c) = shape(s);
    let t: Tab<Zp> = Tab::make(s, r, c);
    let m = t.lib();
    shape_labels(s, r, c);
    s.note(|| format!("{:?}", t));
    same("A * I", &(&m * &Matrix::id(c, c)), &t)?;
    same("I * A", &(&Matrix::id(r, r) * &m), &t)?;
    same("A * 0", &(&m * &Matrix::zero(c, 2)), &Tab::from(r, 2, |_, _| Zp::zero()))?;
    let ones = &m * &Matrix::one_vector(c);
    same("row sums", &ones, &Tab::from(r, 1, |i, _| t.rows[i].iter().fold(Zp::zero(), |a, x| a + *x)))?;
    let d: Vec<Zp> = (0..c).map(|_| zp(s)).collect();
    same("A * diag", &(&m * &Matrix::diag(d.clone())), &Tab::from(r, c, |i, j| t.at(i, j) * d[j]))?;
    let p = gen::perm(s, r);
    same("permutation matrix * A", &(&Matrix::id(r, r).permute_rows(&p) * &m), &Tab::from(r, c, |i, j| t.at(p[i], j)))?;
    // rectangular identity picks leading rows
    let k = s.range(1, 9);
    same("rectangular identity * A", &(&Matrix::id(k, r) * &m), &Tab::from(k, c, |i, j| if i < r { t.at(i, j) } else { Zp::zero() }))?;
    // (AB)' = B'A'
    let u: Tab<Zp> = Tab::make(s, c, k);
    let n = u.lib();
    ensure!((&m * &n).t() == n.t() * m.t(), "(AB)' differs from B'A'");
    Ok(())
}

#[allow(dead_code)]
fn _bounds<T: Add<Output = T> + Mul<Output = T> + Zero + Copy + Debug>() {}
