//! C06: results depend only on the arguments.

use crate::alloc::{broken, filled};
use crate::cf::Fl;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::rat::Zp;
use crate::refm::D;
use la::*;

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C06",
        rule: "an operation and its arguments are drawn; it is run with freshly allocated memory holding different byte patterns (NaNs, large finite numbers, zeros, ones) after unrelated calls of other element types, in a process that has done nothing else, and on several threads at once; all results must be bit-identical, the guard bytes around every allocation intact, the arguments unmodified. Non-trivial: at least 4 elements.",
        groups: vec![
            Group { name: "container operations f64", f: cont::<f64>, quick: 30000, thorough: 1000000 },
            Group { name: "container operations f32", f: cont::<f32>, quick: 8000, thorough: 300000 },
            Group { name: "container operations integers", f: ints, quick: 15000, thorough: 500000 },
            Group { name: "decompositions f64", f: decomps::<f64>, quick: 25000, thorough: 1000000 },
            Group { name: "decompositions f32", f: decomps::<f32>, quick: 8000, thorough: 300000 },
            Group { name: "repetition and interleaving", f: repeat, quick: 6000, thorough: 200000 },
            Group { name: "after a history, and in a fresh process", f: fresh, quick: 200, thorough: 4000 },
            Group { name: "on several threads at once", f: threads, quick: 200, thorough: 4000 },
        ],
        assumptions: &["memory contents are modelled by four byte patterns per case in every block the library allocates; a read of unwritten memory shows as a difference between patterns"],
    }]
}

type Out = Vec<u64>;
fn put<F: Fl>(o: &mut Out, m: &Matrix<F>) {
    o.push(m.rows() as u64);
    o.push(m.get_data().len() as u64);
    for x in m.get_data() {
        o.push(bits(*x));
    }
}
fn bits<F: Fl>(x: F) -> u64 {
    // NaN payloads are not part of a result
    if x.val().is_nan() {
        u64::MAX
    } else {
        x.val().to_bits()
    }
}

const PATTERNS: [u64; 4] = [0, 0xFFFF_FFFF_FFFF_FFFF, 0x3FF0_0000_3F80_0000, 0x7E37_E43C_7149_F2CA];

fn across(what: &str, s: &mut Src, f: &dyn Fn() -> Result<Out, ()>) -> R {
    // a panic under one pattern must be a panic under all
    let first = s.below(4) as usize;
    let run = |p: u64| -> Option<Out> {
        let mut r = None;
        let x = refuses(|| {
            filled(p, || {
                r = f().ok();
            })
        });
        match x {
            Err(()) => r,
            Ok(()) => None,
        }
    };
    broken();
    let base = run(PATTERNS[first]);
    for k in 1..4 {
        let p = PATTERNS[(first + k) % 4];
        let o = run(p);
        if o != base {
            let pos = match (&o, &base) {
                (Some(a), Some(b)) => a.iter().zip(b).position(|(x, y)| x != y).map(|i| format!("word {}: {:x} and {:x}", i, a[i], b[i])).unwrap_or("lengths".into()),
                _ => format!("answers {} and {}", o.is_some(), base.is_some()),
            };
            return fail(format!("{} gives different results when fresh memory holds {:016x} and {:016x} ({})", what, p, PATTERNS[first], pos));
        }
    }
    let n = broken();
    ensure!(n == 0, "{} wrote outside the storage it allocated ({} blocks)", what, n);
    if base.is_none() {
        return discard();
    }
    Ok(())
}

fn cont<F: Fl>(s: &mut Src) -> R {
    let (r, c) = super::tab::shape(s);
    let sp = if F::IS32 { gen::SPAN32 } else { gen::SPAN64 };
    let d = gen::plain(s, r, c, sp);
    let e = gen::plain(s, r, c, sp);
    let k = s.range(1, 6);
    let g = gen::plain(s, c, k, sp);
    s.nontrivial_if(r * c >= 4);
    s.note(|| if r * c < 40 { format!("{:?}, {:?}, {:?}", d, e, g) } else { format!("{}x{}", r, c) });
    let (a, b, h): (Matrix<F>, Matrix<F>, Matrix<F>) = (d.lib(), e.lib(), g.lib());
    let keep = (a.clone(), b.clone(), h.clone());
    let op = s.below(34);
    let (i, j) = (s.range(0, r - 1), s.range(0, c - 1));
    let rows: Vec<usize> = (0..s.range(1, r)).map(|_| s.range(0, r - 1)).collect();
    let cols: Vec<usize> = (0..s.range(1, c)).map(|_| s.range(0, c - 1)).collect();
    let (r1, c1) = (s.range(i + 1, r), s.range(j + 1, c));
    let diag: Vec<F> = (0..r.min(c)).map(|q| a.get(q, q)).collect();
    let f = |x: &Matrix<F>| -> Result<Out, ()> {
        let mut o = Vec::new();
        put(&mut o, x);
        Ok(o)
    };
    let ip = |g: &dyn Fn(&mut Matrix<F>)| -> Result<Out, ()> {
        let mut x = a.clone();
        g(&mut x);
        f(&x)
    };
    let names = [
        "id", "zero", "diag", "block_diag", "zero_vector", "one_vector", "scale", "elem_mul", "elem_div", "mmul", "cr", "cb", "t", "mt", "minor", "sub_matrix", "get_column", "permute_rows", "permute_columns", "filter_rows", "filter_columns", "-", "+", "- (binary)", "*", "map", "reduce", "norms", "mneg/mscale", "madd/msub", "melem", "debug text", "predicates", "clone",
    ];
    let what = names[op as usize];
    s.label(what);
    across(what, s, &|| match op {
        0 => f(&Matrix::id(r, c)),
        1 => f(&Matrix::zero(r, c)),
        2 => f(&Matrix::diag(diag.clone())),
        3 => f(&Matrix::block_diag(r, c, diag.clone())),
        4 => f(&Matrix::zero_vector(r)),
        5 => f(&Matrix::one_vector(r)),
        6 => f(&a.scale(F::of(2.5))),
        7 => f(&a.elem_mul(&b)),
        8 => f(&a.elem_div(&b)),
        9 => ip(&|x| x.mmul(&h)),
        10 => f(&a.cr(&b)),
        11 => f(&a.cb(&b)),
        12 => f(&a.t()),
        13 => ip(&|x| x.mt()),
        14 => {
            if r < 2 || c < 2 {
                Err(())
            } else {
                f(&a.minor(i, j))
            }
        }
        15 => f(&a.sub_matrix(i, j, r1, c1)),
        16 => f(&a.get_column(j)),
        17 => f(&a.permute_rows(&rows)),
        18 => f(&a.permute_columns(&cols)),
        19 => f(&a.filter_rows(&|_, q| q == i || q % 2 == 0)),
        20 => f(&a.filter_columns(&|_, q| q == j || q % 2 == 0)),
        21 => f(&-&a),
        22 => f(&(&a + &b)),
        23 => f(&(&a - &b)),
        24 => f(&(&a * &h)),
        25 => f(&a.map(&|x: &F| *x + *x)),
        26 => f(&a.reduce(&vec![F::of(0.0); c], &|x: &F, y: &F| *x + *y)),
        27 => {
            let v = a.get_column(j);
            Ok(vec![bits(v.vector_1_norm()), bits(v.vector_2_norm()), bits(v.vector_inf_norm()), bits(v.vector_p_norm(F::of(3.0))), bits(a.frobenius_norm()), bits(a.trace())])
        }
        28 => ip(&|x| {
            x.mneg();
            x.mscale(F::of(3.0))
        }),
        29 => ip(&|x| {
            x.madd(&b);
            x.msub(&b)
        }),
        30 => ip(&|x| {
            x.melem_mul(&b);
            x.melem_div(&b)
        }),
        31 => Ok(format!("{:?}", a).bytes().map(|x| x as u64).collect()),
        32 => Ok(vec![a.is_symmetric() as u64, a.approx_eq(&b) as u64, (a == b) as u64]),
        _ => f(&a.clone()),
    })?;
    ensure!(a == keep.0 && b == keep.1 && h == keep.2, "{} modified an argument passed by reference", what);
    Ok(())
}

fn ints(s: &mut Src) -> R {
    let (r, c) = super::tab::shape(s);
    let a: Matrix<Zp> = super::tab::Tab::from(r, c, |_, _| Zp::of(s.int(1000))).lib();
    let k = s.range(1, 6);
    let b: Matrix<Zp> = super::tab::Tab::from(c, k, |_, _| Zp::of(s.int(1000))).lib();
    let bytes: Matrix<u8> = a.map(&|x: &Zp| x.0 as u8);
    s.nontrivial_if(r * c >= 4);
    s.note(|| if r * c < 40 { format!("{:?} {:?}", a, b) } else { format!("{}x{}", r, c) });
    let keep = a.clone();
    let op = s.below(10);
    let z = |m: &Matrix<Zp>| -> Result<Out, ()> { Ok(std::iter::once(m.rows() as u64).chain(m.get_data().iter().map(|x| x.0 as u64)).collect()) };
    let y = |m: &Matrix<u8>| -> Result<Out, ()> { Ok(std::iter::once(m.rows() as u64).chain(m.get_data().iter().map(|x| *x as u64)).collect()) };
    let p = gen::perm(s, r);
    across("integer container operation", s, &|| match op {
        0 => z(&(&a * &b)),
        1 => z(&a.t()),
        2 => {
            let mut x = a.clone();
            x.mt();
            z(&x)
        }
        3 => z(&a.permute_rows(&p)),
        4 => y(&bytes.cr(&bytes)),
        5 => y(&bytes.t().cb(&bytes.t())),
        6 => z(&Matrix::id(r, c)),
        7 => y(&Matrix::<u8>::zero(r, c)),
        8 => y(&bytes.sub_matrix(0, 0, r, c)),
        _ => {
            let mut x = a.clone();
            x.mmul(&b);
            z(&x)
        }
    })?;
    ensure!(a == keep, "an argument passed by reference was modified");
    Ok(())
}

/// Run one decomposition and write down everything it reports.
fn everything<F: Fl>(op: u64, a: &Matrix<F>, b: &Matrix<F>) -> Result<Out, ()> {
    let mut o = Vec::new();
    let opt = |o: &mut Out, m: Option<Matrix<F>>| match m {
        None => o.push(3),
        Some(m) => put(o, &m),
    };
    match op {
        0 => {
            let d = LUDecomposition::new(a);
            put(&mut o, &d.get_l());
            put(&mut o, &d.get_u());
            put(&mut o, &d.get_p());
            o.extend(d.get_piv().iter().map(|x| *x as u64));
            if a.is_square() {
                o.push(bits(d.det()));
                o.push(d.is_singular() as u64);
                opt(&mut o, d.solve(b));
            }
        }
        1 => {
            let d = QRDecomposition::new(a);
            put(&mut o, &d.get_q());
            put(&mut o, &d.get_r());
            put(&mut o, &d.get_h());
            o.push(d.is_full_rank() as u64);
            opt(&mut o, d.solve(b));
        }
        2 => match CholeskyDecomposition::new(a) {
            None => o.push(9),
            Some(d) => {
                put(&mut o, d.get_l());
                put(&mut o, &d.solve(b));
            }
        },
        3 => {
            let d = EigenDecomposition::new(a);
            put(&mut o, d.get_v());
            put(&mut o, &d.get_d());
            o.extend(d.get_real_eigenvalues().iter().map(|x| bits(*x)));
            o.extend(d.get_imag_eigenvalues().iter().map(|x| bits(*x)));
        }
        4 => {
            let d = SVD::new(a);
            put(&mut o, d.get_u());
            put(&mut o, d.get_s());
            put(&mut o, d.get_v());
            o.push(d.rank() as u64);
        }
        5 => {
            let d = SVD::direct(a);
            put(&mut o, d.get_u());
            put(&mut o, d.get_s());
            put(&mut o, d.get_v());
        }
        6 => put(&mut o, &a.pinverse()),
        7 => {
            o.push(bits(a.det()));
            o.push(a.is_singular() as u64);
            opt(&mut o, a.inverse());
            opt(&mut o, a.solve(b));
        }
        8 => {
            for j in 0..a.cols() {
                let v = a.get_column(j);
                o.extend([bits(v.vector_1_norm()), bits(v.vector_2_norm()), bits(v.vector_inf_norm()), bits(v.vector_p_norm(F::of(3.0)))]);
            }
            o.extend([bits(a.frobenius_norm()), bits(a.trace()), a.is_symmetric() as u64, a.approx_eq(b) as u64]);
            put(&mut o, &(&a.t() * b));
            o.extend(format!("{:?}", a).bytes().map(|x| x as u64));
        }
        _ => unreachable!(),
    }
    Ok(o)
}

/// An operation of `everything` and arguments in its domain.
fn draw(s: &mut Src, sp: gen::Span) -> (u64, D, D) {
    let op = s.below(9);
    let n = gen::dim(s, 10);
    let m = if s.bool() { n } else { gen::dim(s, 10) };
    let a: D = match op {
        2 => {
            if s.bool() {
                let b = D::from(n, n, |_, _| s.int(3) as f64);
                let g = b.mul(&b.t());
                D::from(n, n, |i, j| g.at(i, j) + if i == j { 1.0 } else { 0.0 })
            } else {
                gen::symmetric(s, n, sp)
            }
        }
        3 => {
            if s.chance(1, 3) {
                gen::symmetric(s, n, sp)
            } else {
                gen::square(s, n, sp)
            }
        }
        5 => {
            // full rank: the direct method's domain
            if m >= n {
                gen::tall_full_rank(s, m, n)
            } else {
                gen::tall_full_rank(s, n, m).t()
            }
        }
        6 => gen::tall_full_rank(s, m.max(n), n),
        7 => gen::square(s, n, sp),
        _ => gen::general(s, m, n, sp),
    };
    let k = s.range(1, 3);
    let b = gen::plain(s, a.r, k, sp);
    (op, a, b)
}

const NAMES: [&str; 9] = ["LU", "QR", "Cholesky", "eigen", "SVD", "direct SVD", "pseudo-inverse", "det/inverse/solve", "norms, predicates and printed form"];

fn decomps<F: Fl>(s: &mut Src) -> R {
    let (op, a, b) = draw(s, if F::IS32 { gen::SPAN32 } else { gen::SPAN64 });
    s.nontrivial_if(a.r * a.c >= 4);
    let what = NAMES[op as usize];
    s.label(what);
    s.note(|| format!("{} of {:?}", what, a));
    let (la, lb): (Matrix<F>, Matrix<F>) = (a.lib(), b.lib());
    let keep = (la.clone(), lb.clone());
    across(what, s, &|| everything(op, &la, &lb))?;
    ensure!(la == keep.0 && lb == keep.1, "{} modified an argument passed by reference", what);
    Ok(())
}

/// The same call, before and after unrelated calls, gives the same answer.
fn repeat(s: &mut Src) -> R {
    let n = gen::dim(s, 8);
    let a = gen::square(s, n, gen::SPAN64);
    let b = gen::plain(s, n, 2, gen::SPAN64);
    let ops: Vec<u64> = (0..s.range(2, 6)).map(|_| [0u64, 1, 2, 3, 4, 7][s.below(6) as usize]).collect();
    s.nontrivial_if(n >= 2);
    s.note(|| format!("{:?} calls {:?}", a, ops));
    let (la, lb): (Matrix<f64>, Matrix<f64>) = (a.lib(), b.lib());
    let first: Vec<_> = ops.iter().map(|o| everything(*o, &la, &lb)).collect();
    let m = gen::dim(s, 8);
    let other = gen::square(s, m, gen::SPAN64);
    let ob = gen::plain(s, m, 1, gen::SPAN64);
    let (lo, lob): (Matrix<f64>, Matrix<f64>) = (other.lib(), ob.lib());
    for o in &ops {
        let _ = everything(*o, &lo, &lob);
    }
    let again: Vec<_> = ops.iter().rev().map(|o| everything(*o, &la, &lb)).collect();
    for (k, o) in ops.iter().enumerate() {
        ensure!(first[k] == again[ops.len() - 1 - k], "operation {} on the same matrix gave another result after unrelated calls", o);
    }
    Ok(())
}

/// One call, its element type chosen too; everything it reports, or None if it refuses.
fn draw_call(s: &mut Src) -> (bool, u64, D, D) {
    let single = s.bool();
    let (op, a, b) = draw(s, if single { gen::SPAN32 } else { gen::SPAN64 });
    (single, op, a, b)
}
fn call(c: &(bool, u64, D, D)) -> Option<Out> {
    let mut r = None;
    let x = refuses(|| {
        r = if c.0 { everything::<f32>(c.1, &c.2.lib(), &c.3.lib()) } else { everything::<f64>(c.1, &c.2.lib(), &c.3.lib()) }.ok();
    });
    match x {
        Err(()) => r,
        Ok(()) => None,
    }
}
fn digest(o: &Option<Out>) -> String {
    match o {
        None => "refused".into(),
        Some(v) => {
            let mut h = v.len() as u64;
            for w in v {
                h ^= *w;
                splitmix(&mut h);
                h = h.rotate_left(23).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            }
            format!("{:016x} of {} words", h, v.len())
        }
    }
}
/// What a process that has made no other call answers (`la-pbt once`).
pub fn once(choices: &[u64]) -> String {
    digest(&call(&draw_call(&mut Src::replay(choices, false))))
}

/// The same operation on a matrix that is easily taken for the same one: equal in shape and most
/// elements, in norm, in trace, or in every element but of the other type.
fn relative(s: &mut Src, c: &(bool, u64, D, D)) -> (bool, u64, D, D) {
    let (mut single, op, mut a, b) = c.clone();
    let (r, n) = (a.r, a.c);
    let (i, j, k, l) = (s.range(0, r - 1), s.range(0, n - 1), s.range(0, r - 1), s.range(0, n - 1));
    let same_kind = op == 2 || op == 3;
    match s.below(6) {
        0 => single = !single,
        1 => {
            let v = a.at(i, j);
            a.d[i * n + j] = -v;
            if same_kind && i != j {
                let v = a.at(j, i);
                a.d[j * n + i] = -v;
            }
        }
        2 => {
            let (v, w) = (a.at(i, j), a.at(k, l));
            a.d[i * n + j] = w;
            a.d[k * n + l] = v;
        }
        3 => {
            let v = a.at(i, j);
            a.d[i * n + j] = v * 1.5 + 1.0;
        }
        4 => a = D::from(r, n, |p, q| a.at(r - 1 - p, q)),
        _ => {
            if r == n {
                a = a.t()
            } else {
                a = D::from(r, n, |p, q| -a.at(p, q))
            }
        }
    }
    (single, op, a, b)
}

fn fresh(s: &mut Src) -> R {
    let start = s.rec.len();
    let c = draw_call(s);
    let choices: Vec<String> = s.rec[start..].iter().map(|x| x.to_string()).collect();
    s.nontrivial_if(c.2.r * c.2.c >= 4);
    s.label(NAMES[c.1 as usize]);
    let before: Vec<_> = (0..s.range(1, 5)).map(|_| if s.bool() { draw_call(s) } else { relative(s, &c) }).collect();
    s.note(|| format!("{} of {:?} ({}) after {:?}", NAMES[c.1 as usize], c.2, if c.0 { "f32" } else { "f64" }, before.iter().map(|x| (NAMES[x.1 as usize], if x.0 { "f32" } else { "f64" }, &x.2)).collect::<Vec<_>>()));
    for x in &before {
        call(x);
    }
    let here = digest(&call(&c));
    let out = std::process::Command::new(std::env::current_exe().map_err(|_| Bad::Discard)?).arg("once").args(&choices).output();
    let Ok(out) = out else { return discard() };
    if !out.status.success() {
        return discard();
    }
    let there = String::from_utf8_lossy(&out.stdout).trim().to_string();
    ensure!(here == there, "{} gives {} after other calls and {} in a fresh process", NAMES[c.1 as usize], here, there);
    Ok(())
}

fn threads(s: &mut Src) -> R {
    let mut calls = vec![draw_call(s)];
    for _ in 0..s.range(1, 3) {
        let c = if s.bool() { draw_call(s) } else { relative(s, &calls[0].clone()) };
        calls.push(c);
    }
    s.nontrivial_if(calls.iter().any(|c| c.2.r * c.2.c >= 4));
    s.note(|| format!("{:?}", calls.iter().map(|x| (NAMES[x.1 as usize], if x.0 { "f32" } else { "f64" }, &x.2)).collect::<Vec<_>>()));
    let alone: Vec<String> = calls.iter().map(|c| digest(&call(c))).collect();
    let gate = std::sync::Barrier::new(calls.len());
    let together: Vec<Vec<String>> = std::thread::scope(|t| {
        let hs: Vec<_> = calls
            .iter()
            .map(|c| {
                let gate = &gate;
                t.spawn(move || {
                    gate.wait();
                    (0..8).map(|_| digest(&call(c))).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (k, c) in calls.iter().enumerate() {
        for t in &together[k] {
            ensure!(*t == alone[k], "{} gives {} alone and {} while other threads compute", NAMES[c.1 as usize], alone[k], t);
        }
    }
    Ok(())
}
