//! The reference model of a matrix: a table of rows.  Nothing here calls the library except
//! `lib` (build) and `same` (observe through every public accessor).

use crate::engine::{fail, Bad, Src, R};
use crate::gen;
use la::Matrix;
use num::Zero;
use std::fmt::Debug;

/// Element types used for structural checks: anything `Copy`.
pub trait Elem: Copy + Debug + Send + 'static {
    fn make(s: &mut Src) -> Self;
    /// Identity of representation (bit equality for floats).
    fn same(&self, o: &Self) -> bool;
}
macro_rules! eq_elem {
    ($t:ty, $s:ident => $e:expr) => {
        impl Elem for $t {
            fn make($s: &mut Src) -> $t {
                $e
            }
            fn same(&self, o: &$t) -> bool {
                self == o
            }
        }
    };
}
eq_elem!(crate::rat::Zp, s => crate::rat::Zp::of(s.int(1_000_000)));
eq_elem!(i64, s => if s.chance(1, 20) { i64::MIN + s.below(3) as i64 } else { s.int(1_000_000_000) });
eq_elem!(u8, s => s.below(256) as u8);
eq_elem!(usize, s => s.below(1 << 40) as usize);
eq_elem!(bool, s => s.bool());
eq_elem!(char, s => char::from_u32(97 + s.below(26) as u32).unwrap());
eq_elem!((u16, i8, bool), s => (s.below(60_000) as u16, s.int(100) as i8, s.bool()));
eq_elem!([u32; 5], s => { let v = s.below(1 << 30) as u32; [v, v ^ 7, !v, 3, v / 2] });
/// 600 characters, without a repeating pattern that is short.
static LONG: [u8; 600] = {
    let mut v = [0u8; 600];
    let mut x = 7u32;
    let mut i = 0;
    while i < 600 {
        x = x.wrapping_mul(1103515245).wrapping_add(12345);
        v[i] = b'a' + (x >> 16) as u8 % 26;
        i += 1;
    }
    v
};
eq_elem!(&'static str, s => {
    if s.chance(1, 60) {
        let n = if s.bool() { s.range(17, 100) } else { s.range(17, 300) };
        let k = s.range(0, 300);
        std::str::from_utf8(&LONG[k..k + n]).unwrap()
    } else {
        ["", "a", "bb", "ccc", "é", "x y", "long string here"][s.below(7) as usize]
    }
});
eq_elem!((), _s => ());
impl Elem for f64 {
    fn make(s: &mut Src) -> f64 {
        match s.pick(&[50, 20, 5, 5, 5, 5, 5, 5]) {
            0 => s.int(100) as f64,
            1 => s.unit() * 2.0 - 1.0,
            2 => -0.0,
            3 => f64::NAN,
            4 => f64::INFINITY,
            5 => f64::NEG_INFINITY,
            6 => f64::from_bits(1 + s.below(1 << 20)),
            _ => 1e300 * s.unit(),
        }
    }
    fn same(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
    }
}
impl Elem for f32 {
    fn make(s: &mut Src) -> f32 {
        if s.chance(1, 12) {
            [f32::NAN, -0.0, f32::INFINITY, f32::MIN_POSITIVE][s.below(4) as usize]
        } else {
            s.int(1000) as f32 / 8.0
        }
    }
    fn same(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
    }
}

#[derive(Clone)]
pub struct Tab<T> {
    pub r: usize,
    pub c: usize,
    pub rows: Vec<Vec<T>>,
}

impl<T: Debug> Debug for Tab<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.r * self.c > 60 {
            return write!(f, "{}x{}", self.r, self.c);
        }
        write!(f, "{}x{} {:?}", self.r, self.c, self.rows)
    }
}

impl<T: Copy> Tab<T> {
    pub fn from<F: FnMut(usize, usize) -> T>(r: usize, c: usize, mut f: F) -> Tab<T> {
        Tab { r, c, rows: (0..r).map(|i| (0..c).map(|j| f(i, j)).collect()).collect() }
    }
    pub fn flat(&self) -> Vec<T> {
        self.rows.iter().flat_map(|r| r.iter().copied()).collect()
    }
    pub fn lib(&self) -> Matrix<T> {
        Matrix::new(self.r, self.c, self.flat())
    }
    pub fn at(&self, i: usize, j: usize) -> T {
        self.rows[i][j]
    }
    pub fn map<S: Copy, F: FnMut(T) -> S>(&self, mut f: F) -> Tab<S> {
        Tab { r: self.r, c: self.c, rows: self.rows.iter().map(|r| r.iter().map(|x| f(*x)).collect()).collect() }
    }
    pub fn t(&self) -> Tab<T> {
        Tab::from(self.c, self.r, |i, j| self.rows[j][i])
    }
}
impl<T: Copy + Zero + std::ops::Mul<Output = T>> Tab<T> {
    pub fn mul(&self, o: &Tab<T>) -> Tab<T> {
        Tab::from(self.r, o.c, |i, j| {
            let mut z = T::zero();
            for k in 0..self.c {
                z = z + self.rows[i][k] * o.rows[k][j];
            }
            z
        })
    }
}
impl<T: Elem> Tab<T> {
    pub fn make(s: &mut Src, r: usize, c: usize) -> Tab<T> {
        Tab::from(r, c, |_, _| T::make(s))
    }
}

/// Observe a library matrix through every read accessor and compare with the model.
pub fn same<T: Elem>(what: &str, m: &Matrix<T>, w: &Tab<T>) -> R {
    if m.rows() != w.r {
        return fail(format!("{}: rows() is {}, expected {}", what, m.rows(), w.r));
    }
    if m.get_data().len() != w.r * w.c {
        return fail(format!("{}: {} elements, expected {}x{}", what, m.get_data().len(), w.r, w.c));
    }
    if m.cols() != w.c {
        return fail(format!("{}: cols() is {}, expected {}", what, m.cols(), w.c));
    }
    let d = m.get_data();
    for i in 0..w.r {
        for j in 0..w.c {
            let e = &w.rows[i][j];
            let got = m.get(i, j);
            if !got.same(e) {
                return fail(format!("{}: element ({}, {}) is {:?}, expected {:?}", what, i, j, got, e));
            }
            if !m.get_ref(i, j).same(e) || !m[(i, j)].same(e) || !d[i * w.c + j].same(e) {
                return fail(format!("{}: accessors disagree at ({}, {}): get {:?}, get_ref {:?}, index {:?}, data {:?}, expected {:?}", what, i, j, got, m.get_ref(i, j), m[(i, j)], d[i * w.c + j], e));
            }
        }
    }
    Ok(())
}

/// A shape, mostly small, sometimes long and thin or large.
pub fn shape(s: &mut Src) -> (usize, usize) {
    if s.chance(1, 400) {
        // sizes at which code that works in blocks takes another path
        return match s.below(4) {
            0 => (s.range(1, 4), s.range(300, 1500)),
            1 => (s.range(300, 1500), s.range(1, 4)),
            2 => {
                let n = gen::tail(s, 60, 70, 140);
                (n, n)
            }
            _ => (gen::tail(s, 1, 70, 140), gen::tail(s, 30, 70, 140)),
        };
    }
    match s.pick(&[50, 25, 12, 6, 4, 3]) {
        0 => (s.range(1, 5), s.range(1, 5)),
        1 => (s.range(1, 9), s.range(1, 9)),
        2 => (s.range(1, 24), s.range(1, 24)),
        3 => {
            if s.bool() {
                (1, s.range(1, 80))
            } else {
                (s.range(1, 80), 1)
            }
        }
        4 => (s.range(1, 70), s.range(1, 70)),
        _ => {
            let (a, b) = (s.range(1, 4), s.range(1, 300));
            if s.bool() {
                (a, b)
            } else {
                (b, a)
            }
        }
    }
}

pub fn shape_labels(s: &mut Src, r: usize, c: usize) {
    s.label(match (r, c) {
        (1, 1) => "1x1",
        (1, _) => "row",
        (_, 1) => "column",
        _ if r == c => "square",
        _ if r > c => "tall",
        _ => "wide",
    });
    s.label_if(r * c > 256, "more than 256 elements");
    s.nontrivial_if(r * c >= 4 && r != c);
}

pub fn bad<T>(r: Result<(), T>) -> Result<(), Bad> {
    r.map_err(|_| Bad::Discard)
}
