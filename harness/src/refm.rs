//! Plain dense reference matrices in f64, used by the oracles. Nothing here calls the library.

use crate::cf::Fl;
use la::Matrix;

#[derive(Clone, PartialEq)]
pub struct D {
    pub r: usize,
    pub c: usize,
    pub d: Vec<f64>,
}

impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}x{}[", self.r, self.c)?;
        for i in 0..self.r {
            if i > 0 {
                write!(f, "; ")?;
            }
            for j in 0..self.c {
                if j > 0 {
                    write!(f, ", ")?;
                }
                write!(f, "{:?}", self.at(i, j))?;
            }
        }
        write!(f, "]")
    }
}

impl D {
    pub fn new(r: usize, c: usize, d: Vec<f64>) -> D {
        assert_eq!(r * c, d.len());
        D { r, c, d }
    }
    pub fn zero(r: usize, c: usize) -> D {
        D { r, c, d: vec![0.0; r * c] }
    }
    pub fn id(n: usize) -> D {
        D::from(n, n, |i, j| if i == j { 1.0 } else { 0.0 })
    }
    pub fn from<F: FnMut(usize, usize) -> f64>(r: usize, c: usize, mut f: F) -> D {
        let mut d = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                d.push(f(i, j));
            }
        }
        D { r, c, d }
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.d[i * self.c + j]
    }
    #[inline]
    pub fn put(&mut self, i: usize, j: usize, v: f64) {
        self.d[i * self.c + j] = v
    }
    pub fn t(&self) -> D {
        D::from(self.c, self.r, |i, j| self.at(j, i))
    }
    pub fn mul(&self, o: &D) -> D {
        assert_eq!(self.c, o.r);
        let mut z = D::zero(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let a = self.at(i, k);
                for j in 0..o.c {
                    z.d[i * o.c + j] += a * o.at(k, j);
                }
            }
        }
        z
    }
    pub fn abs(&self) -> D {
        D { r: self.r, c: self.c, d: self.d.iter().map(|x| x.abs()).collect() }
    }
    pub fn sub(&self, o: &D) -> D {
        assert_eq!((self.r, self.c), (o.r, o.c));
        D { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| a - b).collect() }
    }
    pub fn add(&self, o: &D) -> D {
        assert_eq!((self.r, self.c), (o.r, o.c));
        D { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| a + b).collect() }
    }
    pub fn scale(&self, k: f64) -> D {
        D { r: self.r, c: self.c, d: self.d.iter().map(|a| a * k).collect() }
    }
    pub fn fro(&self) -> f64 {
        norm(&self.d)
    }
    pub fn max(&self) -> f64 {
        self.d.iter().fold(0.0, |m, x| if x.abs() > m || x.is_nan() { x.abs() } else { m })
    }
    pub fn col(&self, j: usize) -> Vec<f64> {
        (0..self.r).map(|i| self.at(i, j)).collect()
    }
    pub fn rows_of(&self, p: &[usize]) -> D {
        D::from(p.len(), self.c, |i, j| self.at(p[i], j))
    }
    pub fn finite(&self) -> bool {
        self.d.iter().all(|x| x.is_finite())
    }
    pub fn is_zero(&self) -> bool {
        self.d.iter().all(|x| *x == 0.0)
    }
    /// The library matrix with these elements (rounded to F).
    pub fn lib<F: Fl>(&self) -> Matrix<F> {
        Matrix::new(self.r, self.c, self.d.iter().map(|x| F::of(*x)).collect())
    }
    /// Read a library matrix back through its public accessors.
    pub fn of<F: Fl>(m: &Matrix<F>) -> D {
        D { r: m.rows(), c: m.cols(), d: m.get_data().iter().map(|x| x.val()).collect() }
    }
    /// Round every element to F.
    pub fn round<F: Fl>(&self) -> D {
        D { r: self.r, c: self.c, d: self.d.iter().map(|x| F::of(*x).val()).collect() }
    }
}

/// 2-norm without avoidable over/underflow. NaN/inf propagate.
pub fn norm(v: &[f64]) -> f64 {
    let mut m = 0.0f64;
    for x in v {
        if x.is_nan() {
            return f64::NAN;
        }
        m = m.max(x.abs());
    }
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    let mut s = 0.0;
    for x in v {
        let y = x / m;
        s += y * y;
    }
    m * s.sqrt()
}

/// Exact determinant of a small integer matrix (fraction-free elimination); None on overflow.
pub fn idet(n: usize, a: &[i64]) -> Option<i128> {
    let mut m: Vec<i128> = a.iter().map(|x| *x as i128).collect();
    let mut prev: i128 = 1;
    let mut sign = 1;
    for k in 0..n {
        if m[k * n + k] == 0 {
            match (k + 1..n).find(|&i| m[i * n + k] != 0) {
                None => return Some(0),
                Some(i) => {
                    for j in 0..n {
                        m.swap(k * n + j, i * n + j);
                    }
                    sign = -sign;
                }
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                let v = m[i * n + j].checked_mul(m[k * n + k])?.checked_sub(m[i * n + k].checked_mul(m[k * n + j])?)?;
                m[i * n + j] = v / prev;
            }
        }
        prev = m[k * n + k];
    }
    Some(sign * m[n * n - 1])
}

/// Rank of a small integer matrix over the rationals (mod a large prime: never above the true rank,
/// equal to it unless the prime divides a minor).
pub fn irank(r: usize, c: usize, a: &[i64]) -> usize {
    use crate::rat::Zp;
    let mut m: Vec<Zp> = a.iter().map(|x| Zp::of(*x)).collect();
    let mut rank = 0;
    for j in 0..c {
        let p = match (rank..r).find(|&i| m[i * c + j].0 != 0) {
            None => continue,
            Some(p) => p,
        };
        for k in 0..c {
            m.swap(p * c + k, rank * c + k);
        }
        let inv = m[rank * c + j].inv();
        for i in rank + 1..r {
            let f = m[i * c + j] * inv;
            if f.0 != 0 {
                for k in j..c {
                    m[i * c + k] = m[i * c + k] - f * m[rank * c + k];
                }
            }
        }
        rank += 1;
        if rank == r {
            break;
        }
    }
    rank
}

/// Own LU with partial pivoting (reference for error bounds): (perm, L, U) with A(perm,:) = LU.
pub fn rlu(a: &D) -> (Vec<usize>, D, D) {
    let (m, n) = (a.r, a.c);
    let k = m.min(n);
    let mut w = a.clone();
    let mut p: Vec<usize> = (0..m).collect();
    for j in 0..k {
        let mut q = j;
        for i in j + 1..m {
            if w.at(i, j).abs() > w.at(q, j).abs() {
                q = i;
            }
        }
        if q != j {
            for l in 0..n {
                w.d.swap(q * n + l, j * n + l);
            }
            p.swap(q, j);
        }
        let piv = w.at(j, j);
        if piv != 0.0 {
            for i in j + 1..m {
                let f = w.at(i, j) / piv;
                w.put(i, j, f);
                for l in j + 1..n {
                    let v = w.at(i, l) - f * w.at(j, l);
                    w.put(i, l, v);
                }
            }
        }
    }
    let l = D::from(m, k, |i, j| if i > j { w.at(i, j) } else if i == j { 1.0 } else { 0.0 });
    let u = D::from(k, n, |i, j| if i <= j { w.at(i, j) } else { 0.0 });
    (p, l, u)
}

/// |L||U| of the reference LU, rows back in the order of A.
pub fn lu_growth(a: &D) -> D {
    let (p, l, u) = rlu(a);
    let g = l.abs().mul(&u.abs());
    let mut o = D::zero(a.r, a.c);
    for i in 0..a.r {
        for j in 0..a.c {
            o.put(p[i], j, g.at(i, j));
        }
    }
    o
}
