//! Reference definitions, written from the mathematics: dense transforms,
//! boundary-condition-derived basis functions, exact derivative operators.
use crate::any::{Kind, C64};
use std::f64::consts::PI;

pub fn c(re: f64) -> C64 {
    C64::new(re, 0.)
}
pub const ZERO: C64 = C64 { re: 0., im: 0. };

/// -cos(pi k/(n-1)), in the form that is exactly antisymmetric
pub fn cheb_nodes(n: usize) -> Vec<f64> {
    let m = (n - 1) as f64;
    (0..n)
        .map(|k| (PI * (2. * k as f64 - m) / (2. * m)).sin())
        .collect()
}
pub fn fourier_nodes(n: usize) -> Vec<f64> {
    (0..n).map(|k| 2. * PI * k as f64 / n as f64).collect()
}

/// cos(pi r/(n-1)) for r in 0..2(n-1)
pub fn cos_tab(n: usize) -> Vec<f64> {
    let m = n - 1;
    (0..2 * m).map(|r| (PI * r as f64 / m as f64).cos()).collect()
}
/// T_m(x_j) on the grid x_j = -cos(pi j/(n-1))
pub fn cheb_t(tab: &[f64], m: usize, j: usize) -> f64 {
    let v = tab[(m * j) % tab.len()];
    if m % 2 == 0 {
        v
    } else {
        -v
    }
}
/// coefficients of the interpolating polynomial through (x_j, u_j)
pub fn cheb_forward(u: &[C64]) -> Vec<C64> {
    let n = u.len();
    let tab = cos_tab(n);
    let nn = (n - 1) as f64;
    let cb = |i: usize| if i == 0 || i == n - 1 { 2. } else { 1. };
    (0..n)
        .map(|m| {
            let mut s = ZERO;
            for (j, uj) in u.iter().enumerate() {
                s += uj * (cheb_t(&tab, m, j) / cb(j));
            }
            s * (2. / (nn * cb(m)))
        })
        .collect()
}
/// values of sum_m a_m T_m on the grid
pub fn cheb_backward(a: &[C64]) -> Vec<C64> {
    let n = a.len();
    let tab = cos_tab(n);
    (0..n)
        .map(|j| {
            let mut s = ZERO;
            for (m, am) in a.iter().enumerate() {
                s += am * cheb_t(&tab, m, j);
            }
            s
        })
        .collect()
}

fn exp_tab(n: usize) -> Vec<C64> {
    (0..n)
        .map(|r| {
            let t = 2. * PI * r as f64 / n as f64;
            C64::new(t.cos(), t.sin())
        })
        .collect()
}
/// sum_j u_j exp(-2 pi i j k/n), k < len
pub fn dft(u: &[C64], len: usize) -> Vec<C64> {
    let n = u.len();
    let t = exp_tab(n);
    (0..len)
        .map(|k| {
            let mut s = ZERO;
            for (j, uj) in u.iter().enumerate() {
                s += uj * t[(j * k) % n].conj();
            }
            s
        })
        .collect()
}
/// 1/n sum_k c_k exp(2 pi i j k/n)
pub fn idft(ck: &[C64]) -> Vec<C64> {
    let n = ck.len();
    let t = exp_tab(n);
    (0..n)
        .map(|j| {
            let mut s = ZERO;
            for (k, x) in ck.iter().enumerate() {
                s += x * t[(j * k) % n];
            }
            s / n as f64
        })
        .collect()
}
/// single outputs of the sums above, for sizes where the whole is too dear;
/// the sign selects the direction (no 1/n factor)
pub fn dft_at(u: &[C64], at: &[usize], sign: f64) -> Vec<(usize, C64)> {
    let n = u.len();
    let t = exp_tab(n);
    at.iter()
        .map(|&k| {
            let mut s = ZERO;
            for (j, uj) in u.iter().enumerate() {
                let w = t[(j * k) % n];
                s += uj * C64::new(w.re, sign * w.im);
            }
            (k, s)
        })
        .collect()
}
pub fn cheb_forward_at(u: &[C64], at: &[usize]) -> Vec<(usize, C64)> {
    let n = u.len();
    let tab = cos_tab(n);
    let cb = |i: usize| if i == 0 || i == n - 1 { 2. } else { 1. };
    at.iter()
        .map(|&m| {
            let mut s = ZERO;
            for (j, uj) in u.iter().enumerate() {
                s += uj * (cheb_t(&tab, m, j) / cb(j));
            }
            (m, s * (2. / ((n - 1) as f64 * cb(m))))
        })
        .collect()
}
pub fn cheb_backward_at(a: &[C64], at: &[usize]) -> Vec<(usize, C64)> {
    let tab = cos_tab(a.len());
    at.iter()
        .map(|&j| {
            let mut s = ZERO;
            for (m, am) in a.iter().enumerate() {
                s += am * cheb_t(&tab, m, j);
            }
            (j, s)
        })
        .collect()
}
/// full Hermitian spectrum from the half spectrum of a real field of n points;
/// the mean and (n even) the Nyquist coefficient count with their real part
pub fn hermitian(half: &[C64], n: usize) -> Vec<C64> {
    let mut full = vec![ZERO; n];
    full[0] = c(half[0].re);
    for k in 1..half.len() {
        if 2 * k == n {
            full[k] = c(half[k].re);
        } else {
            full[k] = half[k];
            full[n - k] = half[k].conj();
        }
    }
    full
}

/// signed wavenumbers in storage order
pub fn wavenumbers(k: Kind, n: usize) -> Vec<f64> {
    match k {
        Kind::R2c => (0..=n / 2).map(|x| x as f64).collect(),
        _ => (0..n)
            .map(|i| {
                if 2 * i < n {
                    i as f64
                } else {
                    i as f64 - n as f64
                }
            })
            .collect(),
    }
}
/// (i k)^d
pub fn ik_pow(k: f64, d: usize) -> C64 {
    let m = k.powi(d as i32);
    match d % 4 {
        0 => C64::new(m, 0.),
        1 => C64::new(0., m),
        2 => C64::new(-m, 0.),
        _ => C64::new(0., -m),
    }
}

// ------------------------------------------------------------ basis functions

/// T_m(+1), T_m'(+1), 3*T_m''(+1) as integers
fn end_values(m: i128) -> [i128; 3] {
    [1, m * m, m * m * (m * m - 1)]
}
/// Chebyshev coefficients of composite basis function k: (offset, value),
/// determined from the boundary conditions alone with leading coefficient 1
pub fn basis(kind: Kind, k: usize) -> Vec<(usize, f64)> {
    let e = |o: usize| end_values((k + o) as i128);
    let q = |a: i128, b: i128| a as f64 / b as f64;
    match kind {
        Kind::Cheb => vec![(0, 1.)],
        // even/odd parity is kept, so conditions at +1 imply those at -1
        Kind::Dir => vec![(0, 1.), (2, q(-e(0)[0], e(2)[0]))],
        Kind::Neu => vec![(0, 1.), (2, q(-e(0)[1], e(2)[1]))],
        // u(-1) = 0: 1 - a + b = 0 ; u'(1) = 0
        Kind::DirNeu => {
            let (f0, f1, f2) = (e(0)[1], e(1)[1], e(2)[1]);
            let b = -(f0 + f1);
            let d = f1 + f2;
            vec![(0, 1.), (1, q(d + b, d)), (2, q(b, d))]
        }
        // u(1) = 0: 1 + a + b = 0 ; f(k) + a f(k+2) + b f(k+4) = 0
        Kind::BihA | Kind::BihB => {
            let w = if kind == Kind::BihA { 1 } else { 2 };
            let (f0, f2, f4) = (e(0)[w], e(2)[w], e(4)[w]);
            let b = f2 - f0;
            let d = f4 - f2;
            vec![(0, 1.), (2, q(-(d + b), d)), (4, q(b, d))]
        }
        _ => unreachable!(),
    }
}

pub struct Stencil {
    pub n: usize,
    pub m: usize,
    pub cols: Vec<Vec<(usize, f64)>>,
}
impl Stencil {
    pub fn new(kind: Kind, n: usize) -> Stencil {
        let m = kind.len_spec(n);
        Stencil {
            n,
            m,
            cols: (0..m)
                .map(|k| basis(kind, k).into_iter().map(|(o, v)| (k + o, v)).collect())
                .collect(),
        }
    }
    /// S v
    pub fn dot(&self, v: &[C64]) -> Vec<C64> {
        let mut u = vec![ZERO; self.n];
        for (k, col) in self.cols.iter().enumerate() {
            for (i, s) in col {
                u[*i] += v[k] * s;
            }
        }
        u
    }
    pub fn dot_abs(&self, v: &[f64]) -> Vec<f64> {
        let mut u = vec![0.; self.n];
        for (k, col) in self.cols.iter().enumerate() {
            for (i, s) in col {
                u[*i] += v[k] * s.abs();
            }
        }
        u
    }
    /// S^T u
    pub fn tdot(&self, u: &[C64]) -> Vec<C64> {
        self.cols
            .iter()
            .map(|col| col.iter().map(|(i, s)| u[*i] * s).sum())
            .collect()
    }
    pub fn tdot_abs(&self, u: &[f64]) -> Vec<f64> {
        self.cols
            .iter()
            .map(|col| col.iter().map(|(i, s)| u[*i] * s.abs()).sum())
            .collect()
    }
}

pub fn abs(v: &[C64]) -> Vec<f64> {
    v.iter().map(|x| x.norm()).collect()
}
pub fn norm2(v: &[C64]) -> f64 {
    let m = v.iter().map(|x| x.norm()).fold(0., f64::max);
    if m == 0. || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| (x / m).norm_sqr()).sum::<f64>().sqrt()
}
pub fn norm_inf(v: &[C64]) -> f64 {
    v.iter().map(|x| x.norm()).fold(0., f64::max)
}

// ------------------------------------------------------------ derivatives

/// one differentiation of a Chebyshev series:
/// T_q' = sum over p<q with p+q odd of 2q T_p (p>0), q T_0 (p=0)
pub fn cheb_diff<T>(a: &[T]) -> Vec<T>
where
    T: Copy + std::ops::Add<Output = T> + std::ops::Mul<f64, Output = T> + Zeroish,
{
    let n = a.len();
    let mut b = vec![T::zeroish(); n];
    // suffix sums of 2 q a_q by parity
    let mut s = [T::zeroish(); 2];
    for p in (0..n).rev() {
        // terms q = p+1, p+3, ... have parity of p+1
        b[p] = s[(p + 1) % 2];
        s[p % 2] = s[p % 2] + a[p] * (2. * p as f64);
    }
    if n > 0 {
        b[0] = b[0] * 0.5;
    }
    b
}
pub trait Zeroish {
    fn zeroish() -> Self;
}
impl Zeroish for f64 {
    fn zeroish() -> f64 {
        0.
    }
}
impl Zeroish for C64 {
    fn zeroish() -> C64 {
        ZERO
    }
}
pub fn cheb_diff_n(a: &[C64], d: usize) -> Vec<C64> {
    let mut v = a.to_vec();
    for _ in 0..d {
        v = cheb_diff(&v);
    }
    v
}
pub fn cheb_diff_abs(a: &[f64], d: usize) -> Vec<f64> {
    let mut v = a.to_vec();
    for _ in 0..d {
        v = cheb_diff(&v);
    }
    v
}
/// exact integer coefficients of the d-th derivative of T_q
pub fn cheb_diff_exact(q: usize, d: usize) -> Vec<i128> {
    let mut a = vec![0i128; q + 1];
    a[q] = 1;
    for _ in 0..d {
        let n = a.len();
        let mut b = vec![0i128; n];
        let mut s = [0i128; 2];
        for p in (0..n).rev() {
            b[p] = if p == 0 { s[1] / 2 } else { s[(p + 1) % 2] };
            s[p % 2] += 2 * p as i128 * a[p];
        }
        a = b;
    }
    a
}
/// coefficients (index >= d) of the polynomial whose d-th derivative is T_j,
/// as (row, value)
pub fn cheb_antideriv(j: usize, d: usize) -> Vec<(usize, f64)> {
    let mut a = vec![0f64; j + 1];
    a[j] = 1.;
    for _ in 0..d {
        let mut b = vec![0f64; a.len() + 1];
        for (q, x) in a.iter().enumerate() {
            match q {
                0 => b[1] += x,
                1 => b[2] += x / 4.,
                _ => {
                    b[q + 1] += x / (2. * (q + 1) as f64);
                    b[q - 1] -= x / (2. * (q - 1) as f64);
                }
            }
        }
        a = b;
    }
    a.into_iter()
        .enumerate()
        .filter(|(i, x)| *i >= d && *x != 0.)
        .collect()
}
