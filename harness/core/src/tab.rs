//! Reference matrices: a plain table of numbers with textbook algorithms, written independently
//! of the code under test, plus the table generators every matrix property uses.

use crate::ensure;
use crate::pbt::Fail;
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::{Dictionary, LinearMatrix, MatrixLike, Norm};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Tab {
    pub r: usize,
    pub c: usize,
    pub v: Vec<f64>,
}

impl Tab {
    pub fn new(r: usize, c: usize) -> Tab {
        Tab { r, c, v: vec![0.0; r * c] }
    }
    pub fn eye(n: usize) -> Tab {
        let mut t = Tab::new(n, n);
        for i in 0..n {
            t.set(i, i, 1.0);
        }
        t
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.v[i * self.c + j]
    }
    pub fn set(&mut self, i: usize, j: usize, x: f64) {
        self.v[i * self.c + j] = x;
    }
    pub fn add(&mut self, i: usize, j: usize, x: f64) {
        self.v[i * self.c + j] += x;
    }
    pub fn t(&self) -> Tab {
        let mut t = Tab::new(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                t.set(j, i, self.at(i, j));
            }
        }
        t
    }
    pub fn mul(&self, o: &Tab) -> Tab {
        assert_eq!(self.c, o.r);
        let mut t = Tab::new(self.r, o.c);
        for i in 0..self.r {
            for j in 0..o.c {
                let mut s = 0.0;
                for k in 0..self.c {
                    s += self.at(i, k) * o.at(k, j);
                }
                t.set(i, j, s);
            }
        }
        t
    }
    pub fn mulv(&self, x: &[f64]) -> Vec<f64> {
        (0..self.r).map(|i| (0..self.c).map(|j| self.at(i, j) * x[j]).sum()).collect()
    }
    pub fn norm(&self) -> f64 {
        self.v.iter().map(|x| x * x).sum::<f64>().sqrt()
    }
    pub fn maxabs(&self) -> f64 {
        self.v.iter().fold(0.0, |a: f64, x| a.max(x.abs()))
    }
    /// infinity norm: greatest absolute row sum
    pub fn norm_inf(&self) -> f64 {
        (0..self.r).map(|i| (0..self.c).map(|j| self.at(i, j).abs()).sum::<f64>()).fold(0.0, f64::max)
    }
    pub fn sub(&self, o: &Tab) -> Tab {
        assert_eq!((self.r, self.c), (o.r, o.c));
        Tab { r: self.r, c: self.c, v: self.v.iter().zip(&o.v).map(|(a, b)| a - b).collect() }
    }
    pub fn scale(&self, s: f64) -> Tab {
        Tab { r: self.r, c: self.c, v: self.v.iter().map(|a| a * s).collect() }
    }
    pub fn plus(&self, o: &Tab) -> Tab {
        self.sub(&o.scale(-1.0))
    }
    pub fn linear(&self) -> LinearMatrix {
        LinearMatrix::from_flat((self.r, self.c), self.v.clone())
    }
    /// entry by entry through positional reads
    pub fn of<M: MatrixLike>(m: &M) -> Tab {
        let (r, c) = m.shape();
        let mut t = Tab::new(r, c);
        for i in 0..r {
            for j in 0..c {
                t.set(i, j, m[(i, j)]);
            }
        }
        t
    }
    pub fn select(&self, idx: &[usize]) -> Tab {
        let mut t = Tab::new(idx.len(), idx.len());
        for (a, &i) in idx.iter().enumerate() {
            for (b, &j) in idx.iter().enumerate() {
                t.set(a, b, self.at(i, j));
            }
        }
        t
    }
    pub fn cols(&self) -> Vec<Vec<f64>> {
        (0..self.c).map(|j| (0..self.r).map(|i| self.at(i, j)).collect()).collect()
    }
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn vnorm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn vdist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}

/// Gaussian elimination with complete row pivoting; None when a pivot vanishes relative to the matrix.
pub fn solve(a: &Tab, b: &[f64]) -> Option<Vec<f64>> {
    let n = a.r;
    let mut m = a.clone();
    let mut x = b.to_vec();
    let scale = a.maxabs();
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| m.at(i, k).abs().partial_cmp(&m.at(j, k).abs()).unwrap())?;
        if m.at(p, k).abs() <= 1e-14 * scale {
            return None;
        }
        if p != k {
            for j in 0..n {
                let t = m.at(k, j);
                let u = m.at(p, j);
                m.set(k, j, u);
                m.set(p, j, t);
            }
            x.swap(k, p);
        }
        for i in k + 1..n {
            let f = m.at(i, k) / m.at(k, k);
            if f != 0.0 {
                for j in k..n {
                    let u = m.at(k, j);
                    m.add(i, j, -f * u);
                }
                x[i] -= f * x[k];
            }
        }
    }
    for k in (0..n).rev() {
        let s: f64 = (k + 1..n).map(|j| m.at(k, j) * x[j]).sum();
        x[k] = (x[k] - s) / m.at(k, k);
    }
    Some(x)
}

pub fn inverse(a: &Tab) -> Option<Tab> {
    let n = a.r;
    let mut r = Tab::new(n, n);
    for j in 0..n {
        let mut e = vec![0.0; n];
        e[j] = 1.0;
        let x = solve(a, &e)?;
        for i in 0..n {
            r.set(i, j, x[i]);
        }
    }
    Some(r)
}

/// infinity-norm condition number, infinite when the elimination breaks down
pub fn cond(a: &Tab) -> f64 {
    match inverse(a) {
        Some(i) => a.norm_inf() * i.norm_inf(),
        None => f64::INFINITY,
    }
}

/// lower Cholesky factor
pub fn chol(a: &Tab) -> Option<Tab> {
    let n = a.r;
    let mut l = Tab::new(n, n);
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = (0..j).map(|k| l.at(i, k) * l.at(j, k)).sum();
            if i == j {
                let d = a.at(i, i) - s;
                if !(d > 0.0) {
                    return None;
                }
                l.set(i, i, d.sqrt());
            } else {
                l.set(i, j, (a.at(i, j) - s) / l.at(j, j));
            }
        }
    }
    Some(l)
}

/// Eigenvalues (ascending) and vectors (columns) of a symmetric matrix, by cyclic Jacobi rotations.
pub fn jacobi(a: &Tab) -> (Vec<f64>, Tab) {
    let n = a.r;
    let mut m = a.clone();
    let mut v = Tab::eye(n);
    for _ in 0..60 {
        let off: f64 = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| i != j).map(|(i, j)| m.at(i, j).powi(2)).sum();
        if off.sqrt() <= 1e-15 * m.norm() {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = m.at(p, q);
                if apq == 0.0 {
                    continue;
                }
                let th = (m.at(q, q) - m.at(p, p)) / (2.0 * apq);
                let t = if th >= 0.0 { 1.0 } else { -1.0 } / (th.abs() + (th * th + 1.0).sqrt());
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (m.at(k, p), m.at(k, q));
                    m.set(k, p, c * x - s * y);
                    m.set(k, q, s * x + c * y);
                }
                for k in 0..n {
                    let (x, y) = (m.at(p, k), m.at(q, k));
                    m.set(p, k, c * x - s * y);
                    m.set(q, k, s * x + c * y);
                }
                for k in 0..n {
                    let (x, y) = (v.at(k, p), v.at(k, q));
                    v.set(k, p, c * x - s * y);
                    v.set(k, q, s * x + c * y);
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| m.at(i, i).partial_cmp(&m.at(j, j)).unwrap());
    let vals = idx.iter().map(|&i| m.at(i, i)).collect();
    let mut vecs = Tab::new(n, n);
    for (jj, &j) in idx.iter().enumerate() {
        for i in 0..n {
            vecs.set(i, jj, v.at(i, j));
        }
    }
    (vals, vecs)
}

/// K v = l M v for symmetric positive definite M: ascending values, M-orthonormal columns.
pub fn gen_eigen(k: &Tab, m: &Tab) -> Option<(Vec<f64>, Tab)> {
    let n = k.r;
    let l = chol(m)?;
    // C = L^-1 K L^-T
    let mut x = k.clone();
    for j in 0..n {
        for i in 0..n {
            let s: f64 = (0..i).map(|p| l.at(i, p) * x.at(p, j)).sum();
            let y = (x.at(i, j) - s) / l.at(i, i);
            x.set(i, j, y);
        }
    }
    let mut c = x.t();
    for j in 0..n {
        for i in 0..n {
            let s: f64 = (0..i).map(|p| l.at(i, p) * c.at(p, j)).sum();
            let y = (c.at(i, j) - s) / l.at(i, i);
            c.set(i, j, y);
        }
    }
    for i in 0..n {
        for j in 0..i {
            let s = 0.5 * (c.at(i, j) + c.at(j, i));
            c.set(i, j, s);
            c.set(j, i, s);
        }
    }
    let (vals, z) = jacobi(&c);
    // v = L^-T z
    let mut v = z;
    for j in 0..n {
        for i in (0..n).rev() {
            let s: f64 = (i + 1..n).map(|p| l.at(p, i) * v.at(p, j)).sum();
            let y = (v.at(i, j) - s) / l.at(i, i);
            v.set(i, j, y);
        }
    }
    Some((vals, v))
}

/// Exact determinant of an integer matrix (Bareiss, fraction free).
pub fn det_exact(a: &[Vec<i64>]) -> i128 {
    let n = a.len();
    let mut m: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect();
    let mut sign = 1;
    let mut prev = 1i128;
    for k in 0..n {
        if m[k][k] == 0 {
            match (k + 1..n).find(|&i| m[i][k] != 0) {
                Some(i) => {
                    m.swap(i, k);
                    sign = -sign;
                }
                None => return 0,
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
            }
        }
        prev = m[k][k];
    }
    if n == 0 {
        1
    } else {
        sign * m[n - 1][n - 1]
    }
}

// ---------------------------------------------------------------- generators

/// numbers whose sums and products stay exact: multiples of 1/4
pub fn quarter() -> BoxedStrategy<f64> {
    prop_oneof![6 => (-12i32..=12).prop_map(|x| x as f64 / 4.0), 2 => Just(0.0), 1 => Just(1.0), 1 => (-400i32..400).prop_map(|x| x as f64)].boxed()
}

/// numbers of every size, for operations that round once at most
pub fn wide() -> BoxedStrategy<f64> {
    prop_oneof![
        12 => quarter(),
        1 => (-1.0f64..1.0, -20i32..20).prop_map(|(x, e)| x * 10f64.powi(e)),
        1 => (-1.0f64..1.0, -25i32..-10).prop_map(|(x, e)| x * 10f64.powi(e)),
        1 => prop::sample::select(vec![1e-16, -2e-16, f64::EPSILON, 1e16, -1e16, 1e-100, 0.1, 1.0 / 3.0]),
    ]
    .boxed()
}

/// general finite numbers of mixed magnitude
pub fn real() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => -1.0f64..1.0,
        2 => -100.0f64..100.0,
        1 => (-1.0f64..1.0, -3i32..4).prop_map(|(x, e)| x * 10f64.powi(e)),
        1 => (-5i32..=5).prop_map(|x| x as f64),
    ]
    .boxed()
}

pub fn table(r: usize, c: usize, cell: BoxedStrategy<f64>) -> BoxedStrategy<Tab> {
    prop::collection::vec(cell, r * c).prop_map(move |v| Tab { r, c, v }).boxed()
}

/// a table in which most cells are zero with the given percentage
pub fn sparse_table(r: usize, c: usize, zero_pct: u32, cell: BoxedStrategy<f64>) -> BoxedStrategy<Tab> {
    table(r, c, prop_oneof![zero_pct => Just(0.0), (100 - zero_pct) => cell].boxed())
}

/// off-diagonal pattern kinds of a symmetric matrix, as (row, col) pairs with col < row
pub fn sym_pattern(n: usize) -> BoxedStrategy<Vec<(usize, usize)>> {
    if n < 2 {
        return Just(vec![]).boxed();
    }
    let pair = (0..n, 0..n).prop_filter_map("distinct", |(a, b)| if a > b { Some((a, b)) } else if b > a { Some((b, a)) } else { None });
    prop_oneof![
        4 => prop::collection::vec(pair.clone(), 0..(2 * n)),
        2 => prop::collection::vec(pair, n..(3 * n)),
        2 => Just((1..n).map(|i| (i, i - 1)).collect::<Vec<_>>()),
        1 => Just((1..n).map(|i| (i, 0)).collect::<Vec<_>>()),
        1 => Just((0..n).flat_map(|i| (0..i).map(move |j| (i, j))).collect::<Vec<_>>()),
        1 => Just(vec![]),
    ]
    .prop_map(|mut v| {
        v.sort();
        v.dedup();
        v
    })
    .boxed()
}

/// Symmetric, strictly diagonally dominant; `signs` gives the sign of each diagonal entry.
pub fn dominant(n: usize, definite: bool) -> BoxedStrategy<Tab> {
    (sym_pattern(n), prop::collection::vec(0.05f64..1.0, n), prop::collection::vec(any::<bool>(), n), prop::collection::vec(-1.0f64..1.0, n * n), prop_oneof![3 => Just(1.0), 1 => Just(1e3), 1 => Just(1e-3)])
        .prop_map(move |(pat, slack, neg, vals, scale)| {
            let mut t = Tab::new(n, n);
            for (k, &(i, j)) in pat.iter().enumerate() {
                let mut x = vals[k % vals.len()];
                if x == 0.0 {
                    x = 0.5;
                }
                t.set(i, j, x * scale);
                t.set(j, i, x * scale);
            }
            for i in 0..n {
                let s: f64 = (0..n).filter(|&j| j != i).map(|j| t.at(i, j).abs()).sum();
                let d = s + slack[i] * scale;
                t.set(i, i, if !definite && neg[i] { -d } else { d });
            }
            t
        })
        .boxed()
}

pub fn dims(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![1 => Just(1usize), 1 => Just(2usize), 6 => 1..=max].boxed()
}

/// every way of reading a matrix, against the table
pub fn reads_agree<M: MatrixLike>(m: &M, t: &Tab, fixed_text: bool) -> Result<(), Fail> {
    ensure!(m.shape() == (t.r, t.c), "shape {:?}, expected {:?}", m.shape(), (t.r, t.c));
    for i in 0..t.r + 2 {
        for j in 0..t.c + 2 {
            let want = if i < t.r && j < t.c { Some(t.at(i, j)) } else { None };
            let got = m.get((i, j)).cloned();
            ensure!(got == want, "get({},{}) = {:?}, expected {:?} (shape {}x{})", i, j, got, want, t.r, t.c);
            if let Some(w) = want {
                ensure!(m[(i, j)] == w, "index ({},{}) = {}, expected {}", i, j, m[(i, j)], w);
            }
        }
    }
    ensure!(m.get((0, usize::MAX)).is_none() && m.get((usize::MAX, 0)).is_none(), "far position read");
    for i in 0..t.r {
        let want: Vec<f64> = (0..t.c).map(|j| t.at(i, j)).collect();
        let got: Vec<f64> = m.row(i).cloned().collect();
        ensure!(got == want, "row {} = {:?}, expected {:?}", i, got, want);
    }
    for j in 0..t.c {
        let want: Vec<f64> = (0..t.r).map(|i| t.at(i, j)).collect();
        let got: Vec<f64> = m.col(j).cloned().collect();
        ensure!(got == want, "col {} = {:?}, expected {:?}", j, got, want);
    }
    let want: Vec<f64> = (0..t.r.min(t.c)).map(|i| t.at(i, i)).collect();
    let got: Vec<f64> = m.diag().cloned().collect();
    ensure!(got == want, "diag = {:?}, expected {:?}", got, want);
    let got: Vec<f64> = m.flat().cloned().collect();
    ensure!(got == t.v, "flat = {:?}, expected {:?}", got, t.v);
    let want: Vec<(usize, usize)> = (0..t.r).flat_map(|i| (0..t.c).map(move |j| (i, j))).collect();
    let got: Vec<(usize, usize)> = m.indices().collect();
    ensure!(got == want, "indices = {:?}, expected {:?}", got, want);
    // the dictionary may list stored zeros, in any order
    let want: Vec<((usize, usize), f64)> = want.into_iter().map(|(i, j)| ((i, j), t.at(i, j))).filter(|x| x.1 != 0.0).collect();
    let mut got: Vec<((usize, usize), f64)> = m.nzs().filter(|x| x.1 != 0.0).collect();
    got.sort_by_key(|x| x.0);
    ensure!(got == want, "nzs = {:?}, expected {:?}", got, want);
    let (f, w) = (m.frobenius(), t.norm());
    ensure!((f - w).abs() <= 1e-12 * w || !(1e-140..1e140).contains(&w), "frobenius = {}, expected {}", f, w);
    text_matches(&m.to_string(), t, if fixed_text { 0.6e-5 } else { 1e-300 }, if fixed_text { 1e-12 } else { 0.051 })?;
    Ok(())
}

pub fn bounds(n: usize) -> BoxedStrategy<Vec<(usize, usize)>> {
    let b = (0..n)
        .map(|i| prop_oneof![2 => (0..=i, i + 1..=n).boxed(), 1 => Just((i, i + 1)).boxed(), 1 => Just((0, n)).boxed(), 1 => (0..=i, Just(i + 1)).boxed()].boxed())
        .collect::<Vec<_>>();
    b.boxed()
}

/// a table that is zero outside the bounds; inside, the ends of every row and the diagonal are non-zero
pub fn in_bounds_table(b: Vec<(usize, usize)>, cell: BoxedStrategy<f64>) -> BoxedStrategy<(Vec<(usize, usize)>, Tab)> {
    let n = b.len();
    sparse_table(n, n, 25, cell)
        .prop_map(move |mut t| {
            for i in 0..n {
                for j in 0..n {
                    if j < b[i].0 || j >= b[i].1 {
                        t.set(i, j, 0.0);
                    } else if (j == b[i].0 || j + 1 == b[i].1 || i == j) && t.at(i, j) == 0.0 {
                        t.set(i, j, 1.5);
                    }
                }
            }
            (b.clone(), t)
        })
        .boxed()
}

pub fn dict_of(t: &Tab) -> Dictionary {
    Dictionary::from_flat((t.r, t.c), t.v.clone())
}

/// a factor with given bounds on the entries: unit or free diagonal of magnitude 0.5 to 4
pub fn lower_factor(n: usize, unit: bool, zero_pct: u32) -> BoxedStrategy<Tab> {
    (sparse_table(n, n, zero_pct, (-1.0f64..1.0).boxed()), prop::collection::vec((0.5f64..4.0, any::<bool>()), n))
        .prop_map(move |(mut t, d)| {
            for i in 0..n {
                for j in i + 1..n {
                    t.set(i, j, 0.0);
                }
                t.set(i, i, if unit { 1.0 } else { d[i].0 * if d[i].1 { 1.0 } else { -1.0 } });
            }
            t
        })
        .boxed()
}

/// symmetric positive definite of any pattern
pub fn spd(max: usize) -> BoxedStrategy<Tab> {
    spd_of(dims(max))
}

pub fn spd_of(dim: BoxedStrategy<usize>) -> BoxedStrategy<Tab> {
    dim
        .prop_flat_map(|n| {
            let factor = (sym_pattern(n), lower_factor(n, false, 0)).prop_map(|(p, mut l)| {
                for i in 0..l.r {
                    for j in 0..i {
                        if p.binary_search(&(i, j)).is_err() {
                            l.set(i, j, 0.0);
                        }
                    }
                }
                l.mul(&l.t())
            });
            prop_oneof![2 => dominant(n, true), 1 => factor.boxed()]
        })
        .boxed()
}

pub fn components(a: &Tab) -> usize {
    let n = a.r;
    let mut seen = vec![false; n];
    let mut count = 0;
    for s in 0..n {
        if !seen[s] {
            count += 1;
            let mut todo = vec![s];
            seen[s] = true;
            while let Some(i) = todo.pop() {
                for j in 0..n {
                    if !seen[j] && a.at(i, j) != 0.0 {
                        seen[j] = true;
                        todo.push(j);
                    }
                }
            }
        }
    }
    count
}

pub fn text_matches(text: &str, t: &Tab, abs: f64, rel: f64) -> Result<(), String> {
    let mut lines = text.lines();
    let head: Vec<&str> = lines.next().unwrap_or("").split_whitespace().collect();
    if head != ["rows:", &t.r.to_string(), "cols:", &t.c.to_string()] {
        return Err(format!("text header {:?} for a {}x{} matrix", head, t.r, t.c));
    }
    for i in 0..t.r {
        let row: Vec<&str> = lines.next().ok_or("text lacks a row")?.split_whitespace().collect();
        if row.len() != t.c {
            return Err(format!("text row {} has {} entries, not {}", i, row.len(), t.c));
        }
        for (j, s) in row.iter().enumerate() {
            let x: f64 = s.parse().map_err(|_| format!("unreadable entry {:?}", s))?;
            if !((x - t.at(i, j)).abs() <= abs + rel * t.at(i, j).abs()) {
                return Err(format!("text entry ({},{}) is {} for {}", i, j, s, t.at(i, j)));
            }
        }
    }
    if lines.any(|l| !l.trim().is_empty()) {
        return Err("text has extra lines".into());
    }
    Ok(())
}

/// a renumbering with no structure to it: the ordering of a path that visits `order`
pub fn permutation(order: &[usize]) -> Permutation {
    let n = order.len();
    if n < 2 {
        return Permutation::identity(n);
    }
    let mut g = Graph::from_edges(n, order.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>());
    g.reverse_cuthill_mckee()
}

/// dimensions well above those of the exhaustive families
pub fn large(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    // one in twelve is larger still
    prop_oneof![12 => lo..=hi, 1 => hi + 1..=3 * hi].boxed()
}

/// a binary exponent: usually none, sometimes far from it
pub fn exponent(limit: i32) -> BoxedStrategy<i32> {
    prop_oneof![4 => Just(0), 1 => -limit..=limit].boxed()
}

/// binary exponents for the rows (or columns) of a matrix: usually none
pub fn exponents(n: usize, limit: i32) -> BoxedStrategy<Vec<i32>> {
    prop_oneof![4 => Just(vec![0; n]), 1 => prop::collection::vec(-limit..=limit, n)].boxed()
}

pub fn pow2(e: i32) -> f64 {
    2f64.powi(e)
}

impl Tab {
    /// rows and columns multiplied by powers of two, which is exact
    pub fn stretched(&self, rows: &[i32], cols: &[i32]) -> Tab {
        let mut t = self.clone();
        for i in 0..self.r {
            for j in 0..self.c {
                t.set(i, j, self.at(i, j) * pow2(rows[i] + cols[j]));
            }
        }
        t
    }
}

/// another number than x, by the smallest of differences now and then
pub fn other_than(x: f64) -> f64 {
    if x == 0.0 {
        1e-30
    } else {
        f64::from_bits(x.to_bits() ^ 1)
    }
}
