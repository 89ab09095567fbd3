//! C11: quadrature is exact for the polynomials it promises.

use crate::ensure;
use crate::pbt::*;
use bugi::element::integrate::{gauss_segment_mat, gauss_tri, GAUSS_TRI_SAMPLES};
use bugi::matrix::{LinearMatrix, MatrixLike};
use bugi::spatial::Point;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// coefficients of a polynomial in x and y, as (power of x, power of y, coefficient)
type Poly = Vec<(u32, u32, f64)>;

fn value(p: &Poly, x: f64, y: f64) -> f64 {
    p.iter().map(|&(i, j, c)| c * x.powi(i as i32) * y.powi(j as i32)).sum()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Seg {
    a: (f64, f64),
    b: (f64, f64),
    order: usize,
    shape: (usize, usize),
    polys: Vec<Poly>,
    /// where the segment is split
    t: f64,
}

fn poly(degree: u32) -> BoxedStrategy<Poly> {
    let all: Vec<(u32, u32)> = (0..=degree).flat_map(|i| (0..=degree - i).map(move |j| (i, j))).collect();
    prop_oneof![
        2 => prop::collection::vec(prop_oneof![2 => -3.0f64..3.0, 1 => Just(0.0)], all.len()).prop_map({
            let all = all.clone();
            move |c| all.iter().zip(c).map(|(&(i, j), c)| (i, j, c)).collect::<Vec<_>>()
        }),
        // a single term of the highest degree
        1 => (0..=degree, -3.0f64..3.0).prop_map(move |(i, c)| vec![(i, degree - i, c)]),
    ]
    .boxed()
}

fn strat_seg() -> BoxedStrategy<Seg> {
    let coor = || prop_oneof![3 => -2.0f64..2.0, 1 => (-3i32..=3).prop_map(|x| x as f64)];
    (1usize..=4, 1usize..=3, 1usize..=3)
        .prop_flat_map(move |(order, r, c)| {
            let d = 2 * order as u32 - 1;
            (((coor(), coor()), (coor(), coor())), Just(order), Just((r, c)), prop::collection::vec((0..=d).prop_flat_map(poly), r * c), 0.05f64..0.95)
        })
        .prop_map(|((a, b), order, shape, polys, t)| Seg { a, b, order, shape, polys, t })
        .boxed()
}

/// exact integral of a polynomial along a segment, by expanding it in the segment's parameter
fn seg_exact(p: &Poly, a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let len = ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt();
    let mul = |u: &[f64], v: &[f64]| {
        let mut w = vec![0.0; u.len() + v.len() - 1];
        for (i, x) in u.iter().enumerate() {
            for (j, y) in v.iter().enumerate() {
                w[i + j] += x * y;
            }
        }
        w
    };
    let (mut sum, mut size) = (0.0, 0.0);
    for &(i, j, c) in p {
        let (mut w, mut s) = (vec![1.0], vec![1.0]);
        for _ in 0..i {
            w = mul(&w, &[a.0, b.0 - a.0]);
            s = mul(&s, &[a.0.abs(), a.0.abs() + b.0.abs()]);
        }
        for _ in 0..j {
            w = mul(&w, &[a.1, b.1 - a.1]);
            s = mul(&s, &[a.1.abs(), a.1.abs() + b.1.abs()]);
        }
        sum += c * w.iter().enumerate().map(|(k, x)| x / (k as f64 + 1.0)).sum::<f64>();
        size += c.abs() * s.iter().map(|x| x.abs()).sum::<f64>();
    }
    (sum * len, size * len)
}

fn pt(p: (f64, f64)) -> Point {
    p.into()
}

fn check_seg(c: &Seg) -> Result<Info, Fail> {
    let f = |p: Point| LinearMatrix::from_flat(c.shape, c.polys.iter().map(|q| value(q, p[0], p[1])).collect::<Vec<_>>());
    let len = ((c.a.0 - c.b.0).powi(2) + (c.a.1 - c.b.1).powi(2)).sqrt();
    let got = gauss_segment_mat(f, pt(c.a), pt(c.b), c.order);
    ensure!(got.shape() == c.shape, "integral of shape {:?}, integrand of {:?}", got.shape(), c.shape);
    let back = gauss_segment_mat(f, pt(c.b), pt(c.a), c.order);
    let m = (c.a.0 + c.t * (c.b.0 - c.a.0), c.a.1 + c.t * (c.b.1 - c.a.1));
    let first = gauss_segment_mat(f, pt(c.a), pt(m), c.order);
    let second = gauss_segment_mat(f, pt(m), pt(c.b), c.order);
    for i in 0..c.shape.0 {
        for j in 0..c.shape.1 {
            let (want, size) = seg_exact(&c.polys[i * c.shape.1 + j], c.a, c.b);
            let tol = 1e-12 * size;
            let x = got[(i, j)];
            ensure!((x - want).abs() <= tol, "order {}, entry ({},{}): integral {} instead of {}", c.order, i, j, x, want);
            ensure!((back[(i, j)] - want).abs() <= tol, "order {}, entry ({},{}), other direction: {} instead of {}", c.order, i, j, back[(i, j)], want);
            let s = first[(i, j)] + second[(i, j)];
            ensure!((s - want).abs() <= tol, "order {}, entry ({},{}), in two parts: {} instead of {}", c.order, i, j, s, want);
        }
    }
    // any function at all is weighted by a constant: scaling the segment about the origin scales the length
    let one = gauss_segment_mat(|_| LinearMatrix::from_flat(1, vec![1.0]), pt(c.a), pt(c.b), c.order);
    ensure!((one[(0, 0)] - len).abs() <= 1e-12 * len, "order {}: length {} instead of {}", c.order, one[(0, 0)], len);
    let high = c.polys.iter().any(|p| p.iter().any(|&(i, j, k)| i + j + 1 == 2 * c.order as u32 && k != 0.0));
    ok_tags(len > 0.0 && high, vec![["", "order 1", "order 2", "order 3", "order 4"][c.order]])
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Tri {
    shape: (usize, usize),
    polys: Vec<Poly>,
}

fn strat_tri() -> BoxedStrategy<Tri> {
    (1usize..=3, 1usize..=3)
        .prop_flat_map(|(r, c)| (Just((r, c)), prop::collection::vec((0u32..=2).prop_flat_map(poly), r * c)))
        .prop_map(|(shape, polys)| Tri { shape, polys })
        .boxed()
}

fn tri_exact(p: &Poly) -> f64 {
    let fac = |n: u32| (1..=n).map(|x| x as f64).product::<f64>();
    p.iter().map(|&(i, j, c)| c * fac(i) * fac(j) / fac(i + j + 2)).sum()
}

fn check_tri(c: &Tri) -> Result<Info, Fail> {
    let got = gauss_tri(|p: Point| LinearMatrix::from_flat(c.shape, c.polys.iter().map(|q| value(q, p[0], p[1])).collect::<Vec<_>>()));
    ensure!(got.shape() == c.shape, "integral of shape {:?}, integrand of {:?}", got.shape(), c.shape);
    for i in 0..c.shape.0 {
        for j in 0..c.shape.1 {
            let p = &c.polys[i * c.shape.1 + j];
            let want = tri_exact(p);
            let size: f64 = p.iter().map(|x| x.2.abs()).sum();
            ensure!((got[(i, j)] - want).abs() <= 1e-14 * (size + 1.0), "entry ({},{}): {} instead of {}", i, j, got[(i, j)], want);
        }
    }
    let p = &c.polys[0];
    let scalar = gauss_tri(|q: Point| value(p, q[0], q[1]));
    ensure!((scalar - tri_exact(p)).abs() <= 1e-14 * (1.0 + p.iter().map(|x| x.2.abs()).sum::<f64>()), "scalar integrand: {} instead of {}", scalar, tri_exact(p));
    for (r, s) in GAUSS_TRI_SAMPLES {
        ensure!(r > 0.0 && s > 0.0 && r + s < 1.0, "sample point ({}, {}) lies outside", r, s);
    }
    let high = c.polys.iter().any(|p| p.iter().any(|&(i, j, k)| i + j == 2 && k != 0.0));
    ok(high)
}

pub fn property() -> Property {
    Property {
        id: "C11",
        families: vec![
            Box::new(Family {
                name: "segment",
                rule: "matrix-valued polynomials along segments, orders 1..4. Non-trivial: a segment with length and a polynomial of the highest promised degree",
                quick: 1_600_000,
                thorough: 48_000_000,
                strategy: strat_seg,
                check: check_seg,
            }),
            Box::new(Family {
                name: "triangle",
                rule: "matrix-valued polynomials over the unit triangle. Non-trivial: a polynomial of degree two",
                quick: 800_000,
                thorough: 24_000_000,
                strategy: strat_tri,
                check: check_tri,
            }),
        ],
        assumptions: vec![],
    }
}
