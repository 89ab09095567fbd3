//! Eigenvalue problem generators and the check of computed eigenpairs (C09, C10, C18).

use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::solve::eigen::EigenPair;
use proptest::prelude::*;

/// a mass matrix whose pattern lies inside that of k
pub fn mass(k: &Tab) -> BoxedStrategy<Tab> {
    let n = k.r;
    let k = k.clone();
    (0u8..4, prop::collection::vec(0.5f64..2.0, n), prop::collection::vec(-1.0f64..1.0, n * n), prop::bool::weighted(0.3))
        .prop_map(move |(kind, d, o, unit)| {
            let mut m = Tab::new(n, n);
            if kind >= 2 {
                for i in 0..n {
                    for j in 0..i {
                        if k.at(i, j) != 0.0 {
                            let x = 0.3 * o[i * n + j];
                            m.set(i, j, x);
                            m.set(j, i, x);
                        }
                    }
                }
            }
            for i in 0..n {
                let s: f64 = (0..n).filter(|&j| j != i).map(|j| m.at(i, j).abs()).sum();
                m.set(i, i, s + if unit { 1.0 } else { d[i] });
            }
            m
        })
        .boxed()
}

pub fn pairs_hold(pairs: &[EigenPair], vals: &[f64], k: &Tab, m: &Tab, what: &str) -> Result<(), Fail> {
    let raw: Vec<(f64, Vec<f64>)> = pairs.iter().map(|p| (p.value(), p.vector().to_vec())).collect();
    vectors_hold(&raw, vals, k, m, what)
}

/// the pairs are the lowest ones, in order, with vectors of unit mass
pub fn vectors_hold(pairs: &[(f64, Vec<f64>)], vals: &[f64], k: &Tab, m: &Tab, what: &str) -> Result<(), Fail> {
    let n = k.r;
    let mut prev: Option<f64> = None;
    for (i, p) in pairs.iter().enumerate() {
        let (l, v) = (p.0, &p.1);
        ensure!((l - vals[i]).abs() <= 1e-5 * vals[i], "{}: eigenvalue {} is {}, expected {} (all: {:?})", what, i, l, vals[i], vals);
        if let Some(q) = prev {
            ensure!(q <= l, "{}: eigenvalue {} ({}) is below its predecessor ({})", what, i, l, q);
        }
        prev = Some(l);
        ensure!(v.len() == n, "{}: vector {} has {} entries", what, i, v.len());
        let mv = m.mulv(v);
        let norm = dot(v, &mv);
        ensure!((norm - 1.0).abs() <= 1e-8, "{}: vector {} has mass norm {}", what, i, norm);
        let kv = k.mulv(v);
        // residual in the norm of the inverse mass matrix, relative to the eigenvalue
        let res: Vec<f64> = (0..n).map(|j| kv[j] - l * mv[j]).collect();
        let y = solve(m, &res).ok_or_else(|| String::from("reference mass matrix is singular"))?;
        let e = dot(&res, &y).abs().sqrt() / l;
        ensure!(e <= 0.02, "{}: pair {} misses its equation by {:e} (value {}, all {:?})", what, i, e, l, vals);
        for (j, q) in pairs[..i].iter().enumerate() {
            let o = dot(&q.1, &mv).abs();
            if (vals[i] - vals[j]) > 0.05 * vals[i] {
                ensure!(o <= 0.02, "{}: vectors {} and {} have mass product {:e} (values {:?})", what, j, i, o, vals);
            }
        }
    }
    Ok(())
}
