//! C09: the determinant search against a Jacobi eigensolver.

use crate::eig::*;
use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::solve::eigen::{DeterminantSearcher, EigenSystem};
use bugi::matrix::solve::System;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    k: Tab,
    m: Tab,
    /// positions of trial shifts between consecutive eigenvalues
    shifts: Vec<f64>,
    want: usize,
    first: usize,
}

fn finish(s: BoxedStrategy<(Tab, Tab)>) -> BoxedStrategy<Case> {
    s.prop_flat_map(|(k, m)| {
        let n = k.r;
        (Just(k), Just(m), prop::collection::vec(0.05f64..0.95, n + 1), 0..=n, 0..=n, exponent(60), exponent(60))
    })
    .prop_map(|(k, m, shifts, want, first, e, f)| Case { k: k.scale(pow2(e)), m: m.scale(pow2(f)), shifts, want, first })
    .boxed()
}

fn strat_sparse() -> BoxedStrategy<Case> {
    finish(spd(9).prop_flat_map(|k| (Just(k.clone()), mass(&k))).boxed())
}

fn strat_large() -> BoxedStrategy<Case> {
    finish(spd_of(large(10, 30)).prop_flat_map(|k| (Just(k.clone()), mass(&k))).boxed())
}

/// hundreds of unknowns, the lowest few pairs: random patterns, and chains of masses and springs
fn strat_hundreds() -> BoxedStrategy<Case> {
    let some = spd_of((257usize..=290).boxed()).prop_flat_map(|k| (Just(k.clone()), mass(&k)));
    let chain = (257usize..=290).prop_flat_map(|n| (prop::collection::vec((0.5f64..2.0, 0.5f64..2.0), n), Just((0..n).collect::<Vec<_>>()).prop_shuffle(), any::<bool>())).prop_map(|(v, to, even)| {
        let n = v.len();
        let (mut k, mut m) = (Tab::new(n, n), Tab::new(n, n));
        let spring = |i: usize| if even { 1.0 } else { v[i].0 };
        for i in 0..n {
            let next = if i + 1 < n { spring(i + 1) } else { 0.0 };
            k.set(to[i], to[i], spring(i) + next);
            m.set(to[i], to[i], if even { 1.0 } else { v[i].1 });
            if i + 1 < n {
                k.set(to[i], to[i + 1], -next);
                k.set(to[i + 1], to[i], -next);
            }
        }
        (k, m)
    });
    finish(prop_oneof![some.boxed(), chain.boxed()].boxed())
        .prop_map(|mut c| {
            c.want = c.want % 13;
            c.first = c.first % 13;
            c
        })
        .boxed()
}

/// a dense pair with a prescribed spectrum: C Q diag(values) Q' C' and C C'
fn prescribed(values: BoxedStrategy<Vec<f64>>) -> BoxedStrategy<(Tab, Tab)> {
    values
        .prop_flat_map(|v| {
            let n = v.len();
            (Just(v), prop::collection::vec(-3.2f64..3.2, n * n), lower_factor(n, false, 30), any::<bool>())
        })
        .prop_map(|(v, ang, c, unit)| {
            let n = v.len();
            // rotate the diagonal matrix in every coordinate plane
            let mut k = Tab::new(n, n);
            (0..n).for_each(|i| k.set(i, i, v[i]));
            for p in 0..n {
                for q in p + 1..n {
                    let (s, co) = ang[p * n + q].sin_cos();
                    let mut r = Tab::eye(n);
                    r.set(p, p, co);
                    r.set(q, q, co);
                    r.set(p, q, -s);
                    r.set(q, p, s);
                    k = r.mul(&k).mul(&r.t());
                }
            }
            let c = if unit { Tab::eye(n) } else { c };
            let mut k = c.mul(&k).mul(&c.t());
            let m = c.mul(&c.t());
            for i in 0..n {
                for j in 0..i {
                    let x = k.at(i, j);
                    k.set(j, i, x);
                }
            }
            (k, m)
        })
        .boxed()
}

fn strat_dense() -> BoxedStrategy<Case> {
    finish(prescribed((1usize..7).prop_flat_map(|n| prop::collection::vec(prop_oneof![3 => 0.5f64..20.0, 1 => 0.01f64..1000.0], n)).boxed()))
}

/// repeated eigenvalues, dense and as identical uncoupled blocks
fn strat_multiple() -> BoxedStrategy<Case> {
    let dense = prescribed(
        (1usize..5, 1usize..4).prop_flat_map(|(a, b)| (prop::collection::vec(0.5f64..20.0, a), Just(b), any::<prop::sample::Index>())).prop_map(|(mut v, b, i)| {
            let x = v[i.index(v.len())];
            v.extend(std::iter::repeat(x).take(b));
            v
        }).boxed(),
    );
    let blocks = (spd(3).prop_flat_map(|k| (Just(k.clone()), mass(&k))), 2usize..4, any::<bool>()).prop_map(|((k, m), copies, interleave)| {
        let b = k.r;
        let n = b * copies;
        let at = |c: usize, i: usize| if interleave { i * copies + c } else { c * b + i };
        let (mut kk, mut mm) = (Tab::new(n, n), Tab::new(n, n));
        for c in 0..copies {
            for i in 0..b {
                for j in 0..b {
                    kk.set(at(c, i), at(c, j), k.at(i, j));
                    mm.set(at(c, i), at(c, j), m.at(i, j));
                }
            }
        }
        (kk, mm)
    });
    let diag = prop::collection::vec(1u8..5, 1..7).prop_map(|v| {
        let n = v.len();
        let mut k = Tab::new(n, n);
        (0..n).for_each(|i| k.set(i, i, v[i] as f64 * 1.7));
        (k, Tab::eye(n))
    });
    finish(prop_oneof![dense, blocks.boxed(), diag.boxed()].boxed())
}

fn check(c: &Case) -> Result<Info, Fail> {
    let n = c.k.r;
    let (vals, _) = gen_eigen(&c.k, &c.m).ok_or_else(|| String::from("reference: mass matrix not definite"))?;
    let (lo, hi) = (vals[0], vals[n - 1]);
    ensure!(lo > 0.0, "reference: stiffness not definite ({})", lo);
    if hi / lo > 1e7 {
        return ok_tags(false, vec!["ill-conditioned"]);
    }
    let sys = || System::from_km(&c.k.linear(), &c.m.linear());
    let s = DeterminantSearcher::new(EigenSystem::new(sys()));
    for (i, f) in c.shifts.iter().enumerate() {
        let a = if i == 0 { 0.0 } else { vals[i - 1] };
        let b = if i == n { 2.0 * hi } else { vals[i] };
        if b - a > 1e-6 * hi {
            let x = a + f * (b - a);
            let got = s.eigenvalues_under(x);
            ensure!(got == i, "{} eigenvalues counted under {}, expected {} of {:?}", got, x, i, vals);
        }
    }
    // at once
    let mut s = DeterminantSearcher::new(EigenSystem::new(sys()));
    let pairs = s.find_eigens(c.want);
    ensure!(pairs.len() == c.want, "{} pairs asked for, {} returned", c.want, pairs.len());
    pairs_hold(&pairs, &vals, &c.k, &c.m, "at once")?;
    // in steps
    let mut s2 = DeterminantSearcher::new(EigenSystem::new(sys()));
    let part = s2.find_eigens(c.first);
    ensure!(part.len() == c.first, "{} pairs asked for first, {} returned", c.first, part.len());
    let rest = s2.find_eigens(c.want);
    ensure!(rest.len() == c.want, "{} pairs asked for after {}, {} returned", c.want, c.first, rest.len());
    pairs_hold(&part, &vals, &c.k, &c.m, "first step")?;
    pairs_hold(&rest, &vals, &c.k, &c.m, "second step")?;
    let all = s2.eigenpairs();
    ensure!(all.len() >= c.want.max(c.first) && all.len() <= n, "{} pairs kept after asking for {} and {}", all.len(), c.first, c.want);
    pairs_hold(&all, &vals, &c.k, &c.m, "all kept")?;
    ensure!(refuses(|| s.find_eigens(n + 1)), "more pairs than unknowns were promised");
    let close = vals.windows(2).any(|w| w[1] - w[0] < 1e-3 * w[1]);
    ok_tags(n > 2 && c.want > 1, vec![if close { "close or repeated eigenvalues" } else { "separated" }, if components(&c.k) > 1 { "disconnected" } else { "connected" }])
}

pub fn property() -> Property {
    Property {
        id: "C09",
        families: vec![
            Box::new(Family {
                name: "sparse",
                rule: "sparse symmetric positive definite pairs of 1..9, mass pattern inside the stiffness pattern. Non-trivial: dimension above 2 and more than one pair asked for",
                quick: 200_000,
                thorough: 6_000_000,
                strategy: strat_sparse,
                check,
            }),
            Box::new(Family {
                name: "sparse-large",
                rule: "as sparse, of 10..30. Non-trivial: more than one pair asked for",
                quick: 2000,
                thorough: 60000,
                strategy: strat_large,
                check: check,
            }),
            Box::new(Family {
                name: "sparse-hundreds",
                rule: "as sparse, of 257..290, and chains of masses and springs in any order, up to twelve pairs. Non-trivial: more than one pair asked for",
                quick: 60,
                thorough: 1_800,
                strategy: strat_hundreds,
                check: check,
            }),
            Box::new(Family {
                name: "dense",
                rule: "dense pairs of 1..6 with a prescribed spectrum. Non-trivial: dimension above 2 and more than one pair asked for",
                quick: 200_000,
                thorough: 6_000_000,
                strategy: strat_dense,
                check,
            }),
            Box::new(Family {
                name: "multiple",
                rule: "pairs with repeated eigenvalues: prescribed, identical uncoupled blocks, diagonal. Non-trivial: dimension above 2 and more than one pair asked for",
                quick: 200_000,
                thorough: 6_000_000,
                strategy: strat_multiple,
                check,
            }),
        ],
        assumptions: vec!["pairs whose eigenvalues span more than seven orders of magnitude are not judged"],
    }
}
