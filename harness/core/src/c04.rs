//! C04: factorisations multiply back to the matrix they factor.

use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::solve::direct::{cholesky_envelope, cholesky_envelope_no_root};
use bugi::matrix::{ConstMatrix, Inverse, LinearMatrix, LowerRowEnvelope, MatrixLike};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// |A - product| is within rounding of the sizes that went into it (the classical backward error bound)
fn within_rounding(a: &Tab, factors: &[&Tab], what: &str) -> Result<(), Fail> {
    let n = a.r as f64;
    let abs = |t: &Tab| Tab { r: t.r, c: t.c, v: t.v.iter().map(|x| x.abs()).collect() };
    let mut p = factors[0].clone();
    let mut q = abs(factors[0]);
    for f in &factors[1..] {
        p = p.mul(f);
        q = q.mul(&abs(f));
    }
    let bound = 1e-15 * (8.0 * n + 8.0);
    for i in 0..a.r {
        for j in 0..a.c {
            let d = (p.at(i, j) - a.at(i, j)).abs();
            ensure!(d <= bound * (q.at(i, j) + a.at(i, j).abs()), "{}: the factors give {} at ({},{}) where the matrix has {} (dimension {})", what, p.at(i, j), i, j, a.at(i, j), a.r);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ LU

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LuCase {
    a: Tab,
    how: u8,
}

fn strat_lu() -> BoxedStrategy<LuCase> {
    lu_cases(dims(10))
}

fn strat_lu_large() -> BoxedStrategy<LuCase> {
    lu_cases(large(11, 40))
}

fn lu_cases(n: BoxedStrategy<usize>) -> BoxedStrategy<LuCase> {
    (n, prop::sample::select(vec![0u32, 40, 80]))
        .prop_flat_map(|(n, z)| {
            let from_factors = (lower_factor(n, true, z), lower_factor(n, false, z)).prop_map(|(l, u)| l.mul(&u.t())).boxed();
            let dom = (sparse_table(n, n, z, (-1.0f64..1.0).boxed()), prop::collection::vec((0.1f64..1.0, any::<bool>()), n))
                .prop_map(move |(mut t, d)| {
                    for i in 0..n {
                        let s: f64 = (0..n).filter(|&j| j != i).map(|j| t.at(i, j).abs()).sum();
                        t.set(i, i, (s + d[i].0) * if d[i].1 { 1.0 } else { -1.0 });
                    }
                    t
                })
                .boxed();
            (prop_oneof![from_factors, dom], 0u8..3, exponents(n, 100), exponents(n, 100))
        })
        .prop_map(|(a, how, er, ec)| LuCase { a: a.stretched(&er, &ec), how })
        .boxed()
}

fn check_lu(c: &LuCase) -> Result<Info, Fail> {
    let n = c.a.r;
    let (l, u) = match (c.how, n) {
        (1, _) => {
            let mut m = c.a.t().linear();
            m.transpose();
            m.lu_decompose()
        }
        (2, 2) => ConstMatrix::<4>::from_flat((2, 2), c.a.v.clone()).lu_decompose(),
        (2, 3) => ConstMatrix::<9>::from_flat((3, 3), c.a.v.clone()).lu_decompose(),
        (2, _) => dict_of(&c.a).lu_decompose(),
        _ => c.a.linear().lu_decompose(),
    };
    let (l, u) = (Tab::of(&l), Tab::of(&u));
    ensure!(l.r == n && u.r == n, "factors of dimension {} and {} for {}", l.r, u.r, n);
    for i in 0..n {
        ensure!(l.at(i, i) == 1.0, "lower factor has {} on the diagonal", l.at(i, i));
        for j in 0..i {
            ensure!(u.at(i, j) == 0.0 && l.at(j, i) == 0.0, "factors are not triangular");
        }
    }
    within_rounding(&c.a, &[&l, &u], "LU")?;
    let wide = LinearMatrix::zeros((n, n + 1));
    ensure!(refuses(|| wide.lu_decompose()), "a non-square matrix was factored");
    ok(n > 1)
}

// ------------------------------------------------------------ Cholesky and LDL'

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EnvCase {
    env: Vec<usize>,
    /// generating factor, inside the envelope, unit diagonal
    l: Tab,
    d: Vec<f64>,
    /// hold the matrix in its envelope directly, or convert from a dictionary
    direct: bool,
}

fn strat_env(dim: BoxedStrategy<usize>, positive: bool) -> BoxedStrategy<EnvCase> {
    (dim, prop::sample::select(vec![0u32, 30, 70]))
        .prop_flat_map(move |(n, z)| {
            (bounds(n), lower_factor(n, true, z), prop::collection::vec((0.3f64..4.0, any::<bool>()), n), any::<bool>(), exponents(n, 60), exponent(150))
        })
        .prop_map(move |(b, mut l, d, direct, er, e)| {
            let n = l.r;
            let scale = pow2(e);
            // entries of the factor stay small enough that rounding cannot turn the sign of a pivot
            if n > 12 {
                for i in 0..n {
                    for j in 0..i {
                        let x = l.at(i, j);
                        l.set(i, j, x * 4.0 / n as f64);
                    }
                }
            }
            // the matrix stretched in rows and columns alike: S L D L' S = (S L S^-1) (S D S) (S L S^-1)'
            l = l.stretched(&er, &er.iter().map(|x| -x).collect::<Vec<_>>());
            for i in 0..n {
                for j in 0..b[i].0 {
                    l.set(i, j, 0.0);
                }
            }
            let env = (0..n).map(|i| i + 1 - b[i].0).collect();
            EnvCase { env, l, d: d.iter().zip(&er).map(|(x, &s)| pow2(2 * s) * scale * if positive || x.1 { x.0 } else { -x.0 }).collect(), direct }
        })
        .boxed()
}

fn strat_pos() -> BoxedStrategy<EnvCase> {
    strat_env(dims(12), true)
}
fn strat_ind() -> BoxedStrategy<EnvCase> {
    strat_env(dims(12), false)
}
fn strat_pos_large() -> BoxedStrategy<EnvCase> {
    strat_env(large(13, 40), true)
}
fn strat_ind_large() -> BoxedStrategy<EnvCase> {
    strat_env(large(13, 40), false)
}

impl EnvCase {
    fn matrix(&self) -> Tab {
        let n = self.l.r;
        let mut a = Tab::new(n, n);
        for i in 0..n {
            for j in 0..=i {
                let x: f64 = (0..=j).map(|k| self.l.at(i, k) * self.d[k] * self.l.at(j, k)).sum();
                a.set(i, j, x);
                a.set(j, i, x);
            }
        }
        a
    }
    fn held(&self, a: &Tab) -> LowerRowEnvelope {
        if self.direct {
            let mut m = LowerRowEnvelope::from_envelope(self.env.clone());
            for i in 0..a.r {
                for j in i + 1 - self.env[i]..=i {
                    m.put((i, j), a.at(i, j));
                }
            }
            m
        } else {
            LowerRowEnvelope::from(dict_of(a))
        }
    }
}

fn lower_form(l: &LowerRowEnvelope, a: &LowerRowEnvelope, what: &str) -> Result<Tab, Fail> {
    ensure!(l.shape() == a.shape() && l.envelope() == a.envelope(), "{}: factor envelope {:?} for a matrix with {:?}", what, l.envelope(), a.envelope());
    Ok(Tab::of(l))
}

fn check_pos(c: &EnvCase) -> Result<Info, Fail> {
    let n = c.l.r;
    let a = c.matrix();
    let held = c.held(&a);
    let l = lower_form(&cholesky_envelope(&held), &held, "Cholesky")?;
    ensure!((0..n).all(|i| l.at(i, i) > 0.0), "Cholesky factor's diagonal is not positive");
    within_rounding(&a, &[&l, &l.t()], "Cholesky")?;
    check_ldl(c)
}

fn check_ldl(c: &EnvCase) -> Result<Info, Fail> {
    let n = c.l.r;
    let a = c.matrix();
    let held = c.held(&a);
    let (l, d) = cholesky_envelope_no_root(&held);
    let l = lower_form(&l, &held, "root-free")?;
    ensure!((0..n).all(|i| l.at(i, i) == 1.0), "root-free factor's diagonal is not one");
    let dt = Tab::of(&d);
    ensure!(dt.r == n, "root-free diagonal of dimension {}", dt.r);
    within_rounding(&a, &[&l, &dt, &l.t()], "root-free")?;
    let neg = c.d.iter().filter(|x| **x < 0.0).count();
    ensure!(d.num_neg() == neg, "root-free diagonal has {} negative entries, the matrix {} negative eigenvalues", d.num_neg(), neg);
    let (ev, _) = jacobi(&a);
    let big = ev.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if ev.iter().all(|x| x.abs() > 1e-9 * big) {
        let jneg = ev.iter().filter(|x| **x < 0.0).count();
        ensure!(d.num_neg() == jneg, "root-free diagonal has {} negative entries, the matrix {} negative eigenvalues", d.num_neg(), jneg);
    }
    ensure!(Tab::of(&held) == Tab::of(&c.held(&a)), "factoring changed the matrix");
    let full = c.env.iter().enumerate().all(|(i, &e)| e == i + 1);
    ok_tags(n > 2 && c.env.iter().any(|&e| e > 1), vec![if full { "full envelope" } else { "ragged envelope" }, if neg > 0 { "indefinite" } else { "definite" }])
}

fn strat_lu_hundreds() -> BoxedStrategy<LuCase> {
    lu_cases((257usize..=320).boxed())
}

fn strat_pos_hundreds() -> BoxedStrategy<EnvCase> {
    strat_env((257usize..=320).boxed(), true)
}

fn strat_ind_hundreds() -> BoxedStrategy<EnvCase> {
    strat_env((257usize..=320).boxed(), false)
}

pub fn property() -> Property {
    Property {
        id: "C04",
        families: vec![
            Box::new(Family {
                name: "indefinite-envelopes-hundreds",
                rule: "as indefinite-envelopes, of 257..320. Non-trivial: an off-diagonal envelope",
                quick: 40,
                thorough: 1200,
                strategy: strat_ind_hundreds,
                check: check_ldl,
            }),
            Box::new(Family {
                name: "definite-envelopes-hundreds",
                rule: "as definite-envelopes, of 257..320. Non-trivial: an off-diagonal envelope",
                quick: 40,
                thorough: 1200,
                strategy: strat_pos_hundreds,
                check: check_pos,
            }),
            Box::new(Family {
                name: "lu-hundreds",
                rule: "as lu, of 257..320. Non-trivial: all",
                quick: 40,
                thorough: 1200,
                strategy: strat_lu_hundreds,
                check: check_lu,
            }),
            Box::new(Family {
                name: "lu-large",
                rule: "as lu, of 11..40. Non-trivial: all",
                quick: 20000,
                thorough: 600000,
                strategy: strat_lu_large,
                check: check_lu,
            }),
            Box::new(Family {
                name: "definite-envelopes-large",
                rule: "as definite-envelopes, of 13..40. Non-trivial: an off-diagonal envelope",
                quick: 10000,
                thorough: 300000,
                strategy: strat_pos_large,
                check: check_pos,
            }),
            Box::new(Family {
                name: "indefinite-envelopes-large",
                rule: "as indefinite-envelopes, of 13..40. Non-trivial: an off-diagonal envelope",
                quick: 10000,
                thorough: 300000,
                strategy: strat_ind_large,
                check: check_ldl,
            }),
            Box::new(Family {
                name: "lu",
                rule: "a product of random triangular factors, or a diagonally dominant matrix, of 1..10, in several storages, now and then with rows and columns multiplied by powers of two. Non-trivial: dimension above 1",
                quick: 1_000_000,
                thorough: 30_000_000,
                strategy: strat_lu,
                check: check_lu,
            }),
            Box::new(Family {
                name: "definite-envelopes",
                rule: "LDL' with positive D for a random factor in a random envelope of 1..12: Cholesky and root-free factors. Non-trivial: dimension above 2 with an off-diagonal envelope",
                quick: 320_000,
                thorough: 9_600_000,
                strategy: strat_pos,
                check: check_pos,
            }),
            Box::new(Family {
                name: "indefinite-envelopes",
                rule: "LDL' with D of mixed sign in a random envelope of 1..12: root-free factor and its inertia. Non-trivial: dimension above 2 with an off-diagonal envelope",
                quick: 320_000,
                thorough: 9_600_000,
                strategy: strat_ind,
                check: check_ldl,
            }),
        ],
        assumptions: vec!["factors are drawn with diagonal magnitude 0.3 to 4, so that no pivot vanishes"],
    }
}
