//! C05: substitution solves, whatever the output buffer held before.

use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::solve::direct::{solve_ldl, solve_ll};
use bugi::matrix::{Diagonal, LowerRowEnvelope, LowerTriangular, MatrixLike, UpperTriangular};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    env: Vec<usize>,
    l: Tab,
    d: Vec<f64>,
    b: Vec<f64>,
    /// what the output buffer holds before
    dirty: Vec<f64>,
    /// fill the output buffer with not-a-number instead
    nan: bool,
    range: (usize, usize),
    /// every right-hand side multiplied by this power of two as well
    scale: i32,
}

fn strat() -> BoxedStrategy<Case> {
    cases(dims(11))
}

fn strat_large() -> BoxedStrategy<Case> {
    cases(large(12, 48))
}

fn cases(n: BoxedStrategy<usize>) -> BoxedStrategy<Case> {
    (n, prop::sample::select(vec![0u32, 30, 70]))
        .prop_flat_map(|(n, z)| {
            (
                bounds(n),
                lower_factor(n, false, z),
                prop::collection::vec((0.3f64..4.0, any::<bool>()), n),
                prop::collection::vec(prop_oneof![2 => real(), 1 => Just(0.0)], n),
                prop::collection::vec(real(), n),
                prop::bool::weighted(0.3),
                (0..=n, 0..=n),
                (exponents(n, 60), exponents(n, 60), exponents(n, 150), exponents(n, 30), -600i32..600),
            )
        })
        .prop_map(|(b, mut l, mut d, mut rhs, dirty, nan, (p, q), (er, ec, eb, ed, scale))| {
            let n = l.r;
            // rows, columns and right-hand sides of very different magnitude
            l = l.stretched(&er, &ec);
            for i in 0..n {
                rhs[i] *= pow2(eb[i]);
                d[i].0 *= pow2(ed[i]);
            }
            for i in 0..n {
                for j in 0..b[i].0 {
                    l.set(i, j, 0.0);
                }
            }
            Case { env: (0..n).map(|i| i + 1 - b[i].0).collect(), l, d: d.iter().map(|x| if x.1 { x.0 } else { -x.0 }).collect(), b: rhs, dirty, nan, range: (p.min(q), p.max(q)), scale }
        })
        .boxed()
}

/// every residual of A x = b is within rounding of the terms that make it up
fn solves(factors: &[&Tab], x: &[f64], b: &[f64], what: &str) -> Result<(), Fail> {
    let n = b.len();
    ensure!(x.len() == n, "{}: answer of length {}", what, x.len());
    let abs = |t: &Tab| Tab { r: t.r, c: t.c, v: t.v.iter().map(|x| x.abs()).collect() };
    let mut r = x.to_vec();
    let mut q: Vec<f64> = x.iter().map(|x| x.abs()).collect();
    for f in factors.iter().rev() {
        r = f.mulv(&r);
        q = abs(f).mulv(&q);
    }
    let bound = 1e-15 * (8.0 * n as f64 + 16.0) * factors.len() as f64;
    for i in 0..n {
        let d = (r[i] - b[i]).abs();
        ensure!(d <= bound * (q[i] + b[i].abs()), "{}: equation {} of {} gives {} instead of {} (x = {:?})", what, i, n, r[i], b[i], x);
    }
    Ok(())
}

/// the same for the right-hand side times 2^k, unless what is solved for leaves the range of numbers
fn scaled(k: i32, factors: &[&Tab], x: &[f64], b: &[f64], what: &str, run: impl Fn(&[f64]) -> Vec<f64>) -> Result<(), Fail> {
    let inside = |v: &[f64]| v.iter().all(|x| *x == 0.0 || (x.abs().log2() + k as f64).abs() < 700.0);
    if !inside(x) || !inside(b) {
        return Ok(());
    }
    let s = pow2(k);
    let y = run(&b.iter().map(|x| x * s).collect::<Vec<_>>());
    let y: Vec<f64> = y.iter().map(|y| y / s).collect();
    solves(factors, &y, b, &format!("{} for a right-hand side times 2^{}", what, k))
}

fn check(c: &Case) -> Result<Info, Fail> {
    let n = c.l.r;
    let dirty = if c.nan { vec![f64::NAN; n] } else { c.dirty.clone() };
    let lt = c.l.t();
    let dt = {
        let mut t = Tab::new(n, n);
        (0..n).for_each(|i| t.set(i, i, c.d[i]));
        t
    };

    // triangular storage
    let mut lo = LowerTriangular::zeros(n);
    let mut up = UpperTriangular::zeros(n);
    for i in 0..n {
        for j in 0..=i {
            lo[(i, j)] = c.l.at(i, j);
            up[(j, i)] = c.l.at(i, j);
        }
    }
    let (f, g) = (lo.forward_sub(&c.b), up.backward_sub(&c.b));
    solves(&[&c.l], &f, &c.b, "forward substitution")?;
    solves(&[&lt], &g, &c.b, "backward substitution")?;
    scaled(c.scale, &[&c.l], &f, &c.b, "forward substitution", |b| lo.forward_sub(b))?;
    scaled(c.scale, &[&lt], &g, &c.b, "backward substitution", |b| up.backward_sub(b))?;
    ensure!(refuses(|| lo.forward_sub(&vec![1.0; n + 1])) && refuses(|| up.backward_sub(&vec![1.0; n + 1])), "a right-hand side of another length was accepted");
    let (li, ui) = (Tab::of(&lo.tri_inv()), Tab::of(&up.tri_inv()));
    for j in 0..n {
        let mut e = vec![0.0; n];
        e[j] = 1.0;
        solves(&[&c.l], &li.cols()[j], &e, "lower inverse")?;
        solves(&[&lt], &ui.cols()[j], &e, "upper inverse")?;
    }
    ensure!(Tab::of(&lo) == c.l && Tab::of(&up) == lt, "solving changed the matrix");

    // diagonal
    let diag = Diagonal::from(c.d.clone());
    let mut x = c.b.clone();
    diag.solve(&mut x);
    solves(&[&dt], &x, &c.b, "diagonal")?;
    scaled(c.scale, &[&dt], &x, &c.b, "diagonal", |b| {
        let mut x = b.to_vec();
        diag.solve(&mut x);
        x
    })?;
    ensure!(refuses(|| diag.solve(&mut vec![1.0; n + 1])), "a vector of another length was accepted");

    // envelope storage
    let mut env = LowerRowEnvelope::from_envelope(c.env.clone());
    let mut unit = LowerRowEnvelope::from_envelope(c.env.clone());
    let mut ut = c.l.clone();
    for i in 0..n {
        for j in i + 1 - c.env[i]..=i {
            env[(i, j)] = c.l.at(i, j);
            let x = c.l.at(i, j) / c.l.at(j, j);
            unit[(i, j)] = x;
            ut.set(i, j, x);
        }
    }
    let mut x = dirty.clone();
    env.solve(&c.b, &mut x);
    solves(&[&c.l], &x, &c.b, "envelope forward substitution")?;
    scaled(c.scale, &[&c.l], &x, &c.b, "envelope forward substitution", |b| {
        let mut x = dirty.clone();
        env.solve(b, &mut x);
        x
    })?;
    let mut x = dirty.clone();
    env.solve_transposed(&c.b, &mut x);
    solves(&[&lt], &x, &c.b, "envelope transposed substitution")?;
    scaled(c.scale, &[&lt], &x, &c.b, "envelope transposed substitution", |b| {
        let mut x = dirty.clone();
        env.solve_transposed(b, &mut x);
        x
    })?;
    let (p, q) = c.range;
    let sub = {
        let mut t = Tab::new(q - p, q - p);
        for i in p..q {
            for j in p..q {
                t.set(i - p, j - p, c.l.at(i, j));
            }
        }
        t
    };
    let mut x = dirty[p..q].to_vec();
    env.solve_submatrix(&c.b[p..q], &mut x, c.range);
    solves(&[&sub], &x, &c.b[p..q], &format!("substitution on block {}..{}", p, q))?;
    scaled(c.scale, &[&sub], &x, &c.b[p..q], "substitution on a block", |b| {
        let mut x = dirty[p..q].to_vec();
        env.solve_submatrix(b, &mut x, c.range);
        x
    })?;
    ensure!(refuses(|| env.solve(&vec![1.0; n + 1], &mut vec![1.0; n + 1])), "forward substitution of another length");
    ensure!(refuses(|| env.solve_transposed(&vec![1.0; n + 1], &mut vec![1.0; n + 1])), "transposed substitution of another length");
    ensure!(refuses(|| env.solve_submatrix(&vec![1.0; n + 1 - p], &mut vec![1.0; n + 1 - p], (p, n + 1))), "a block past the end");

    // chained solves
    let mut x = dirty.clone();
    solve_ll(&env, &c.b, &mut x);
    solves(&[&c.l, &lt], &x, &c.b, "solve_ll")?;
    scaled(c.scale, &[&c.l, &lt], &x, &c.b, "solve_ll", |b| {
        let mut x = dirty.clone();
        solve_ll(&env, b, &mut x);
        x
    })?;
    let mut x = dirty.clone();
    solve_ldl(&unit, &diag, &c.b, &mut x);
    solves(&[&ut, &dt, &ut.t()], &x, &c.b, "solve_ldl")?;
    scaled(c.scale, &[&ut, &dt, &ut.t()], &x, &c.b, "solve_ldl", |b| {
        let mut x = dirty.clone();
        solve_ldl(&unit, &diag, b, &mut x);
        x
    })?;
    ensure!(Tab::of(&env) == c.l && Tab::of(&unit) == ut, "solving changed the matrix");
    let block = if q == p { "empty block" } else if (p, q) == (0, n) { "whole" } else if p == 0 { "leading block" } else if q == n { "trailing block" } else { "interior block" };
    let tiny = c.b.iter().any(|x| *x != 0.0 && x.abs() < 1e-15);
    ok_tags(n > 2 && c.env.iter().any(|&e| e > 1), vec![block, if tiny { "tiny right-hand side" } else { "ordinary right-hand side" }, if c.nan { "output held NaN" } else { "output held numbers" }])
}

/// thousands of rows in an envelope that reaches as far, by a generator of its own
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Long {
    n: usize,
    /// rows reach back to this part of what is before them
    reach: Vec<f64>,
    seed: u64,
    range: (f64, f64),
}

fn strat_long() -> BoxedStrategy<Long> {
    (1000usize..2300, prop::collection::vec(prop_oneof![2 => Just(1.0), 1 => 0.0f64..1.0], 5), any::<u64>(), (0.0f64..0.3, 0.7f64..1.0)).prop_map(|(n, reach, seed, range)| Long { n, reach, seed, range }).boxed()
}

fn check_long(c: &Long) -> Result<Info, Fail> {
    let n = c.n;
    let mut s = c.seed | 1;
    let mut next = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) as f64 / (1u64 << 53) as f64
    };
    let env: Vec<usize> = (0..n).map(|i| 1 + (i as f64 * c.reach[i % c.reach.len()]) as usize).collect();
    let mut l = LowerRowEnvelope::from_envelope(env.clone());
    let mut rows: Vec<Vec<f64>> = vec![];
    for i in 0..n {
        // (small beside the diagonal, so that the answers do not grow from row to row)
        let mut r: Vec<f64> = (1..env[i]).map(|_| (next() - 0.5) / (env[i] as f64).sqrt()).collect();
        r.push(1.0 + next());
        for (k, x) in r.iter().enumerate() {
            l[(i, i + 1 - env[i] + k)] = *x;
        }
        rows.push(r);
    }
    let b: Vec<f64> = (0..n).map(|_| next() - 0.5).collect();
    let (p, q) = ((c.range.0 * n as f64) as usize, (c.range.1 * n as f64) as usize);
    // L x, L' x and their terms, of the block p..q
    let times = |x: &[f64], p: usize, q: usize, transposed: bool| {
        let (mut y, mut t) = (vec![0.0; q - p], vec![0.0; q - p]);
        for i in p..q {
            let first = i + 1 - env[i];
            for (k, v) in rows[i].iter().enumerate().filter(|(k, _)| first + k >= p) {
                let (to, from) = if transposed { (first + k, i) } else { (i, first + k) };
                y[to - p] += v * x[from - p];
                t[to - p] += (v * x[from - p]).abs();
            }
        }
        (y, t)
    };
    let agree = |got: (Vec<f64>, Vec<f64>), b: &[f64], what: &str| -> Result<(), Fail> {
        for i in 0..b.len() {
            ensure!((got.0[i] - b[i]).abs() <= 1e-12 * (got.1[i] + b[i].abs()), "{}: equation {} of {} gives {} instead of {}", what, i, b.len(), got.0[i], b[i]);
        }
        Ok(())
    };
    let mut x = vec![f64::NAN; n];
    l.solve(&b, &mut x);
    agree(times(&x, 0, n, false), &b, "long forward substitution")?;
    let mut x = vec![f64::NAN; n];
    l.solve_transposed(&b, &mut x);
    agree(times(&x, 0, n, true), &b, "long transposed substitution")?;
    let mut x = vec![f64::NAN; q - p];
    l.solve_submatrix(&b[p..q], &mut x, (p, q));
    agree(times(&x, p, q, false), &b[p..q], "long substitution on a block")?;
    let (mut x, mut y) = (vec![f64::NAN; n], vec![f64::NAN; n]);
    solve_ll(&l, &b, &mut x);
    l.solve(&b, &mut y);
    let (z, t) = times(&x, 0, n, true);
    let (w, u) = times(&z, 0, n, false);
    let (_, v) = times(&t, 0, n, false);
    agree((w, u.iter().zip(&v).map(|(a, b)| a.abs().max(b.abs())).collect()), &b, "long solve_ll")?;
    ok(env.iter().any(|e| *e > 1000))
}

fn strat_hundreds() -> BoxedStrategy<Case> {
    cases((257usize..=320).boxed())
}

pub fn property() -> Property {
    Property {
        id: "C05",
        families: vec![
            Box::new(Family {
                name: "substitution-long",
                rule: "envelope storage of 1000..2300 rows reaching far back. Non-trivial: a row of more than 1000 entries",
                quick: 24,
                thorough: 800,
                strategy: strat_long,
                check: check_long,
            }),
            Box::new(Family {
                name: "substitution-hundreds",
                rule: "as substitution, of 257..320. Non-trivial: an off-diagonal envelope",
                quick: 40,
                thorough: 1200,
                strategy: strat_hundreds,
                check: check,
            }),
            Box::new(Family {
                name: "substitution-large",
                rule: "as substitution, of 12..48. Non-trivial: an off-diagonal envelope",
                quick: 20_000,
                thorough: 600_000,
                strategy: strat_large,
                check,
            }),
            Box::new(Family {
            name: "substitution",
            rule: "a random triangular factor in a random envelope of 1..11, rows, columns and right-hand sides now and then multiplied by powers of two up to 2^150, a right-hand side with zeros, an output buffer holding numbers or NaN, and a random diagonal block. Non-trivial: dimension above 2 with an off-diagonal envelope",
            quick: 600_000,
            thorough: 18_000_000,
            strategy: strat,
            check,
        }),
        ],
        assumptions: vec!["before rows and columns are multiplied by powers of two, diagonal entries have magnitude 0.3 to 4"],
    }
}
