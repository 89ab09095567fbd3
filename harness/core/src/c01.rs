//! C01: dense matrices (LinearMatrix, ConstMatrix) against a plain table under edit histories.

use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::{ConstMatrix, LinearMatrix, MatrixLike};
use bugi::spatial::Point;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Put(usize, usize, f64),
    IndexSet(usize, usize, f64),
    Mutate(usize, usize, f64),
    Transpose,
    SetRow(usize, Vec<f64>),
    SetCol(usize, Vec<f64>),
    SwapRows(usize, usize),
    SwapCols(usize, usize),
    MutRow(usize, f64),
    MutCol(usize, f64),
    AddScalar(f64),
    MulScalar(f64),
    /// += another matrix, held transposed or not
    AddAssign(Vec<f64>, bool),
    AddAss(Vec<f64>, bool),
    SubAss(Vec<f64>, bool),
    Plus(Vec<f64>, bool),
    Minus(Vec<f64>, bool),
    WrongShape(usize),
    Copy,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    start: Tab,
    how: u8,
    ops: Vec<Op>,
}

fn ops(n: usize, side: usize) -> BoxedStrategy<Vec<Op>> {
    let i = 0usize..side;
    let v = wide();
    let vs = || prop::collection::vec(wide(), 36);
    let b = any::<bool>();
    let op = prop_oneof![
        3 => (i.clone(), i.clone(), v.clone()).prop_map(|(a, b, x)| Op::Put(a, b, x)),
        2 => (i.clone(), i.clone(), v.clone()).prop_map(|(a, b, x)| Op::IndexSet(a, b, x)),
        2 => (i.clone(), i.clone(), v.clone()).prop_map(|(a, b, x)| Op::Mutate(a, b, x)),
        4 => Just(Op::Transpose),
        2 => (i.clone(), vs()).prop_map(|(a, x)| Op::SetRow(a, x)),
        2 => (i.clone(), vs()).prop_map(|(a, x)| Op::SetCol(a, x)),
        2 => (i.clone(), i.clone()).prop_map(|(a, x)| Op::SwapRows(a, x)),
        2 => (i.clone(), i.clone()).prop_map(|(a, x)| Op::SwapCols(a, x)),
        1 => (i.clone(), v.clone()).prop_map(|(a, x)| Op::MutRow(a, x)),
        1 => (i.clone(), v.clone()).prop_map(|(a, x)| Op::MutCol(a, x)),
        1 => v.clone().prop_map(Op::AddScalar),
        1 => v.clone().prop_map(Op::MulScalar),
        2 => (vs(), b).prop_map(|(x, t)| Op::AddAssign(x, t)),
        1 => (vs(), b).prop_map(|(x, t)| Op::AddAss(x, t)),
        1 => (vs(), b).prop_map(|(x, t)| Op::SubAss(x, t)),
        1 => (vs(), b).prop_map(|(x, t)| Op::Plus(x, t)),
        1 => (vs(), b).prop_map(|(x, t)| Op::Minus(x, t)),
        1 => i.prop_map(Op::WrongShape),
        1 => Just(Op::Copy),
    ];
    prop::collection::vec(op, 0..n).boxed()
}

fn strat_large() -> BoxedStrategy<Case> {
    (large(1, 33), large(1, 33))
        .prop_flat_map(|(r, c)| (sparse_table(r, c, 20, wide()), 0u8..8, ops(6, 40)))
        .prop_map(|(start, how, ops)| Case { start, how, ops })
        .boxed()
}

fn strat_linear() -> BoxedStrategy<Case> {
    (dims(6), dims(6))
        .prop_flat_map(|(r, c)| (sparse_table(r, c, 20, wide()), 0u8..8, ops(14, 8)))
        .prop_map(|(start, how, ops)| Case { start, how, ops })
        .boxed()
}

/// a matrix with the given content, held row-major or column-major
fn linear(t: &Tab, transposed: bool) -> LinearMatrix {
    if transposed {
        let mut m = t.t().linear();
        m.transpose();
        m
    } else {
        t.linear()
    }
}

fn refused_outside<M: MatrixLike>(m: &mut M, t: &Tab) -> Result<(), Fail> {
    for loc in [(t.r, 0), (0, t.c), (t.r + 1, t.c + 1)] {
        let m2: &M = m;
        ensure!(refuses(|| m2[loc]), "index {:?} outside {}x{} was read", loc, t.r, t.c);
        ensure!(m.get_mut(loc).is_none(), "get_mut {:?} outside {}x{}", loc, t.r, t.c);
        let m3: &mut M = m;
        ensure!(refuses(|| m3[loc] = 99.0), "index {:?} outside {}x{} was written", loc, t.r, t.c);
    }
    ensure!(refuses(|| m.row(t.r)), "row past the end");
    ensure!(refuses(|| m.col(t.c)), "column past the end");
    Ok(())
}

fn grown(x: &[f64], n: usize) -> Vec<f64> {
    (0..n).map(|i| x[i % x.len()]).collect()
}

/// edits available on every dense matrix; false if the operation is not one of them
fn common<M: MatrixLike>(m: &mut M, t: &mut Tab, op: &Op) -> Result<bool, Fail> {
    let (r, c) = (t.r, t.c);
    match op {
        Op::Put(i, j, x) => {
            // may lie outside: then nothing changes
            m.put((*i, *j), *x);
            if *i < r && *j < c {
                t.set(*i, *j, *x);
            }
        }
        Op::IndexSet(i, j, x) => {
            m[(i % r, j % c)] = *x;
            t.set(i % r, j % c, *x);
        }
        Op::Mutate(i, j, x) => {
            let mut calls = 0;
            m.mutate((*i, *j), |y| {
                *y += x;
                calls += 1;
            });
            let inside = *i < r && *j < c;
            ensure!(calls == inside as usize, "mutate called its function {} times", calls);
            if inside {
                t.add(*i, *j, *x);
            }
        }
        Op::SetRow(i, x) => {
            let x = grown(x, c);
            m.set_row(i % r, x.clone());
            for j in 0..c {
                t.set(i % r, j, x[j]);
            }
        }
        Op::SetCol(j, x) => {
            let x = grown(x, r);
            m.set_col(j % c, x.clone());
            for i in 0..r {
                t.set(i, j % c, x[i]);
            }
        }
        Op::SwapRows(i, k) => {
            let (i, k) = (i % r, k % r);
            m.swap_rows(i, k);
            for j in 0..c {
                let (a, b) = (t.at(i, j), t.at(k, j));
                t.set(i, j, b);
                t.set(k, j, a);
            }
        }
        Op::SwapCols(i, k) => {
            let (i, k) = (i % c, k % c);
            m.swap_cols(i, k);
            for j in 0..r {
                let (a, b) = (t.at(j, i), t.at(j, k));
                t.set(j, i, b);
                t.set(j, k, a);
            }
        }
        Op::MutRow(i, x) => {
            m.mutate_row(i % r, |y| *y = 2.0 * *y - x);
            for j in 0..c {
                let y = t.at(i % r, j);
                t.set(i % r, j, 2.0 * y - x);
            }
        }
        Op::MutCol(j, x) => {
            m.mutate_col(j % c, |y| *y = 2.0 * *y - x);
            for i in 0..r {
                let y = t.at(i, j % c);
                t.set(i, j % c, 2.0 * y - x);
            }
        }
        Op::WrongShape(k) => {
            ensure!(refuses(|| m.clone().set_row(0, vec![1.0; c + 1 + k])), "over-long row accepted");
            ensure!(refuses(|| m.clone().set_col(0, vec![1.0; r + 1 + k])), "over-long column accepted");
            ensure!(refuses(|| m.clone().set_row(0, vec![1.0; c - 1])), "short row accepted");
            ensure!(refuses(|| m.clone().set_row(r + k, vec![1.0; c])), "row outside accepted");
            ensure!(refuses(|| m.clone().swap_rows(0, r + k)), "swap with a row outside accepted");
            ensure!(refuses(|| m.clone().swap_cols(c + k, 0)), "swap with a column outside accepted");
            ensure!(refuses(|| m.clone().mutate_row(r + k, |x| *x = 0.0)), "mutate_row outside accepted");
            ensure!(refuses(|| m.clone().mutate_col(c + k, |x| *x = 0.0)), "mutate_col outside accepted");
        }
        _ => return Ok(false),
    }
    Ok(true)
}

fn check_linear(case: &Case) -> Result<Info, Fail> {
    let mut t = case.start.clone();
    let (r, c) = (t.r, t.c);
    let mut how = "from_flat";
    let mut m = match case.how {
        1 => {
            how = "from_rows";
            LinearMatrix::from_rows((0..r).map(|i| t.v[i * c..(i + 1) * c].to_vec()).collect())
        }
        2 => {
            how = "transposed";
            linear(&t, true)
        }
        3 if r == 1 => {
            how = "row_vec";
            LinearMatrix::row_vec(t.v.clone())
        }
        3 if c == 1 => {
            how = "col_vec";
            LinearMatrix::col_vec(t.v.clone())
        }
        4 if c == 1 => {
            how = "from_vec";
            LinearMatrix::from(t.v.clone())
        }
        4 => {
            how = "zeros+put";
            let mut m = LinearMatrix::zeros((r, c));
            for i in 0..r {
                for j in 0..c {
                    m.put((i, j), t.at(i, j));
                }
            }
            m
        }
        5 if c == 2 || c == 3 => {
            how = "points";
            let ps = (0..r)
                .map(|i| Point::new(&t.v[i * c..(i + 1) * c]))
                .collect::<Vec<Point>>();
            LinearMatrix::from_points_row(ps)
        }
        6 => {
            how = "eye";
            t = Tab::eye(r.max(c));
            LinearMatrix::eye((r, c))
        }
        7 => {
            how = "zeros";
            t = Tab::new(r, c);
            LinearMatrix::zeros((r, c))
        }
        _ => t.linear(),
    };
    reads_agree(&m, &t, true)?;
    for (k, more) in [(0, true), (r - 1, true), (r - 1, false)] {
        let mut rows = vec![vec![1.0; c]; r];
        if more {
            rows[k].push(1.0);
        } else {
            rows[k].pop();
        }
        if r > 1 {
            ensure!(refuses(|| LinearMatrix::from_rows(rows.clone())), "rows of different lengths accepted: {:?}", rows);
        }
    }
    ensure!(refuses(|| LinearMatrix::from_rows(vec![])), "a matrix from no rows");
    if r > 1 {
        let mut ps = vec![Point::zero(2); r];
        ps[r - 1] = Point::zero(1 + 2 * (c % 2));
        ensure!(refuses(|| LinearMatrix::from_points_row(ps.clone())), "points of different dimensions accepted");
    }
    ensure!(refuses(|| LinearMatrix::from_flat((r, c), vec![0.0; r * c + 1])), "too many values accepted");
    ensure!(refuses(|| LinearMatrix::from_flat((r, c), vec![0.0; r * c - 1])), "too few values accepted");
    refused_outside(&mut m, &t)?;

    let mut transposes = 0;
    for (k, op) in case.ops.iter().enumerate() {
        let (r, c) = (t.r, t.c);
        if !common(&mut m, &mut t, op)? {
            let operand = |x: &Vec<f64>, tr: bool| {
                let o = Tab { r, c, v: grown(x, r * c) };
                (linear(&o, tr), o)
            };
            match op {
                Op::Transpose => {
                    m.transpose();
                    t = t.t();
                    transposes += 1;
                }
                Op::AddScalar(x) => {
                    m += *x;
                    t.v.iter_mut().for_each(|y| *y += x);
                }
                Op::MulScalar(x) => {
                    m *= *x;
                    t.v.iter_mut().for_each(|y| *y *= x);
                }
                Op::AddAssign(x, tr) => {
                    let (o, ot) = operand(x, *tr);
                    m += o;
                    t = t.plus(&ot);
                }
                Op::AddAss(x, tr) => {
                    let (o, ot) = operand(x, *tr);
                    m.add_ass(&o);
                    t = t.plus(&ot);
                    reads_agree(&o, &ot, true)?;
                }
                Op::SubAss(x, tr) => {
                    let (o, ot) = operand(x, *tr);
                    m.sub_ass(&o);
                    t = t.sub(&ot);
                    reads_agree(&o, &ot, true)?;
                }
                Op::Plus(x, tr) => {
                    let (o, ot) = operand(x, *tr);
                    let old = m.clone();
                    m = &old + &o;
                    reads_agree(&old, &t, true)?;
                    t = t.plus(&ot);
                }
                Op::Minus(x, tr) => {
                    let (o, ot) = operand(x, *tr);
                    let old = m.clone();
                    m = &old - &o;
                    reads_agree(&old, &t, true)?;
                    t = t.sub(&ot);
                }
                Op::Copy => {
                    let mut copy = m.clone();
                    copy.put((0, 0), 12345.0);
                    copy.transpose();
                    copy += 1.0;
                }
                _ => unreachable!(),
            }
            if let Op::WrongShape(_) = op {
            } else {
                // operands of another shape are refused and leave the matrix alone
                let o = LinearMatrix::zeros((t.r + 1, t.c));
                ensure!(refuses(|| { let mut x = m.clone(); x += o.clone(); x }), "added a matrix of another shape");
                ensure!(refuses(|| m.clone().add_ass(&o)), "add_ass of another shape");
                ensure!(refuses(|| m.clone().sub_ass(&o)), "sub_ass of another shape");
                ensure!(refuses(|| &m + &o), "sum of different shapes");
                ensure!(refuses(|| &m - &o), "difference of different shapes");
            }
        }
        reads_agree(&m, &t, true).map_err(|f| Fail { msg: format!("after op {} {:?}: {}", k, op, f.msg), sig: f.sig })?;
    }

    // equality is by shape and value
    for tr in [false, true] {
        let same = linear(&t, tr);
        ensure!(m == same && same == m, "not equal to a matrix with the same values (transposed build: {})", tr);
        let mut other = same.clone();
        let (i, j) = ((case.ops.len()) % t.r, (case.how as usize + transposes) % t.c);
        other[(i, j)] = other_than(other[(i, j)]);
        ensure!(m != other && other != m, "equal to a matrix that differs at ({},{})", i, j);
        if t.r != t.c {
            let o = linear(&Tab { r: t.c, c: t.r, v: t.v.clone() }, tr);
            ensure!(m != o && o != m, "equal to a matrix of another shape");
        }
    }
    refused_outside(&mut m, &t)?;
    reads_agree(&m, &t, true)?;
    let nontrivial = case.ops.len() >= 3 && t.r * t.c > 1;
    ok_tags(nontrivial, vec![how, if transposes % 2 == 1 { "ends transposed" } else { "ends row-major" }])
}

fn strat_const() -> BoxedStrategy<Case> {
    prop::sample::select(vec![(1usize, 4usize), (2, 2), (4, 1), (1, 6), (2, 3), (3, 2), (6, 1), (3, 3), (3, 4), (4, 3), (2, 6), (6, 2), (4, 4)])
        .prop_flat_map(|(r, c)| (sparse_table(r, c, 20, wide()), 0u8..6, ops(12, 8)))
        .prop_map(|(start, how, ops)| Case { start, how, ops })
        .boxed()
}

fn const_case<const N: usize>(case: &Case) -> Result<Info, Fail> {
    let mut t = case.start.clone();
    let (r, c) = (t.r, t.c);
    let mut m: ConstMatrix<N> = match case.how {
        0 => {
            let mut a = [0.0; N];
            a.copy_from_slice(&t.v);
            ConstMatrix::from_flat_array((r, c), a)
        }
        1 => ConstMatrix::from_rows((0..r).map(|i| t.v[i * c..(i + 1) * c].to_vec()).collect()),
        2 => {
            t = Tab::new(r, c);
            ConstMatrix::zeros((r, c))
        }
        3 if r == c => {
            t = Tab::eye(r);
            ConstMatrix::eye(r)
        }
        4 if r == 1 => ConstMatrix::row_vec(t.v.clone()),
        _ => ConstMatrix::from_flat((r, c), t.v.clone()),
    };
    reads_agree(&m, &t, false)?;
    ensure!(refuses(|| ConstMatrix::<N>::from_flat((r, c), vec![0.0; N + 1])), "too many values accepted");
    ensure!(refuses(|| ConstMatrix::<N>::from_flat((r, c), vec![0.0; N - 1])), "too few values accepted");
    ensure!(refuses(|| ConstMatrix::<N>::zeros((r + 1, c))), "zeros of another size accepted");
    ensure!(refuses(|| ConstMatrix::<N>::from_flat_array((r, c + 1), [0.0; N])), "array of another shape accepted");
    refused_outside(&mut m, &t)?;
    let mut did = 0;
    for (k, op) in case.ops.iter().enumerate() {
        let before = m;
        let before_t = t.clone();
        if !common(&mut m, &mut t, op)? {
            match op {
                Op::AddAss(x, _) | Op::AddAssign(x, _) | Op::Plus(x, _) => {
                    let ot = Tab { r, c, v: grown(x, r * c) };
                    m.add_ass(&ConstMatrix::from_flat((r, c), ot.v.clone()));
                    t = t.plus(&ot);
                }
                Op::SubAss(x, _) | Op::Minus(x, _) => {
                    let ot = Tab { r, c, v: grown(x, r * c) };
                    m.sub_ass(&ConstMatrix::from_flat((r, c), ot.v.clone()));
                    t = t.sub(&ot);
                }
                _ => continue,
            }
        }
        did += 1;
        reads_agree(&m, &t, false).map_err(|f| Fail { msg: format!("after op {} {:?}: {}", k, op, f.msg), sig: f.sig })?;
        reads_agree(&before, &before_t, false)?;
        ensure!((m == before) == (t == before_t), "equality with the previous state is wrong after {:?}", op);
    }
    let same: ConstMatrix<N> = ConstMatrix::from_flat((r, c), t.v.clone());
    ensure!(m == same && same == m, "not equal to a matrix with the same values");
    if r != c {
        let o: ConstMatrix<N> = ConstMatrix::from_flat((c, r), t.v.clone());
        ensure!(m != o, "equal to a matrix of another shape");
    }
    ok_tags(did >= 3, vec![])
}

fn check_const(case: &Case) -> Result<Info, Fail> {
    match case.start.v.len() {
        4 => const_case::<4>(case),
        6 => const_case::<6>(case),
        9 => const_case::<9>(case),
        12 => const_case::<12>(case),
        _ => const_case::<16>(case),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RotCase {
    n: usize,
    a: usize,
    b: usize,
    theta: f64,
    x: Vec<f64>,
}

fn strat_rot() -> BoxedStrategy<RotCase> {
    (2usize..7)
        .prop_flat_map(|n| (Just(n), 0..n, 0..n, -10.0f64..10.0, prop::collection::vec(-5.0f64..5.0, n)))
        .prop_map(|(n, a, b, theta, x)| RotCase { n, a, b, theta, x })
        .boxed()
}

fn check_rot(c: &RotCase) -> Result<Info, Fail> {
    if c.a == c.b {
        ensure!(refuses(|| LinearMatrix::rotation(c.n, c.a, c.b, c.theta)), "rotation in a degenerate plane");
        return ok(false);
    }
    ensure!(refuses(|| LinearMatrix::rotation(c.n, c.n, c.b, c.theta)), "rotation axis outside");
    let m = LinearMatrix::rotation(c.n, c.a, c.b, c.theta);
    let mut t = Tab::eye(c.n);
    t.set(c.a, c.a, c.theta.cos());
    t.set(c.b, c.b, c.theta.cos());
    t.set(c.a, c.b, -c.theta.sin());
    t.set(c.b, c.a, c.theta.sin());
    ensure!(Tab::of(&m).sub(&t).maxabs() <= 1e-15, "rotation({}, {}, {}, {}) = {}", c.n, c.a, c.b, c.theta, m);
    // turning there and back leaves every vector where it was
    let back = LinearMatrix::rotation(c.n, c.a, c.b, -c.theta);
    let y = Tab::of(&back).mulv(&Tab::of(&m).mulv(&c.x));
    ensure!(vdist(&y, &c.x) <= 1e-12 * (1.0 + vnorm(&c.x)), "rotation is not undone by its opposite");
    ok(true)
}

pub fn property() -> Property {
    Property {
        id: "C01",
        families: vec![
            Box::new(Family {
                name: "linear-large",
                rule: "up to 33x33, histories of up to 5 edits. Non-trivial as for the small ones",
                quick: 4_000,
                thorough: 45000,
                strategy: strat_large,
                check: check_linear,
            }),
            Box::new(Family {
                name: "linear-histories",
                rule: "a LinearMatrix of 1..6 by 1..6 made in one of eight ways, then up to 13 edits; every read compared with a table after each. Non-trivial: at least 3 edits and more than one entry",
                quick: 240_000,
                thorough: 7_200_000,
                strategy: strat_linear,
                check: check_linear,
            }),
            Box::new(Family {
                name: "const-histories",
                rule: "a ConstMatrix of 4, 6, 9, 12 or 16 entries in every shape, then up to 11 edits. Non-trivial: at least 3 edits applied",
                quick: 120_000,
                thorough: 3_600_000,
                strategy: strat_const,
                check: check_const,
            }),
            Box::new(Family {
                name: "rotations",
                rule: "an n-dimensional plane rotation, n 2..6. Non-trivial: distinct axes",
                quick: 40_000,
                thorough: 1_200_000,
                strategy: strat_rot,
                check: check_rot,
            }),
        ],
        assumptions: vec!["finite entries; NaN and infinities are not generated"],
    }
}
