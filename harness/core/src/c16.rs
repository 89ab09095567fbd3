//! C16: constraint requests combine, reduce and expand without losing a restriction.

use crate::ensure;
use crate::fem::*;
use crate::pbt::*;
use crate::tab::*;
use bugi::element::constraint::{Constraint, DofTransform};
use bugi::element::ElementAssemblage;
use bugi::matrix::{Dictionary, MatrixLike};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

// ------------------------------------------------------------ requests

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Requests {
    nodes: usize,
    cons: Vec<(usize, Con)>,
    order: Vec<u32>,
}

fn con() -> BoxedStrategy<Con> {
    prop_oneof![Just(Con::Free), Just(Con::X), Just(Con::Y), Just(Con::XY), angle().prop_map(Con::Angle)].boxed()
}

fn strat_requests() -> BoxedStrategy<Requests> {
    (1usize..4)
        .prop_flat_map(|n| (Just(n), prop::collection::vec((0..n, con()), 0..9), prop::collection::vec(any::<u32>(), 9)))
        .prop_map(|(nodes, cons, order)| Requests { nodes, cons, order })
        .boxed()
}

fn read(elas: &ElementAssemblage) -> Vec<Constraint> {
    let v = elas.constraints();
    let mut out = vec![Constraint::Free; v.len()];
    for (n, c) in v {
        out[n.into_idx()] = c;
    }
    out
}

fn requested(n: usize, cons: &[(usize, Con)]) -> Vec<Constraint> {
    let mut elas = ElementAssemblage::new(Mat { e: 1.0, nu: 0.0, rho: 1.0 }.of(), Cond::Stress(1.0).of());
    let ids = elas.add_nodes(&(0..n).map(|i| (i as f64, 0.0)).collect::<Vec<_>>());
    for &(i, c) in cons {
        elas.add_constraint(ids[i], c.of());
    }
    read(&elas)
}

/// what the requests on one node add up to
fn outcome(cons: &[Con], got: Constraint) -> Result<(), Fail> {
    let x = cons.iter().any(|c| matches!(c, Con::X | Con::XY));
    let y = cons.iter().any(|c| matches!(c, Con::Y | Con::XY));
    let angles: Vec<f64> = cons.iter().filter_map(|c| if let Con::Angle(a) = c { Some(*a) } else { None }).collect();
    let want = match (x, y) {
        (true, true) => Constraint::XYFixed,
        (true, false) => Constraint::XFixed,
        (false, true) => Constraint::YFixed,
        _ if angles.is_empty() => Constraint::Free,
        _ => {
            // several angles settle on one of their range
            let (lo, hi) = (angles.iter().cloned().fold(f64::INFINITY, f64::min), angles.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            return match got {
                Constraint::AngleFixed(a) if a >= lo && a <= hi => Ok(()),
                _ => Err(format!("requests {:?} gave {:?}", cons, got).into()),
            };
        }
    };
    ensure!(got == want, "requests {:?} gave {:?}, expected {:?}", cons, got, want);
    Ok(())
}

fn check_requests(c: &Requests) -> Result<Info, Fail> {
    let mut by_node = vec![vec![]; c.nodes];
    // after every request, not only the last
    for k in 0..=c.cons.len() {
        if k > 0 {
            by_node[c.cons[k - 1].0].push(c.cons[k - 1].1);
        }
        let got = requested(c.nodes, &c.cons[..k]);
        ensure!(got.len() == c.nodes, "{} constraints for {} nodes", got.len(), c.nodes);
        for (n, seq) in by_node.iter().enumerate() {
            outcome(seq, got[n])?;
        }
    }
    let mut shuffled: Vec<(u32, (usize, Con))> = c.cons.iter().enumerate().map(|(i, x)| (c.order[i], *x)).collect();
    shuffled.sort_by_key(|x| x.0);
    let cons: Vec<(usize, Con)> = shuffled.into_iter().map(|x| x.1).collect();
    let got = requested(c.nodes, &cons);
    for (n, g) in got.iter().enumerate() {
        let seq: Vec<Con> = cons.iter().filter(|x| x.0 == n).map(|x| x.1).collect();
        outcome(&seq, *g)?;
    }
    let most = by_node.iter().map(|v| v.iter().filter(|c| **c != Con::Free).count()).max().unwrap_or(0);
    let mixed = by_node.iter().any(|v| v.iter().any(|c| matches!(c, Con::Angle(_))) && v.iter().any(|c| matches!(c, Con::X | Con::Y | Con::XY)));
    ok_tags(most > 1, vec![if mixed { "angle and axis on one node" } else { "not mixed" }])
}

// ------------------------------------------------------------ reduction and expansion

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Reduce {
    cons: Vec<Con>,
    k: Tab,
    full: Vec<f64>,
    part: Vec<f64>,
}

fn strat_reduce() -> BoxedStrategy<Reduce> {
    (1usize..6)
        .prop_flat_map(|n| {
            let any_k = prop_oneof![2 => sparse_table(2 * n, 2 * n, 50, real()), 1 => table(2 * n, 2 * n, real()), 1 => spd(1).prop_flat_map(move |_| dominant(2 * n, true))];
            (prop::collection::vec(con(), n), any_k, prop::collection::vec(real(), 2 * n), prop::collection::vec(real(), 2 * n))
        })
        .prop_flat_map(|(cons, k, full, part)| (Just(cons), Just(k), Just(full), Just(part), exponent(200), exponent(200)))
        .prop_map(|(cons, k, full, part, e, d)| Reduce { cons, k: k.scale(pow2(e)), full: full.iter().map(|x| x * pow2(d)).collect(), part: part.iter().map(|x| x * pow2(d)).collect() })
        .boxed()
}

fn check_reduce(c: &Reduce) -> Result<Info, Fail> {
    let n = 2 * c.cons.len();
    let cons: Vec<Constraint> = c.cons.iter().map(|x| x.of()).collect();
    let t = DofTransform::from_constraints(&cons);
    let free: usize = c.cons.iter().map(|x| x.free().len()).sum();
    let reduced = t.bar_vec(&c.full);
    ensure!(reduced.len() == free, "{} reduced unknowns for {} unconstrained directions", reduced.len(), free);
    // the expansion, column by column
    let mut e = Tab::new(n, free);
    for j in 0..free {
        let unit: Vec<f64> = (0..free).map(|i| if i == j { 1.0 } else { 0.0 }).collect();
        let col = t.unbar_vec(&unit);
        ensure!(col.len() == n, "{} expanded unknowns of {}", col.len(), n);
        (0..n).for_each(|i| e.set(i, j, col[i]));
    }
    let near = |a: &[f64], b: &[f64], size: f64, what: &str| -> Result<(), Fail> {
        ensure!(a.len() == b.len() && vdist(a, b) <= 1e-12 * size + 1e-300, "{}: {:?}, expected {:?}", what, a, b);
        Ok(())
    };
    let gram = e.t().mul(&e);
    ensure!(gram.sub(&Tab::eye(free)).maxabs() <= 1e-14 * 4.0, "expansion does not keep lengths: {:?}", gram.v);
    for (i, con) in c.cons.iter().enumerate() {
        for d in con.fixed() {
            for j in 0..free {
                let x = e.at(2 * i, j) * d[0] + e.at(2 * i + 1, j) * d[1];
                ensure!(x.abs() <= 1e-15, "node {} under {:?} is moved by {:e} along its constraint", i, con, x);
            }
        }
    }
    // reduction is its transpose, for vectors and on both sides of matrices
    near(&reduced, &e.t().mulv(&c.full), vnorm(&c.full), "reduced vector")?;
    let part = &c.part[..free];
    near(&t.unbar_vec(part), &e.mulv(part), vnorm(part), "expanded vector")?;
    near(&t.bar_vec(&t.unbar_vec(part)), part, vnorm(part), "expanded and reduced")?;
    let kb = Tab::of(&t.bar_matrix(&dict_of(&c.k)));
    let want = e.t().mul(&c.k).mul(&e);
    ensure!((kb.r, kb.c) == (free, free), "reduced matrix of {}x{} for {} unknowns", kb.r, kb.c, free);
    ensure!(kb.sub(&want).maxabs() <= 1e-12 * c.k.norm(), "reduced matrix {:?}, expected {:?}", kb.v, want.v);
    let (a, b) = (dot(part, &kb.mulv(part)), {
        let u = t.unbar_vec(part);
        dot(&u, &c.k.mulv(&u))
    });
    ensure!((a - b).abs() <= 1e-11 * c.k.norm() * dot(part, part), "energy {} reduced, {} expanded", a, b);
    let angled = c.cons.iter().any(|x| matches!(x, Con::Angle(_)));
    ok_tags(free > 1 && free < n, vec![if angled { "angled" } else { "axis only" }])
}

// ------------------------------------------------------------ many nodes

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Many {
    cons: Vec<Con>,
    /// entries of the matrix to reduce
    k: Vec<(usize, usize, f64)>,
    full: Vec<f64>,
}

fn strat_many() -> BoxedStrategy<Many> {
    (130usize..420, 1usize..600)
        .prop_flat_map(|(n, count)| {
            let entry = prop_oneof![2 => (0..2 * n, 0..2 * n, real()), 1 => (0..2 * n, real()).prop_map(|(i, x)| (i, i, x))];
            (prop::collection::vec(con(), n), prop::collection::vec(entry, count), prop::collection::vec(real(), 2 * n))
        })
        .prop_map(|(cons, k, full)| Many { cons, k, full })
        .boxed()
}

fn check_many(c: &Many) -> Result<Info, Fail> {
    let n = 2 * c.cons.len();
    let cons: Vec<Constraint> = c.cons.iter().map(|x| x.of()).collect();
    let t = DofTransform::from_constraints(&cons);
    let free: usize = c.cons.iter().map(|x| x.free().len()).sum();
    let reduced = t.bar_vec(&c.full);
    ensure!(reduced.len() == free, "{} reduced unknowns for {} unconstrained directions", reduced.len(), free);
    // row by row what the reduced unknowns do
    let mut rows: Vec<Vec<(usize, f64)>> = vec![vec![]; n];
    let mut unit = vec![0.0; free];
    for j in 0..free {
        unit[j] = 1.0;
        let col = t.unbar_vec(&unit);
        unit[j] = 0.0;
        ensure!(col.len() == n, "{} expanded unknowns of {}", col.len(), n);
        (0..n).filter(|&i| col[i] != 0.0).for_each(|i| rows[i].push((j, col[i])));
    }
    let mut gram: BTreeMap<(usize, usize), f64> = (0..free).map(|j| ((j, j), -1.0)).collect();
    for r in &rows {
        for (a, x) in r {
            r.iter().for_each(|(b, y)| *gram.entry((*a, *b)).or_insert(0.0) += x * y);
        }
    }
    ensure!(gram.values().all(|x| x.abs() <= 1e-14), "expansion does not keep lengths: {:?}", gram.iter().find(|x| x.1.abs() > 1e-14));
    for (i, con) in c.cons.iter().enumerate() {
        for d in con.fixed() {
            for j in 0..free {
                let at = |r: usize| rows[r].iter().find(|x| x.0 == j).map_or(0.0, |x| x.1);
                let x = at(2 * i) * d[0] + at(2 * i + 1) * d[1];
                ensure!(x.abs() <= 1e-15, "node {} under {:?} is moved by {:e} along its constraint", i, con, x);
            }
        }
    }
    let mut want = vec![0.0; free];
    let mut size = vec![0.0; free];
    for (i, r) in rows.iter().enumerate() {
        for (j, x) in r {
            want[*j] += x * c.full[i];
            size[*j] += (x * c.full[i]).abs();
        }
    }
    ensure!((0..free).all(|j| (reduced[j] - want[j]).abs() <= 1e-13 * size[j]), "reduced vector of {} nodes", n / 2);
    let mut k: BTreeMap<(usize, usize), f64> = BTreeMap::new();
    c.k.iter().for_each(|&(i, j, x)| *k.entry((i, j)).or_insert(0.0) += x);
    let mut dict = Dictionary::zeros((n, n));
    k.iter().for_each(|(l, x)| dict[*l] = *x);
    let kb = t.bar_matrix(&dict);
    ensure!(kb.shape() == (free, free), "reduced matrix of {:?} for {} unknowns", kb.shape(), free);
    let mut want: BTreeMap<(usize, usize), (f64, f64)> = BTreeMap::new();
    for (&(i, j), v) in &k {
        for (a, x) in &rows[i] {
            for (b, y) in &rows[j] {
                let e = want.entry((*a, *b)).or_insert((0.0, 0.0));
                e.0 += x * v * y;
                e.1 += (x * v * y).abs();
            }
        }
    }
    for (l, (x, s)) in &want {
        let g = kb.get(*l).copied().unwrap_or(0.0);
        ensure!((g - x).abs() <= 1e-13 * s, "reduced matrix at {:?}: {}, expected {}", l, g, x);
    }
    for (l, x) in kb.nzs() {
        ensure!(x == 0.0 || want.contains_key(&l), "reduced matrix at {:?}: {}, expected nothing", l, x);
    }
    ok(free > n / 4)
}

// ------------------------------------------------------------ text

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Text {
    con: Con,
    text: String,
}

fn strat_text() -> BoxedStrategy<Text> {
    let wild = prop_oneof![-7.0f64..7.0, any::<i32>().prop_map(|x| x as f64), (-1.0f64..1.0, -300i32..300).prop_map(|(x, e)| x * 10f64.powi(e)), Just(-0.0), Just(f64::MAX), Just(f64::MIN_POSITIVE)];
    let con = prop_oneof![1 => Just(Con::Free), 1 => Just(Con::X), 1 => Just(Con::Y), 1 => Just(Con::XY), 6 => wild.prop_map(Con::Angle)];
    let text = prop_oneof![
        3 => prop::sample::select(vec!["", " ", "x ", " x", "X", "yx", "xx", "yy", "xyy", "z", "xz", "xyz", "angle", "angle:", "angle: ", "angle:x", "angle:1.0x", "angle::1", "angle:1:2", "ngle:1", "Angle:1", "angle1", "angle 1", "angle:1,5", "angle:--1", "angle: 1", "angle:1 ", "fixed", "none", "Free", "x,y", "x y", "angle:0x10", "x1", "xangle:1"]).prop_map(|s| s.to_string()),
        2 => "[xyzfre :anglo0-9.+-]{0,9}",
        1 => "angle:[0-9.e+-]{0,7}",
        1 => "\\PC{0,6}",
        1 => "angle:\\PC{0,4}",
    ];
    (con, text).prop_map(|(con, text)| Text { con, text }).boxed()
}

fn check_text(c: &Text) -> Result<Info, Fail> {
    let x = c.con.of();
    let text = x.to_string();
    let back = text.parse::<Constraint>();
    ensure!(back == Ok(x), "{:?} is written {:?} and reads back as {:?}", x, text, back);
    // a generated text is read only if it is the text of a constraint
    let number = c.text.strip_prefix("angle:").and_then(|s| s.parse::<f64>().ok());
    let want = match (c.text.as_str(), number) {
        ("free", _) => Ok(Constraint::Free),
        ("x", _) => Ok(Constraint::XFixed),
        ("y", _) => Ok(Constraint::YFixed),
        ("xy", _) => Ok(Constraint::XYFixed),
        (_, Some(a)) if a.is_finite() => Ok(Constraint::AngleFixed(a)),
        // whether an angle may be no number is not promised
        (_, Some(_)) => return ok_tags(false, vec!["no finite angle"]),
        _ => Err(()),
    };
    let got = c.text.parse::<Constraint>();
    ensure!(got == want, "{:?} reads as {:?}, expected {:?}", c.text, got, want);
    ok_tags(matches!(c.con, Con::Angle(_)), vec![if want.is_ok() { "readable" } else { "refused" }])
}

pub fn property() -> Property {
    Property {
        id: "C16",
        families: vec![
            Box::new(Family {
                name: "requests",
                rule: "sequences of up to eight constraint requests on up to three nodes, judged after each and in another order. Non-trivial: a node with more than one request",
                quick: 800_000,
                thorough: 24_000_000,
                strategy: strat_requests,
                check: check_requests,
            }),
            Box::new(Family { name: "reductions-hundreds", rule: "more than a quarter of the directions of 130 to 420 nodes left free", quick: 1_200, thorough: 60_000, strategy: strat_many, check: check_many }),
            Box::new(Family {
                name: "reduction",
                rule: "any constraint on each of up to five nodes with a random matrix and vectors. Non-trivial: some but not all directions constrained",
                quick: 480_000,
                thorough: 14_400_000,
                strategy: strat_reduce,
                check: check_reduce,
            }),
            Box::new(Family {
                name: "text",
                rule: "constraints written and read back, and texts near the format. Non-trivial: an angled constraint",
                quick: 1_600_000,
                thorough: 48_000_000,
                strategy: strat_text,
                check: check_text,
            }),
        ],
        assumptions: vec!["several angles on one node settle anywhere between the smallest and the largest"],
    }
}
