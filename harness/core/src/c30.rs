//! C30: an assemblage and its elements report exactly the model that was put in.

use crate::canned::{answer_with, Canned};
use crate::el::{dof, ORDERS};
use crate::ensure;
use crate::fem::*;
use crate::pbt::*;
use bugi::element::constraint::Constraint;
use bugi::element::element::Element;
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, ElementDescriptor, NodeId};
use bugi::matrix::{LinearMatrix, MatrixLike};
use bugi::spatial::Point;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    /// nodes, given as pairs or as points
    Nodes(Vec<P2>, bool),
    /// an element; whether it is only tried
    Element([usize; 3], bool),
    /// an element on a node that is not there yet
    Missing([usize; 3], bool),
    /// an element on three nodes of which two are one, or on one line
    Flat([usize; 3], bool),
    Force(usize, P2),
    Line(usize, usize, P2),
    Constraint(usize, Con),
    MissingConstraint(usize, Con),
    Solve,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    cond: Cond,
    mat: Mat,
    ops: Vec<Op>,
    u: Vec<f64>,
}

/// whole coordinates, so that rounding does not decide whether a triangle is flat; some a little beside
fn point() -> BoxedStrategy<P2> {
    (1i32..14, -7i32..7, prop_oneof![6 => Just((0, 0)), 1 => (-2i32..3, -2i32..3)]).prop_map(|(x, y, d)| [x as f64 + d.0 as f64 / 1024.0, y as f64 + d.1 as f64 / 1024.0]).boxed()
}

fn value() -> BoxedStrategy<f64> {
    prop_oneof![4 => -10.0f64..10.0, 1 => Just(0.0), 1 => (-1.0f64..1.0, -250i32..250).prop_map(|(x, e)| x * 10f64.powi(e))].boxed()
}

fn op() -> BoxedStrategy<Op> {
    let i = || 0usize..1000;
    let con = prop_oneof![Just(Con::Free), Just(Con::X), Just(Con::Y), Just(Con::XY), (-7.0f64..7.0).prop_map(Con::Angle)];
    let con2 = con.clone();
    prop_oneof![
        3 => (prop::collection::vec(point(), 0..6), any::<bool>()).prop_map(|(v, b)| Op::Nodes(v, b)),
        8 => (prop::array::uniform3(i()), any::<bool>()).prop_map(|(v, b)| Op::Element(v, b)),
        1 => (prop::array::uniform3(i()), any::<bool>()).prop_map(|(v, b)| Op::Missing(v, b)),
        1 => (prop::array::uniform3(i()), any::<bool>()).prop_map(|(v, b)| Op::Flat(v, b)),
        2 => (i(), (value(), value())).prop_map(|(n, f)| Op::Force(n, [f.0, f.1])),
        2 => (i(), i(), (value(), value())).prop_map(|(n, m, f)| Op::Line(n, m, [f.0, f.1])),
        3 => (i(), con).prop_map(|(n, c)| Op::Constraint(n, c)),
        1 => (i(), con2).prop_map(|(n, c)| Op::MissingConstraint(n, c)),
        1 => Just(Op::Solve),
    ]
    .boxed()
}

fn strat_of(most: usize, first: usize) -> BoxedStrategy<Case> {
    (condition(), material(), prop::collection::vec(point(), 0..first), prop::collection::vec(op(), 1..most), prop::collection::vec(-1.0f64..1.0, 17))
        .prop_map(|(cond, mat, pts, mut ops, u)| {
            ops.insert(0, Op::Nodes(pts, true));
            Case { cond, mat, ops, u }
        })
        .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    strat_of(25, 8)
}

fn strat_large() -> BoxedStrategy<Case> {
    strat_of(900, 150)
}

#[derive(Default)]
struct Book {
    pts: Vec<P2>,
    tris: Vec<[usize; 3]>,
    conc: BTreeMap<usize, P2>,
    line: BTreeMap<(usize, usize), P2>,
    cons: Vec<Vec<Con>>,
}

fn xy(p: Point) -> Result<P2, Fail> {
    ensure!(p.dim() == 2, "a point of {} dimensions", p.dim());
    Ok([p[0], p[1]])
}

/// the constraint a node must have after these requests; none where several angles meet
fn combined(cons: &[Con]) -> Option<Constraint> {
    let x = cons.iter().any(|c| matches!(c, Con::X | Con::XY));
    let y = cons.iter().any(|c| matches!(c, Con::Y | Con::XY));
    let angles: BTreeSet<u64> = cons.iter().filter_map(|c| if let Con::Angle(a) = c { Some(a.to_bits()) } else { None }).collect();
    match (x, y, angles.len()) {
        (true, true, _) => Some(Constraint::XYFixed),
        (true, false, _) => Some(Constraint::XFixed),
        (false, true, _) => Some(Constraint::YFixed),
        (false, false, 0) => Some(Constraint::Free),
        (false, false, 1) => Some(Constraint::AngleFixed(f64::from_bits(*angles.iter().next().unwrap()))),
        _ => None,
    }
}

fn sides(t: &[usize; 3]) -> [(usize, usize); 3] {
    let s = |a: usize, b: usize| (a.min(b), a.max(b));
    [s(t[0], t[1]), s(t[1], t[2]), s(t[0], t[2])]
}

/// everything the assemblage tells about itself
fn compare(elas: &ElementAssemblage, b: &Book, c: &Case, what: &str) -> Result<(), Fail> {
    let n = b.pts.len();
    ensure!(elas.node_count() == n, "{}: {} nodes counted of {}", what, elas.node_count(), n);
    let nodes = elas.nodes();
    let ids: Vec<NodeId> = elas.node_ids().collect();
    ensure!(nodes.len() == n && ids.len() == n, "{}: {} nodes and {} ids of {}", what, nodes.len(), ids.len(), n);
    for i in 0..n {
        ensure!(ids[i].into_idx() == i && ids[i] == NodeId::new(i), "{}: id {} is called {:?}", what, i, ids[i]);
        ensure!(xy(nodes[i])? == b.pts[i] && xy(elas.node(ids[i]))? == b.pts[i], "{}: node {} is {:?} or {:?}, was put at {:?}", what, i, nodes[i], elas.node(ids[i]), b.pts[i]);
    }
    let tris: Vec<[usize; 3]> = elas.element_descriptors().into_iter().map(|d| d.into_parts()).map(|t| [t[0].into_idx(), t[1].into_idx(), t[2].into_idx()]).collect();
    ensure!(tris == b.tris, "{}: elements {:?}, were put in as {:?}", what, tris, b.tris);
    let mut drawn: Vec<[usize; 3]> = elas.triangles().into_iter().map(|t| [t.0, t.1, t.2]).collect();
    let mut want: Vec<[usize; 3]> = b.tris.clone();
    drawn.iter_mut().chain(want.iter_mut()).for_each(|t| t.sort());
    drawn.sort();
    want.sort();
    ensure!(drawn == want, "{}: triangles {:?} of elements {:?}", what, drawn, b.tris);
    let edges = elas.edges();
    let once: BTreeSet<(usize, usize)> = edges.iter().cloned().collect();
    ensure!(once.len() == edges.len(), "{}: an edge is listed twice in {:?}", what, edges);
    let got: BTreeSet<(usize, usize)> = edges.iter().map(|&(p, q)| (p.min(q), p.max(q))).collect();
    let want: BTreeSet<(usize, usize)> = b.tris.iter().flat_map(|t| sides(t)).collect();
    ensure!(got == want, "{}: edges {:?}, the elements have {:?}", what, got, want);
    let mut conc = BTreeMap::new();
    for (i, f) in elas.conc_forces() {
        ensure!(conc.insert(i.into_idx(), xy(f)?).is_none(), "{}: the force on node {:?} is listed twice", what, i);
    }
    ensure!(conc == b.conc, "{}: forces {:?}, were put in as {:?}", what, conc, b.conc);
    let mut line = BTreeMap::new();
    for ((p, q), f) in elas.dist_forces() {
        ensure!(line.insert((p.into_idx(), q.into_idx()), xy(f)?).is_none(), "{}: the load on {:?} {:?} is listed twice", what, p, q);
    }
    ensure!(line == b.line, "{}: line loads {:?}, were put in as {:?}", what, line, b.line);
    let cons = elas.constraints();
    ensure!(cons.len() == n, "{}: {} constraints for {} nodes", what, cons.len(), n);
    for (i, (id, con)) in cons.iter().enumerate() {
        ensure!(id.into_idx() == i, "{}: constraint {} belongs to {:?}", what, i, id);
        if let Some(w) = combined(&b.cons[i]) {
            ensure!(*con == w, "{}: node {} has constraint {:?} after requests {:?}", what, i, con, b.cons[i]);
        }
        let (plain, struck) = match con {
            Constraint::XFixed => (true, [true, false]),
            Constraint::YFixed => (true, [false, true]),
            Constraint::XYFixed => (true, [true, true]),
            _ => (false, [false, false]),
        };
        ensure!(con.is_plain() == plain && con.plain_dim_struck(0) == struck[0] && con.plain_dim_struck(1) == struck[1], "{}: {:?} strikes {} {}", what, con, con.plain_dim_struck(0), con.plain_dim_struck(1));
    }
    let (m, w) = (elas.material(), c.mat.of());
    ensure!(m.name == w.name && m.youngs == w.youngs && m.poisson == w.poisson && m.density == w.density, "{}: material {:?}, was {:?}", what, m, w);
    let (same, len) = match (elas.condition(), c.cond) {
        (Condition::PlaneStress(t), Cond::Stress(s)) | (Condition::PlaneStrain(t), Cond::Strain(s)) => (t == s, 3),
        (Condition::Axisymmetric, Cond::Axi) => (true, 4),
        _ => (false, 0),
    };
    ensure!(same && elas.condition().vec_len() == len, "{}: condition {:?}, was {:?}", what, elas.condition(), c.cond);
    Ok(())
}

/// what an element tells about itself
fn element(elas: &ElementAssemblage, t: [usize; 3], b: &Book, c: &Case) -> Result<(), Fail> {
    let ids = [NodeId::new(t[0]), NodeId::new(t[1]), NodeId::new(t[2])];
    let e = Element::new(elas, ids);
    ensure!(e.node_ids() == ids, "nodes {:?} of an element on {:?}", e.node_ids(), t);
    let p = e.node_points();
    let corners = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]];
    for k in 0..3 {
        let w = b.pts[t[k]];
        let at = e.node(ids[k]).ok_or_else(|| format!("element {:?} does not know its corner {}", t, k))?;
        let nat = e.node_natural(ids[k]).ok_or_else(|| format!("element {:?} does not know its corner {}", t, k))?;
        ensure!(xy(p[k])? == w && xy(at)? == w, "corner {} of element {:?} is at {:?} and {:?}, the node at {:?}", k, t, p[k], at, w);
        ensure!(xy(nat)? == corners[k], "corner {} of element {:?} has natural coordinates {:?}", k, t, nat);
    }
    let near: Vec<usize> = t.iter().cloned().chain((0..b.pts.len()).filter(|i| !t.contains(i)).take(3)).collect();
    for &i in &near {
        ensure!(t.contains(&i) || (e.node(NodeId::new(i)).is_none() && e.node_natural(NodeId::new(i)).is_none()), "element {:?} takes node {} for a corner", t, i);
        for &j in &near {
            let joined = i != j && t.contains(&i) && t.contains(&j);
            let (a, z) = (NodeId::new(i), NodeId::new(j));
            ensure!(e.nodes_connect(a, z) == joined, "element {:?} {} {} and {}", t, if joined { "does not join" } else { "joins" }, i, j);
            // a load along one of its sides, half at each end, and along nothing else
            let f = [c.u[i % c.u.len()], 3.0 * c.u[(i + j) % c.u.len()] + 0.5];
            let got = e.int_f_l((a, z), Point::new(&f));
            let Some(got) = got else {
                ensure!(!joined, "a load along {} {} is not taken by element {:?}", i, j, t);
                continue;
            };
            ensure!(joined, "a load along {} {} is taken by element {:?}", i, j, t);
            let len = (b.pts[i][0] - b.pts[j][0]).hypot(b.pts[i][1] - b.pts[j][1]);
            let mut at: BTreeMap<(usize, usize), f64> = BTreeMap::new();
            for (d, x) in got {
                *at.entry(dof(&d)).or_insert(0.0) += x;
            }
            for (k, w) in t.iter().flat_map(|&k| (0..2).map(move |d| ((k, d), if k == i || k == j { f[d] * len / 2.0 } else { 0.0 }))) {
                let x = at.remove(&k).unwrap_or(0.0);
                ensure!((x - w).abs() <= 1e-12 * len * (f[0].abs() + f[1].abs()), "a load {:?} along {} {} gives node {} {}, expected {}", f, i, j, k.0, x, w);
            }
            ensure!(at.is_empty(), "a load along {} {} reaches {:?}", i, j, at);
        }
    }
    let mine: BTreeSet<(usize, usize)> = e.edges().iter().map(|&(a, z)| (a.into_idx().min(z.into_idx()), a.into_idx().max(z.into_idx()))).collect();
    ensure!(e.edges().len() == 3 && mine == sides(&t).iter().cloned().collect(), "edges {:?} of element {:?}", e.edges(), t);
    let tri = e.triangles();
    ensure!(tri.len() == 1 && [tri[0].0, tri[0].1, tri[0].2] == ids, "triangles {:?} of element {:?}", tri, t);
    let m = e.material();
    ensure!(m.youngs == c.mat.e && m.poisson == c.mat.nu && m.density == c.mat.rho, "material {:?} of an element of {:?}", m, c.mat);
    // numbers go where they belong
    let v: Vec<f64> = (0..6).map(|i| c.u[i] + i as f64).collect();
    let mapped = e.map_vec(&v);
    ensure!(mapped.len() == 6, "{} of 6 numbers mapped", mapped.len());
    for i in 0..6 {
        ensure!(dof(&mapped[i].0) == (t[i / 2], i % 2) && mapped[i].1 == v[i] && dof(&e.map_dof(i)) == (t[i / 2], i % 2), "number {} of element {:?} goes to {:?}", i, t, mapped[i]);
    }
    let mat = LinearMatrix::from_flat((6, 6), (0..36).map(|i| c.u[i % c.u.len()] + i as f64));
    let mut seen = BTreeSet::new();
    for (a, z, x) in e.map_matrix(&mat) {
        let (a, z) = (dof(&a), dof(&z));
        let place = |d: (usize, usize)| t.iter().position(|&k| k == d.0).map(|k| 2 * k + d.1);
        let (Some(i), Some(j)) = (place(a), place(z)) else { return Err(format!("an entry of element {:?} goes to {:?} {:?}", t, a, z).into()) };
        ensure!(seen.insert((i, j)) && x == mat[(i, j)], "entry {} {} of element {:?} goes to {:?} {:?} as {}", i, j, t, a, z, x);
    }
    ensure!(seen.len() == 36, "{} of 36 entries mapped", seen.len());
    let r = e.jacobian_ratio();
    ensure!((r - 1.0).abs() < 1e-9, "a straight-sided element {:?} has jacobian ratio {}", t, r);
    Ok(())
}

fn check(c: &Case) -> Result<Info, Fail> {
    let mut elas = ElementAssemblage::new(c.mat.of(), c.cond.of());
    let mut b = Book::default();
    let (mut refused, mut solved) = (0, 0);
    answer_with(&c.u);
    let long = c.ops.len() > 100;
    compare(&elas, &b, c, "empty")?;
    for (k, op) in c.ops.iter().enumerate() {
        let n = b.pts.len();
        let what = format!("step {}", k);
        match op {
            Op::Nodes(pts, pairs) => {
                let got = if *pairs {
                    elas.add_nodes(&pts.iter().map(|p| (p[0], p[1])).collect::<Vec<_>>())
                } else {
                    elas.add_nodes(&pts.iter().map(|p| Point::new(p)).collect::<Vec<_>>())
                };
                let got: Vec<usize> = got.into_iter().map(|i| i.into_idx()).collect();
                ensure!(got == (n..n + pts.len()).collect::<Vec<_>>(), "{}: {} nodes after {} are called {:?}", what, pts.len(), n, got);
                b.pts.extend(pts);
                b.cons.resize(b.pts.len(), vec![]);
            }
            Op::Element(v, try_it) | Op::Missing(v, try_it) | Op::Flat(v, try_it) => {
                if n < 3 {
                    continue;
                }
                let mut t = [v[0] % n, v[1] % n, v[2] % n];
                match op {
                    Op::Missing(..) => t[v[0] % 3] = n + v[1] % 4,
                    Op::Flat(..) => t[v[0] % 3] = t[(v[0] + 1) % 3],
                    // now and then one on top of another
                    _ if v[1] % 8 == 0 && !b.tris.is_empty() => {
                        let old = b.tris[v[0] % b.tris.len()];
                        t = [0, 1, 2].map(|k| old[ORDERS[v[2] % ORDERS.len()][k]]);
                    }
                    _ => {}
                }
                let there = t.iter().all(|i| *i < n);
                // (on a line, but not in whole numbers: rounding may decide)
                if there && area(&[b.pts[t[0]], b.pts[t[1]], b.pts[t[2]]]) == 0.0 && t.iter().any(|&i| b.pts[i].iter().any(|x| x.fract() != 0.0)) && t[0] != t[1] && t[1] != t[2] && t[2] != t[0] {
                    continue;
                }
                let good = there && area(&[b.pts[t[0]], b.pts[t[1]], b.pts[t[2]]]) != 0.0;
                let d = ElementDescriptor::new([NodeId::new(t[0]), NodeId::new(t[1]), NodeId::new(t[2])]);
                if *try_it && there {
                    let r = elas.try_add_element(d);
                    ensure!(r.is_ok() == good, "{}: element {:?} at {:?} gives {:?}", what, t, t.iter().map(|&i| b.pts[i]).collect::<Vec<_>>(), r);
                } else {
                    let r = attempt(|| elas.add_element(d));
                    ensure!(r.is_ok() == good, "{}: element {:?} of {} nodes gives {:?}", what, t, n, r);
                }
                if good {
                    b.tris.push(t);
                    element(&elas, t, &b, c)?;
                    if b.tris.len() % 7 == 1 {
                        for o in &ORDERS[1..] {
                            element(&elas, [t[o[0]], t[o[1]], t[o[2]]], &b, c)?;
                        }
                    }
                } else {
                    refused += 1;
                }
            }
            Op::Force(i, f) if n > 0 => {
                elas.add_conc_force(NodeId::new(i % n), Point::new(f));
                b.conc.insert(i % n, *f);
            }
            Op::Line(i, j, f) if n > 0 => {
                // usually along an element
                let (p, q) = match b.tris.get(i % b.tris.len().max(1)) {
                    Some(t) if j % 4 > 0 => (t[j % 3], t[(j / 3 + 1 + j) % 3]),
                    _ => (i % n, j % n),
                };
                if p != q {
                    elas.add_dist_line_force(NodeId::new(p), NodeId::new(q), Point::new(f));
                    b.line.insert((p, q), *f);
                }
            }
            Op::Constraint(i, con) if n > 0 => {
                elas.add_constraint(NodeId::new(i % n), con.of());
                b.cons[i % n].push(*con);
            }
            Op::MissingConstraint(i, con) => {
                refused += 1;
                ensure!(refuses(|| elas.add_constraint(NodeId::new(n + i % 3), con.of())), "{}: a constraint on node {} of {} is taken", what, n + i % 3, n);
            }
            Op::Solve => {
                // loads along lines that are no side are refused here; either way nothing changes
                if n > 0 && attempt(|| elas.calc_displacements::<Canned>().displaced_nodes(1.0).len()).is_ok() {
                    solved += 1;
                }
            }
            _ => {}
        }
        if !long || k % 50 == 0 {
            compare(&elas, &b, c, &what)?;
        }
    }
    compare(&elas, &b, c, "in the end")?;
    ok_tags(b.tris.len() > 1 && b.conc.len() + b.line.len() + b.cons.iter().flatten().count() > 1, vec![if refused > 0 { "with refusals" } else { "all taken" }, if solved > 0 { "solved in between" } else { "not solved" }])
}

pub fn property() -> Property {
    Property {
        id: "C30",
        families: vec![
            Box::new(Family {
                name: "histories",
                rule: "up to 25 steps of adding nodes, elements (good, flat, on missing nodes), forces, line loads, constraints and solving, everything compared after each. Non-trivial: more than one element and more than one load or constraint",
                quick: 100_000,
                thorough: 3_000_000,
                strategy: strat,
                check,
            }),
            Box::new(Family {
                name: "histories-large",
                rule: "up to 900 steps, compared now and then. Non-trivial: more than one element and more than one load or constraint",
                quick: 1_000,
                thorough: 30_000,
                strategy: strat_large,
                check,
            }),
        ],
        assumptions: vec!["whole coordinates, so that flat elements are flat exactly", "where several different angles meet on a node the constraint is left to C16"],
    }
}
