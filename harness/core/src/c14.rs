//! C14: the load vector of an assemblage, read through a solver that stiffens every degree of
//! freedom so much that the displacements are the loads themselves.

use crate::ensure;
use crate::fem::*;
use crate::pbt::*;
use bugi::element::{ElementAssemblage, ElementDescriptor, NodeId};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::{Solver, System};
use bugi::spatial::Point;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;

thread_local! {
    static SPRING: Cell<f64> = Cell::new(1.0);
}

struct Sprung(System);

impl Solver for Sprung {
    fn new(mut sys: System) -> Self {
        let a = SPRING.with(|s| s.get());
        for i in 0..sys.dofs() {
            sys.add_k_coefficient((i, i), a);
        }
        Sprung(sys)
    }
    fn solve(self) -> Result<Vec<f64>, ()> {
        if self.0.dofs() > 1000 {
            return CholeskyEnvelopeSolver::new(self.0).solve();
        }
        DenseGaussSolver::new(self.0).solve()
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    model: Model,
    /// a number per node, element and load deciding when it is added
    keys: Vec<u32>,
    /// load edges named the other way round
    swap: Vec<bool>,
    /// nodes of no element before those of the body
    #[serde(default)]
    spare: usize,
}

fn strat() -> BoxedStrategy<Case> {
    strat_of(3, 2, 8)
}

fn strat_large() -> BoxedStrategy<Case> {
    strat_of(8, 5, 60)
}

fn strat_hundreds() -> BoxedStrategy<Case> {
    strat_of(18, 16, 400)
}

fn strat_far() -> BoxedStrategy<Case> {
    (strat_of(3, 2, 8), 100usize..1500).prop_map(|(c, spare)| Case { spare, ..c }).boxed()
}

/// the model among other nodes
fn among(m: &Model, spare: usize) -> Model {
    let mut m = m.clone();
    let mut pts: Vec<P2> = (0..spare).map(|i| [1.0 + i as f64, 0.5 * i as f64]).collect();
    pts.extend(&m.mesh.pts);
    m.mesh.pts = pts;
    m.mesh.tris.iter_mut().flatten().for_each(|i| *i += spare);
    m.conc.iter_mut().for_each(|x| x.0 += spare);
    m.line.iter_mut().for_each(|x| {
        x.0 += spare;
        x.1 += spare;
    });
    m
}

fn strat_of(max_x: usize, max_y: usize, lines: usize) -> BoxedStrategy<Case> {
    (condition(), prop_oneof![Just(Mat { e: 1.0, nu: 0.0, rho: 1.0 }).boxed(), material()])
        .prop_flat_map(move |(cond, mat)| (Just((cond, mat)), layered_mesh(mesh(max_x, max_y, !cond.plane()))))
        .prop_flat_map(move |((cond, mat), mesh)| {
            let n = mesh.pts.len() + mesh.tris.len() + 16;
            // many loads, so that they meet
            (Just((cond, mat)), loads(&mesh, 3 + lines / 8, lines), Just(mesh), prop::collection::vec(any::<u32>(), n + lines), prop::collection::vec(any::<bool>(), 8), prop::collection::vec(prop_oneof![4 => Just(None), 1 => (-2.0f64..2.0).prop_map(Some), 1 => Just(Some(1.0))], 16))
        })
        .prop_map(|((cond, mat), (conc, mut line), mesh, keys, swap, again)| {
            // some edges carry a second load, named the other way round: the two add up
            for i in 0..line.len() {
                if let (Some(k), (a, b, f)) = (again[i % again.len()], line[i]) {
                    line.push((b, a, [k * f[0], f[1] / 2.0]));
                }
            }
            Case { model: Model { mesh, cond, mat, cons: vec![], conc, line }, keys, swap, spare: 0 }
        })
        .boxed()
}

fn read(elas: &mut ElementAssemblage, model: &Model, spring: f64, what: &str) -> Result<Vec<f64>, Fail> {
    SPRING.with(|s| s.set(spring));
    let u = {
        let def = attempt(|| elas.calc_displacements::<Sprung>()).map_err(|e| format!("{}: {}", what, e))?;
        displacements(&def, &model.mesh.pts)
    };
    Ok(u.iter().map(|x| x * spring).collect())
}

/// everything added one at a time, as the keys order it; nodes first come in their own order because
/// their position in the list is their identity
fn build_shuffled(c: &Case, m: &Model) -> ElementAssemblage {
    let mut elas = ElementAssemblage::new(m.mat.of(), m.cond.of());
    let mut ids: Vec<NodeId> = vec![];
    let mut todo: Vec<(u32, u8, usize)> = vec![];
    let mut k = c.keys.iter().cloned().cycle();
    (0..m.mesh.tris.len()).for_each(|i| todo.push((k.next().unwrap(), 0, i)));
    (0..m.conc.len()).for_each(|i| todo.push((k.next().unwrap(), 1, i)));
    (0..m.line.len()).for_each(|i| todo.push((k.next().unwrap(), 2, i)));
    todo.sort();
    let mut more = |elas: &mut ElementAssemblage, ids: &mut Vec<NodeId>, upto: usize| {
        while ids.len() <= upto {
            let step = 1 + (k.next().unwrap() % 3) as usize;
            let next = (ids.len() + step).min(m.mesh.pts.len());
            let pts: Vec<(f64, f64)> = m.mesh.pts[ids.len()..next].iter().map(|p| (p[0], p[1])).collect();
            ids.extend(elas.add_nodes(&pts));
        }
    };
    for (_, kind, i) in todo {
        match kind {
            0 => {
                let t = m.mesh.tris[i];
                more(&mut elas, &mut ids, *t.iter().max().unwrap());
                elas.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
            }
            1 => {
                let (n, f) = m.conc[i];
                more(&mut elas, &mut ids, n);
                elas.add_conc_force(ids[n], Point::new(&f));
            }
            _ => {
                let (a, b, f) = m.line[i];
                more(&mut elas, &mut ids, a.max(b));
                let twice = m.line.iter().any(|l| (l.0, l.1) == (b, a));
                let (a, b) = if c.swap[i % c.swap.len()] && !twice { (b, a) } else { (a, b) };
                elas.add_dist_line_force(ids[a], ids[b], Point::new(&f));
            }
        }
    }
    more(&mut elas, &mut ids, m.mesh.pts.len() - 1);
    elas
}

fn check(c: &Case) -> Result<Info, Fail> {
    let spring = 1e14 * c.model.k().maxabs();
    let mut want = vec![0.0; 2 * c.spare];
    want.extend(c.model.loads());
    let far = among(&c.model, c.spare);
    let m = &far;
    let size = m.conc.iter().map(|x| x.1[0].abs() + x.1[1].abs()).sum::<f64>()
        + m.line.iter().map(|&(a, b, f)| {
            let (p, q) = (m.mesh.pts[a], m.mesh.pts[b]);
            (f[0].abs() + f[1].abs()) * ((p[0] - q[0]).powi(2) + (p[1] - q[1]).powi(2)).sqrt()
        }).sum::<f64>();
    let judge = |got: &[f64], what: &str| -> Result<(), Fail> {
        for i in 0..want.len() {
            ensure!((got[i] - want[i]).abs() <= 1e-10 * size, "{}: node {} receives {} in direction {}, expected {}", what, i / 2, got[i], i % 2, want[i]);
        }
        // resultant and moment of all the loads
        let sum = |v: &[f64], d: usize| v.iter().skip(d).step_by(2).sum::<f64>();
        let mom = |v: &[f64]| m.mesh.pts.iter().enumerate().map(|(i, p)| p[0] * v[2 * i + 1] - p[1] * v[2 * i]).sum::<f64>();
        let far = m.mesh.pts.iter().flatten().fold(0.0f64, |s, x| s.max(x.abs()));
        for d in 0..2 {
            ensure!((sum(got, d) - sum(&want, d)).abs() <= 1e-9 * size, "{}: resultant {} in direction {}, expected {}", what, sum(got, d), d, sum(&want, d));
        }
        ensure!((mom(got) - mom(&want)).abs() <= 1e-9 * size * far, "{}: moment {}, expected {}", what, mom(got), mom(&want));
        Ok(())
    };
    let mut elas = m.build();
    judge(&read(&mut elas, m, spring, "in order")?, "in order")?;
    let mut elas = build_shuffled(c, m);
    judge(&read(&mut elas, m, spring, "in another order")?, "in another order")?;
    judge(&read(&mut elas, m, spring, "a second time")?, "a second time")?;
    let edges = m.mesh.edges();
    let inner = m.line.iter().any(|&(a, b, _)| edges.iter().any(|(e, t)| *e == (a.min(b), a.max(b)) && t.len() == 2));
    let mut at = vec![0; m.mesh.pts.len()];
    m.line.iter().for_each(|l| { at[l.0] += 1; at[l.1] += 1 });
    m.conc.iter().for_each(|l| at[l.0] += 1);
    let meet = at.iter().any(|&x| x > 1);
    ok_tags(m.line.len() > 1, vec![if inner { "a load on an inner edge" } else { "outer edges only" }, if meet { "loads meet" } else { "loads apart" }])
}

pub fn property() -> Property {
    Property {
        id: "C14",
        families: vec![Box::new(Family {
            name: "loads",
            rule: "meshes with up to three concentrated forces and eight line loads on inner and outer edges, assembled in two orders. Non-trivial: more than one line load",
            quick: 120_000,
            thorough: 3_600_000,
            strategy: strat,
            check,
        }),
        Box::new(Family {
            name: "loads-hundreds",
            rule: "meshes of up to 576 triangles with up to fifty concentrated forces and four hundred line loads, assembled in two orders. Non-trivial: more than one line load",
            quick: 200,
            thorough: 6_000,
            strategy: strat_hundreds,
            check,
        }),
        Box::new(Family {
            name: "loads-large",
            rule: "meshes of up to 80 triangles with up to ten concentrated forces and sixty line loads, assembled in two orders. Non-trivial: more than one line load",
            quick: 3_000,
            thorough: 90_000,
            strategy: strat_large,
            check,
        }),
        Box::new(Family {
            name: "loads-far",
            rule: "small meshes numbered after a hundred to fifteen hundred nodes of no element. Non-trivial: more than one line load",
            quick: 100,
            thorough: 3_000,
            strategy: strat_far,
            check,
        })],
        assumptions: vec!["a node carries at most one concentrated force and an edge at most one line load under each of its two names"],
    }
}
