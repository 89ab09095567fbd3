//! C13: element mass against the consistent mass of a triangle.

use crate::el::*;
use crate::ensure;
use crate::fem::*;
use crate::pbt::*;
use crate::tab::*;
use bugi::element::element::Element;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pts: [P2; 3],
    cond: Cond,
    mat: Mat,
    ids: [usize; 3],
}

fn strat() -> BoxedStrategy<Case> {
    condition()
        .prop_flat_map(|cond| (triangle_or_hair(!cond.plane()), Just(cond), material(), ids()))
        .prop_map(|(pts, cond, mat, ids)| Case { pts, cond, mat, ids })
        .boxed()
}

fn mass(pts: &[P2; 3], ids: &[usize; 3], cond: Cond, mat: Mat) -> Result<Tab, Fail> {
    let (elas, nids) = elas_of(pts, ids, cond, mat);
    collect(&Element::new(&elas, nids).calc_m(), ids)
}

fn check(c: &Case) -> Result<Info, Fail> {
    let want = m_el(c.cond, c.mat, &c.pts);
    let size = want.maxabs();
    let tol = 1e-13 * rounding(&c.pts) * size;
    let m = mass(&c.pts, &c.ids, c.cond, c.mat)?;
    let d = m.sub(&want).maxabs();
    ensure!(d <= tol, "mass: off by {:e} of {:e}\n got {:?}\nwant {:?}", d, size, m.v, want.v);
    ensure!(m.sub(&m.t()).maxabs() <= tol, "mass is not symmetric: {:?}", m.v);
    for i in 0..6 {
        for j in 0..6 {
            ensure!(i % 2 == j % 2 || m.at(i, j) == 0.0, "directions are coupled: entry ({},{}) is {}", i, j, m.at(i, j));
        }
    }
    if c.cond.plane() {
        let total = c.mat.rho * c.cond.thickness() * area(&c.pts).abs();
        for d in 0..2 {
            let s: f64 = (0..3).flat_map(|i| (0..3).map(move |j| (i, j))).map(|(i, j)| m.at(2 * i + d, 2 * j + d)).sum();
            ensure!((s - total).abs() <= 10.0 * tol, "total mass {} instead of {}", s, total);
        }
    }
    let (vals, _) = jacobi(&m.plus(&m.t()).scale(0.5));
    ensure!(vals[0] > 0.0, "mass is not positive definite: {:?}", vals);
    for o in &ORDERS[1..] {
        let p = [c.pts[o[0]], c.pts[o[1]], c.pts[o[2]]];
        let i = [c.ids[o[0]], c.ids[o[1]], c.ids[o[2]]];
        let d = mass(&p, &i, c.cond, c.mat)?.sub(&relabelled(&m, o)).maxabs();
        ensure!(d <= 2.0 * tol, "listed as {:?}: off by {:e} of {:e}", o, d, size);
    }
    let tag = if area(&c.pts) < 0.0 { "clockwise" } else { "counterclockwise" };
    ok_tags(area(&c.pts) != 0.5, vec![tag, match c.cond { Cond::Stress(_) => "plane stress", Cond::Strain(_) => "plane strain", Cond::Axi => "axisymmetric" }])
}

pub fn property() -> Property {
    Property {
        id: "C13",
        families: vec![Box::new(Family {
            name: "mass",
            rule: "triangles of every shape, orientation and place under random densities and conditions. Non-trivial: an area other than one half",
            quick: 300_000,
            thorough: 9_000_000,
            strategy: strat,
            check,
        })],
        assumptions: vec!["axisymmetric elements are integrated with the three interior points the method documents, and lie off the axis"],
    }
}
