//! C28: a meshed body carries its material, condition, loads and constraints, and solves as the body.

use crate::dress::*;
use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use crate::poly::*;
use bugi::element::ElementAssemblage;
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::mesher::bounds::PlaneBoundary;
use bugi::mesher::plane::PlaneTriangulation;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    on: Dressed,
    rel: f64,
    /// 0 Chew, 1 Ruppert, 2 the first triangulation only
    mesher: u8,
    cond: Option<Cond>,
    mat: Option<bool>,
}

fn case() -> BoxedStrategy<Case> {
    case_of(dressed(body()))
}

fn wide() -> BoxedStrategy<Case> {
    case_of(dressed_up_to(wide_body(), 150))
}

fn case_of(on: BoxedStrategy<Dressed>) -> BoxedStrategy<Case> {
    (on, prop_oneof![0.25f64..1.0, (1i32..5).prop_map(|k| 1.0 / k as f64)], 0u8..3, prop::option::weighted(0.95, cond()), prop::option::weighted(0.95, any::<bool>()))
        .prop_map(|(on, rel, mesher, cond, mat)| Case { on, rel, mesher, cond, mat })
        .boxed()
}

fn run(t: &mut PlaneTriangulation, mesher: u8, h: f64) {
    match mesher {
        0 => t.chew_mesh(h),
        1 => t.ruppert_mesh(h * 3.0),
        _ => t.gift_wrap(),
    }
}

fn check(c: &Case) -> Result<Info, Fail> {
    let h = c.on.body.feature() * c.rel;
    if !suitable(&c.on.body, c.mesher, h, 500.0) {
        return ok_tags(false, vec!["not for this mesher"]);
    }
    let (mut b, _) = c.on.build();
    if let Some(x) = c.cond {
        b.set_condition(x.get());
    }
    if let Some(x) = c.mat {
        b.set_material(materials(x));
    }
    for _ in 0..tries() {
        let mut t = PlaneTriangulation::new(b.clone());
        run(&mut t, c.mesher, h);
        if c.cond.is_none() || c.mat.is_none() {
            let r = attempt(|| t.assemble()).map_err(|e| Fail::from(format!("a boundary without material or condition ended in a panic: {}", e)))?;
            ensure!(r.is_err(), "a model without material or condition");
            return ok_tags(true, vec!["incomplete, refused"]);
        }
        let (m, e) = taken(t)?;
        tiles(&m, &c.on.body)?;
        carries(&c.on, c.cond.unwrap(), c.mat.unwrap(), &m, &e)?;
    }
    ok_tags(!c.on.forces.is_empty() || !c.on.cons.is_empty(), vec![["chew", "ruppert", "triangulated"][c.mesher as usize]])
}

// a plate under uniform traction deforms as elasticity says, whatever its mesh

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plate {
    w: f64,
    h: f64,
    size: i32,
    rel: f64,
    mesher: u8,
    cond: Cond,
    test: bool,
    traction: (f64, f64),
    cholesky: bool,
    /// sides are given end first
    turned: Vec<bool>,
}

fn plate() -> BoxedStrategy<Plate> {
    (
        (0.6f64..4.0, 0.6f64..4.0, -10i32..10, 0.25f64..0.9, 0u8..3),
        prop_oneof![(0.01f64..3.0).prop_map(Cond::Strain), (0.01f64..3.0).prop_map(Cond::Stress)],
        any::<bool>(),
        (-10.0f64..10.0, -10.0f64..10.0),
        any::<bool>(),
        prop::collection::vec(any::<bool>(), 4),
    )
        .prop_map(|((w, h, size, rel, mesher), cond, test, traction, cholesky, turned)| Plate { w, h, size, rel, mesher, cond, test, traction, cholesky, turned })
        .boxed()
}

fn check_plate(c: &Plate) -> Result<Info, Fail> {
    let k = (c.size as f64).exp2();
    let (w, h) = (c.w * k, c.h * k);
    let ring = vec![(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)];
    let body = Body { rings: vec![ring.clone()] };
    let edge = c.rel * w.min(h);
    if !suitable(&body, c.mesher, edge, 200.0) {
        return ok_tags(false, vec!["not for this mesher"]);
    }
    // the left side slides up and down, the lower one left and right, the others are pulled
    let mut b = PlaneBoundary::new();
    let v = b.store_polygon(&ring);
    let ends = |i: usize| {
        let (p, q) = (v[i], v[(i + 1) % 4]);
        if c.turned[i] { (q, p) } else { (p, q) }
    };
    let (fx, fy) = c.traction;
    let ((b0, b1), (r0, r1), (t0, t1), (l0, l1)) = (ends(0), ends(1), ends(2), ends(3));
    b.store_distributed_constraint(b0, b1, Con::Y.get());
    b.store_distributed_force(r0, r1, (fx, 0.0).into());
    b.store_distributed_force(t0, t1, (0.0, fy).into());
    b.store_distributed_constraint(l0, l1, Con::X.get());
    b.set_condition(c.cond.get());
    let mat = materials(c.test);
    b.set_material(mat);
    for _ in 0..tries() {
        let mut t = PlaneTriangulation::new(b.clone());
        run(&mut t, c.mesher, edge);
        let (_, mut e) = taken(t)?;
        let nodes = e.nodes();
        let d = if c.cholesky { e.calc_displacements::<CholeskyEnvelopeSolver>() } else { e.calc_displacements::<DenseGaussSolver>() };
        // a load per length over the thickness is the stress
        let (t, strain) = match c.cond {
            Cond::Strain(t) => (t, true),
            Cond::Stress(t) => (t, false),
            Cond::Axi => unreachable!(),
        };
        let (sx, sy) = (fx / t, fy / t);
        let (young, nu) = if strain { (mat.youngs / (1.0 - mat.poisson * mat.poisson), mat.poisson / (1.0 - mat.poisson)) } else { (mat.youngs, mat.poisson) };
        let (ex, ey) = ((sx - nu * sy) / young, (sy - nu * sx) / young);
        let top = (ex.abs() * w).max(ey.abs() * h);
        let far = d.displaced_nodes(k / top);
        let norms = d.displacement_norms();
        for (i, p) in nodes.iter().enumerate() {
            let u = (ex * p[0], ey * p[1]);
            let got = ((far[i][0] - p[0]) * top / k, (far[i][1] - p[1]) * top / k);
            ensure!((got.0 - u.0).abs() <= 1e-6 * top && (got.1 - u.1).abs() <= 1e-6 * top, "the node at {:?} moves by {:?} for {:?}", p, got, u);
            ensure!((norms[i] - u.0.hypot(u.1)).abs() <= 1e-6 * top, "the node at {:?} moves by {} for {}", p, norms[i], u.0.hypot(u.1));
        }
        let sz = if strain { mat.poisson * (sx + sy) } else { 0.0 };
        let mises = (((sx - sy).powi(2) + (sy - sz).powi(2) + (sz - sx).powi(2)) / 2.0).sqrt();
        let scale = sx.abs().max(sy.abs());
        for (i, v) in d.von_mises().into_iter().enumerate() {
            ensure!((v - mises).abs() <= 1e-5 * scale, "von Mises of node {} is {} for {}", i, v, mises);
        }
    }
    ok_tags(true, vec![["chew", "ruppert", "triangulated"][c.mesher as usize]])
}

pub fn property() -> Property {
    Property {
        id: "C28",
        families: vec![
            Box::new(Family { name: "carried", rule: "a meshed body with loads or constraints", quick: 200_000, thorough: 10_000_000, strategy: case, check }),
            Box::new(Family { name: "carried-wide", rule: "as carried, with up to hundreds of sides, loads and constraints", quick: 4_000, thorough: 160_000, strategy: wide, check }),
            Box::new(Family { name: "plates", rule: "a meshed rectangle under uniform traction", quick: 60_000, thorough: 3_000_000, strategy: plate, check: check_plate }),
        ],
        assumptions: vec![
            "the stand-in for spacemath (orientation, distances, intersection)",
            "one load and one constraint per side",
            "where two different angled constraints meet in a corner nothing is judged",
        ],
    }
}
