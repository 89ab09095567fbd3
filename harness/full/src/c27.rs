//! C27: Ruppert's mesher tiles every body with well-shaped triangles of the promised size.

use crate::dress::*;
use crate::ensure;
use crate::pbt::*;
use crate::poly::*;
use bugi::mesher::plane::PlaneTriangulation;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    body: Body,
    /// element size, as a part of the smallest distance between features of the body
    rel: f64,
    /// subdivisions of the boundary before meshing: numbers of pieces to split
    splits: Vec<usize>,
    /// points inside that become nodes, too
    #[serde(default)]
    spots: Vec<P>,
    /// what is asked for afterwards: refinement for a multiple of the size, or, for zero, the plain triangulation
    #[serde(default)]
    then: Vec<f64>,
}

/// bodies without sharp corners, for which the algorithm ends
fn blunt(b: &Body) -> bool {
    b.sharpest() >= 60.0 - 1e-6
}

fn cases() -> BoxedStrategy<Case> {
    (body().prop_filter("sharp", blunt), prop_oneof![4 => 0.3f64..6.0, 1 => Just(1e9)], prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(0usize..1000, 1..6)])
        .prop_map(|(body, rel, splits)| Case { body, rel, splits, spots: vec![], then: vec![] })
        .boxed()
}

fn large() -> BoxedStrategy<Case> {
    (body().prop_filter("sharp", blunt), 0.08f64..0.4).prop_map(|(body, rel)| Case { body, rel, splits: vec![], spots: vec![], then: vec![] }).boxed()
}

fn wide() -> BoxedStrategy<Case> {
    (wide_body().prop_filter("sharp", blunt), prop_oneof![4 => 0.5f64..6.0, 1 => Just(1e9)], prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(0usize..1000, 1..20)])
        .prop_map(|(body, rel, splits)| Case { body, rel, splits, spots: vec![], then: vec![] })
        .boxed()
}

fn spotted() -> BoxedStrategy<Case> {
    (cases(), box_points(8)).prop_map(|(c, spots)| Case { spots, ..c }).boxed()
}

fn steps() -> BoxedStrategy<Vec<f64>> {
    prop::collection::vec(prop_oneof![2 => Just(0.0), 1 => Just(1.0), 1 => 1.0f64..5.0, 2 => 0.3f64..1.0], 1..4).boxed()
}

fn repeated() -> BoxedStrategy<Case> {
    (cases(), box_points(6), any::<bool>(), steps()).prop_map(|(c, s, with, then)| Case { spots: if with { s } else { vec![] }, then, ..c }).boxed()
}

fn repeated_wide() -> BoxedStrategy<Case> {
    (wide(), steps()).prop_map(|(c, then)| Case { then, ..c }).boxed()
}

fn meshed(c: &Case, top: f64) -> Result<Info, Fail> {
    let h = c.body.feature() * c.rel;
    let count = c.body.area() / (h * h);
    if count > top {
        return ok_tags(false, vec!["too many triangles"]);
    }
    // each promise outlasts the later, wider ones
    let mut plan = vec![];
    let mut least = h;
    for f in &c.then {
        if *f > 0.0 && c.body.area() / (h * f * h * f) > top {
            break;
        }
        least = if *f > 0.0 { least.min(h * f) } else { least };
        plan.push(h * f);
    }
    let mut refined = false;
    let free = spots(&c.body, &c.spots, 0.2 * c.body.feature());
    for _ in 0..tries() {
        let mut b = bare(&c.body);
        for s in &c.splits {
            let w: Vec<_> = b.all_walls().collect();
            b.split_segment(w[s % w.len()]);
        }
        for p in &free {
            b.store_vertex(*p);
        }
        let before = b.all_vertices().count();
        let mut t = PlaneTriangulation::new(b);
        t.ruppert_mesh(h);
        for next in &plan {
            if *next > 0.0 {
                t.ruppert_mesh(*next);
            } else {
                t.gift_wrap();
            }
        }
        let h = least;
        let (m, _) = taken(t)?;
        tiles(&m, &c.body)?;
        ensure!(free.iter().all(|p| m.nodes.contains(p)), "a given point is no node of the mesh");
        refined = m.nodes.len() > before;
        for (i, t) in m.tris.iter().enumerate() {
            let p = t.map(|n| m.nodes[n]);
            let r = circumradius(p[0], p[1], p[2]);
            ensure!(r <= h * (1.0 + 1e-9), "triangle {} at {:?} has the circumradius {} for the size {}", i, p, r, h);
            let l = (0..3).map(|k| dist(p[k], p[(k + 1) % 3])).fold(f64::MAX, f64::min);
            ensure!(r <= 1.415 * l * (1.0 + 1e-9), "triangle {} at {:?} has the circumradius {} and an edge of {}", i, p, r, l);
        }
        let on: HashSet<usize> = m.walls.iter().map(|w| w.0).collect();
        let inner = m.nodes.len() - on.len();
        ensure!(m.tris.len() + 2 == 2 * inner + m.walls.len() + 2 * (c.body.rings.len() - 1), "{} triangles for {} nodes", m.tris.len(), m.nodes.len());
    }
    let mut tags = vec![];
    if !free.is_empty() {
        tags.push("points inside");
    }
    if c.body.rings.len() > 1 {
        tags.push("with holes");
    }
    if plan.iter().any(|s| *s > 0.0) {
        tags.push("refined again");
    }
    if plan.iter().any(|s| *s == 0.0) {
        tags.push("triangulated again");
    }
    if count > 100.0 {
        tags.push("over 100 elements");
    }
    if c.rel > 100.0 {
        tags.push("any size");
    }
    if !c.splits.is_empty() {
        tags.push("boundary split before");
    }
    ok_tags(refined && (c.then.is_empty() || !plan.is_empty()), tags)
}

fn check(c: &Case) -> Result<Info, Fail> {
    meshed(c, 800.0)
}
fn check_large(c: &Case) -> Result<Info, Fail> {
    meshed(c, 3000.0)
}

pub fn property() -> Property {
    Property {
        id: "C27",
        families: vec![
            Box::new(Family { name: "meshed", rule: "a body without sharp corners that needed refinement", quick: 300_000, thorough: 15_000_000, strategy: cases, check }),
            Box::new(Family { name: "meshed-points", rule: "as meshed, with points inside that are given as nodes", quick: 40_000, thorough: 1_600_000, strategy: spotted, check }),
            Box::new(Family { name: "repeated", rule: "as meshed, then refined for the same, a smaller or a larger size or triangulated afresh, up to three times", quick: 40_000, thorough: 1_600_000, strategy: repeated, check }),
            Box::new(Family { name: "repeated-wide", rule: "as repeated, with up to hundreds of sides and tens of holes", quick: 1_000, thorough: 40_000, strategy: repeated_wide, check: check_large }),
            Box::new(Family { name: "meshed-large", rule: "as meshed, with up to thousands of triangles", quick: 4_000, thorough: 200_000, strategy: large, check: check_large }),
            Box::new(Family { name: "meshed-wide", rule: "as meshed, with up to hundreds of sides and tens of holes", quick: 4_000, thorough: 160_000, strategy: wide, check: check_large }),
        ],
        assumptions: vec!["the stand-in for spacemath (orientation, distances, intersection)", "no angle between neighbouring sides below 60 degrees, as Ruppert's algorithm requires", "smallest feature over a thousandth of the body"],
    }
}
