//! C26: Chew's mesher tiles every body with triangles of the promised size.

use crate::dress::*;
use crate::ensure;
use crate::pbt::*;
use crate::poly::*;
use bugi::mesher::plane::PlaneTriangulation;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    body: Body,
    /// element size, as a part of the smallest distance between features of the body
    rel: f64,
    /// triangulate again this often
    again: usize,
    /// points inside that become nodes, too
    #[serde(default)]
    spots: Vec<P>,
    /// what is asked for afterwards: the mesh for a part of the last size, or, for zero, the plain triangulation
    #[serde(default)]
    then: Vec<f64>,
}

fn cases() -> BoxedStrategy<Case> {
    (body(), prop_oneof![0.2f64..1.0, (1i32..6).prop_map(|k| 1.0 / k as f64)], prop_oneof![5 => Just(0usize), 1 => 1usize..3])
        .prop_map(|(body, rel, again)| Case { body, rel, again, spots: vec![], then: vec![] })
        .boxed()
}

fn large() -> BoxedStrategy<Case> {
    (body(), 0.05f64..0.3).prop_map(|(body, rel)| Case { body, rel, again: 0, spots: vec![], then: vec![] }).boxed()
}

fn wide() -> BoxedStrategy<Case> {
    (wide_body(), prop_oneof![0.3f64..1.0, (1i32..4).prop_map(|k| 1.0 / k as f64)], prop_oneof![5 => Just(0usize), 1 => 1usize..3])
        .prop_map(|(body, rel, again)| Case { body, rel, again, spots: vec![], then: vec![] })
        .boxed()
}

fn spotted() -> BoxedStrategy<Case> {
    (cases(), box_points(12)).prop_map(|(c, spots)| Case { spots, ..c }).boxed()
}

fn spotted_wide() -> BoxedStrategy<Case> {
    (wide(), box_points(60)).prop_map(|(c, spots)| Case { spots, ..c }).boxed()
}

/// meshes of meshes: the same size again, at most half of it, and triangulations between
fn steps() -> BoxedStrategy<Vec<f64>> {
    prop::collection::vec(prop_oneof![4 => Just(0.0), 2 => Just(1.0), 1 => Just(0.5), 2 => 0.15f64..0.5], 1..4).boxed()
}

fn repeated() -> BoxedStrategy<Case> {
    (cases(), box_points(6), any::<bool>(), steps()).prop_map(|(c, s, with, then)| Case { spots: if with { s } else { vec![] }, then, ..c }).boxed()
}

fn repeated_wide() -> BoxedStrategy<Case> {
    (wide(), steps()).prop_map(|(c, then)| Case { then, ..c }).boxed()
}

/// the body with its boundary points as corners
fn divided(b: &Body, points: Vec<P>, h: f64) -> Body {
    let mut points = points.into_iter();
    let mut rings = vec![];
    for r in &b.rings {
        let n: usize = (0..r.len()).map(|i| (dist(r[i], r[(i + 1) % r.len()]) / h * (1.0 + 1e-9)).floor() as usize).sum();
        rings.push(points.by_ref().take(n).collect());
    }
    Body { rings }
}

fn meshed(c: &Case, top: f64) -> Result<Info, Fail> {
    let h = c.body.feature() * c.rel;
    let count = c.body.area() / (h * h);
    if count > top {
        return ok_tags(false, vec!["too many triangles"]);
    }
    let Some(points) = pieces(&c.body, h) else { return ok_tags(false, vec!["indivisible side"]) };
    if !apart(&points, h) {
        return ok_tags(false, vec!["boundary points too close"]);
    }
    // the sizes asked for afterwards, as far as the algorithm promises a mesh for them
    let mut plan = vec![];
    let (mut last, mut now) = (h, divided(&c.body, points, h));
    for f in &c.then {
        if *f > 0.0 {
            let next = last * f;
            let Some(points) = pieces(&now, next) else { break };
            if c.body.area() / (next * next) > top || !apart(&points, next) {
                break;
            }
            now = divided(&now, points, next);
            last = next;
            plan.push(Some(next));
        } else {
            plan.push(None);
        }
    }
    let free = spots(&c.body, &c.spots, h * (1.0 + 1e-9));
    for _ in 0..tries() {
        let mut b = bare(&c.body);
        for p in &free {
            b.store_vertex(*p);
        }
        let mut t = PlaneTriangulation::new(b);
        t.chew_mesh(h);
        for step in &plan {
            match step {
                Some(h) => t.chew_mesh(*h),
                None => t.gift_wrap(),
            }
        }
        let h = last;
        let (m, _) = taken(t)?;
        tiles(&m, &c.body)?;
        ensure!(free.iter().all(|p| m.nodes.contains(p)), "a given point is no node of the mesh");
        for (i, t) in m.tris.iter().enumerate() {
            let p = t.map(|n| m.nodes[n]);
            let r = circumradius(p[0], p[1], p[2]);
            ensure!(r <= h * (1.0 + 1e-9), "triangle {} at {:?} has the circumradius {} for the size {}", i, p, r, h);
            for k in 0..3 {
                let l = dist(p[k], p[(k + 1) % 3]);
                ensure!(l >= h * (1.0 - 1e-9), "triangle {} at {:?} has an edge of {} for the size {}", i, p, l, h);
            }
        }
        let inner = m.nodes.len() - m.walls.len();
        // triangles of a plane region with holes
        ensure!(m.tris.len() + 2 == 2 * inner + m.walls.len() + 2 * (c.body.rings.len() - 1), "{} triangles for {} nodes", m.tris.len(), m.nodes.len());
    }
    let mut tags = vec![];
    if !free.is_empty() {
        tags.push("points inside");
    }
    if c.body.rings.len() > 1 {
        tags.push("with holes");
    }
    if plan.iter().any(|s| s.is_some()) {
        tags.push("meshed again");
    }
    if plan.iter().any(|s| s.is_none()) {
        tags.push("triangulated again");
    }
    if count > 200.0 {
        tags.push("over 200 elements");
    }
    ok_tags(c.then.is_empty() || !plan.is_empty(), tags)
}

fn check(c: &Case) -> Result<Info, Fail> {
    meshed(c, 1500.0)
}
fn check_large(c: &Case) -> Result<Info, Fail> {
    meshed(c, 6000.0)
}

// the first triangulation alone: of the undivided or divided boundary, repeated

fn check_plain(c: &Case) -> Result<Info, Fail> {
    let mut tags = vec![];
    for _ in 0..tries() {
        let mut b = bare(&c.body);
        tags.clear();
        if c.rel < 0.8 {
            let h = c.body.feature() * c.rel;
            if c.body.sides().iter().map(|(p, q)| dist(*p, *q)).sum::<f64>() / h < 150.0 && pieces(&c.body, h).is_some() {
                b.divide_all_segments(h);
                tags.push("divided");
            }
        }
        let free = spots(&c.body, &c.spots, 0.05 * c.body.feature());
        for p in &free {
            b.store_vertex(*p);
        }
        tags.push(if free.is_empty() { "no points inside" } else { "points inside" });
        let mut t = PlaneTriangulation::new(b);
        for _ in 0..1 + c.again {
            t.gift_wrap();
        }
        let (m, _) = taken(t)?;
        tiles(&m, &c.body)?;
        ensure!(m.tris.len() + 2 == m.nodes.len() + free.len() + 2 * (c.body.rings.len() - 1), "{} triangles for {} nodes", m.tris.len(), m.nodes.len());
    }
    if c.body.rings.len() > 1 {
        tags.push("with holes");
    }
    if c.again > 0 {
        tags.push("again");
    }
    ok_tags(c.body.sides().len() > 3, tags)
}

pub fn property() -> Property {
    Property {
        id: "C26",
        families: vec![
            Box::new(Family { name: "meshed", rule: "a body whose boundary can be divided as the algorithm needs it", quick: 80_000, thorough: 4_000_000, strategy: cases, check }),
            Box::new(Family { name: "meshed-large", rule: "as meshed, with up to thousands of triangles", quick: 1_000, thorough: 40_000, strategy: large, check: check_large }),
            Box::new(Family { name: "meshed-wide", rule: "as meshed, with up to hundreds of sides and tens of holes", quick: 4_000, thorough: 160_000, strategy: wide, check: check_large }),
            Box::new(Family { name: "triangulated-wide", rule: "as triangulated, with up to hundreds of sides and tens of holes", quick: 4_000, thorough: 160_000, strategy: wide, check: check_plain }),
            Box::new(Family { name: "meshed-points", rule: "as meshed, with points inside that are given as nodes", quick: 20_000, thorough: 800_000, strategy: spotted, check }),
            Box::new(Family { name: "triangulated-points", rule: "as triangulated, with points inside that are given as nodes", quick: 30_000, thorough: 1_200_000, strategy: spotted, check: check_plain }),
            Box::new(Family { name: "triangulated-points-wide", rule: "as triangulated-points, with up to hundreds of sides and tens of holes", quick: 2_000, thorough: 80_000, strategy: spotted_wide, check: check_plain }),
            Box::new(Family { name: "repeated", rule: "as meshed, then meshed for the same or a smaller size or triangulated afresh, up to three times", quick: 20_000, thorough: 800_000, strategy: repeated, check }),
            Box::new(Family { name: "repeated-wide", rule: "as repeated, with up to hundreds of sides and tens of holes", quick: 1_000, thorough: 40_000, strategy: repeated_wide, check }),
            Box::new(Family { name: "triangulated", rule: "a body with more than three sides, triangulated once or again", quick: 60_000, thorough: 4_000_000, strategy: cases, check: check_plain }),
        ],
        assumptions: vec!["the stand-in for spacemath (orientation, distances, intersection)", "sides are divisible into pieces of h to √3 h and boundary points at least h apart, as Chew's algorithm requires", "smallest feature over a thousandth of the body"],
    }
}
