//! Bodies with loads and constraints on their sides and corners, and what a mesh of one has to be.

use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use crate::poly::*;
use bugi::element::material::{AL6061, TEST};
use bugi::element::ElementAssemblage;
use bugi::mesher::bounds::{PlaneBoundary, Segment};
use bugi::mesher::plane::PlaneTriangulation;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

/// Sides are numbered over all rings; a turned load or constraint is stored with the end of its side first.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Dressed {
    pub body: Body,
    pub forces: Vec<(usize, bool, V)>,
    pub cons: Vec<(usize, bool, Con)>,
    pub corners: Vec<(usize, Con)>,
}

fn con() -> BoxedStrategy<Con> {
    prop_oneof![2 => Just(Con::X), 2 => Just(Con::Y), 2 => Just(Con::XY), 2 => (-3.0f64..3.0).prop_map(Con::Angle)].boxed()
}

pub fn dressed(body: BoxedStrategy<Body>) -> BoxedStrategy<Dressed> {
    dressed_up_to(body, 5)
}

pub fn dressed_up_to(body: BoxedStrategy<Body>, most: usize) -> BoxedStrategy<Dressed> {
    body.prop_flat_map(move |body| {
        let n = body.sides().len();
        (
            Just(body),
            prop::collection::vec((0..n, any::<bool>(), number(), number()), 0..most),
            prop::collection::vec((0..n, any::<bool>(), con()), 0..most),
            prop::collection::vec((0..n, con()), 0..most - 2),
        )
    })
    .prop_map(|(body, forces, cons, corners)| {
        let mut f: Vec<(usize, bool, V)> = vec![];
        for (s, t, x, y) in forces {
            if !f.iter().any(|e| e.0 == s) {
                f.push((s, t, (x, y)));
            }
        }
        let mut c: Vec<(usize, bool, Con)> = vec![];
        for (s, t, con) in cons {
            if !c.iter().any(|e| e.0 == s) {
                c.push((s, t, con));
            }
        }
        Dressed { body, forces: f, cons: c, corners }
    })
    .boxed()
}

impl Dressed {
    pub fn build(&self) -> (PlaneBoundary, Vec<Segment>) {
        let mut b = PlaneBoundary::new();
        for r in &self.body.rings {
            b.store_polygon(r);
        }
        let sides: Vec<Segment> = b.all_walls().collect();
        let ends = |s: usize, turned: bool| if turned { (sides[s].1, sides[s].0) } else { (sides[s].0, sides[s].1) };
        for (s, turned, f) in &self.forces {
            let (p, q) = ends(*s, *turned);
            b.store_distributed_force(p, q, (*f).into());
        }
        for (s, turned, con) in &self.cons {
            let (p, q) = ends(*s, *turned);
            b.store_distributed_constraint(p, q, con.get());
        }
        for (s, con) in &self.corners {
            b.store_constraint(sides[*s].0, con.get());
        }
        (b, sides)
    }
}

/// A boundary of nothing but the body.
pub fn bare(body: &Body) -> PlaneBoundary {
    let mut b = PlaneBoundary::new();
    for r in &body.rings {
        b.store_polygon(r);
    }
    b.set_material(TEST);
    b.set_condition(bugi::element::strain::Condition::PlaneStress(1.0));
    b
}

/// What the mesher made, as nodes and triangles. The pieces of the boundary are found by position.
pub fn taken(t: PlaneTriangulation) -> Result<(Mesh, ElementAssemblage), Fail> {
    let segs: Vec<(P, P)> = t.bound.all_walls().map(|s| { let (a, b) = s.get(); (a.into(), b.into()) }).collect();
    let e = match t.assemble() {
        Ok(e) => e,
        Err(x) => return Err(format!("not assembled: {}", x).into()),
    };
    let nodes: Vec<P> = e.nodes().iter().map(|p| (p[0], p[1])).collect();
    let tris = e.element_descriptors().into_iter().map(|d| d.into_parts().map(|n| n.into_idx())).collect();
    let bits = |p: P| (p.0.value_bits(), p.1.value_bits());
    let at: HashMap<(u64, u64), usize> = nodes.iter().enumerate().map(|(i, p)| (bits(*p), i)).collect();
    ensure!(at.len() == nodes.len(), "two nodes in one place");
    let mut walls = vec![];
    for (a, b) in segs {
        match (at.get(&bits(a)), at.get(&bits(b))) {
            (Some(i), Some(j)) => walls.push((*i, *j)),
            _ => return Err(format!("a piece of the boundary from {:?} to {:?} has no nodes", a, b).into()),
        }
    }
    Ok((Mesh { nodes, tris, walls }, e))
}

/// The triangles cover the body exactly, meet edge to edge, and satisfy the Delaunay rule.
pub fn tiles(m: &Mesh, body: &Body) -> Result<(), Fail> {
    let size = body.extent();
    let mut edges: HashMap<(usize, usize), usize> = HashMap::new();
    let mut total = 0.0;
    let mut used = vec![false; m.nodes.len()];
    for (i, t) in m.tris.iter().enumerate() {
        let p = t.map(|n| m.nodes[n]);
        let a = cross(sub(p[1], p[0]), sub(p[2], p[0])) / 2.0;
        ensure!(a > 0.0, "triangle {} at {:?} has the area {}", i, p, a);
        total += a;
        for k in 0..3 {
            used[t[k]] = true;
            let e = (t[k], t[(k + 1) % 3]);
            ensure!(edges.insert(e, t[(k + 2) % 3]).is_none(), "the edge {:?} to {:?} has two triangles on one side", m.nodes[e.0], m.nodes[e.1]);
        }
    }
    ensure!(used.iter().all(|u| *u), "a node in no triangle");
    let whole = body.area();
    ensure!((total - whole).abs() <= 1e-9 * size * size, "the triangles cover {} of {}", total, whole);
    // the outer edges are the pieces of the boundary, body on the left
    let walls: HashSet<(usize, usize)> = m.walls.iter().copied().collect();
    ensure!(walls.len() == m.walls.len(), "a piece of the boundary twice");
    for (e, opposite) in &edges {
        match edges.get(&(e.1, e.0)) {
            None => ensure!(walls.contains(e), "the edge {:?} to {:?} ends the mesh inside the body", m.nodes[e.0], m.nodes[e.1]),
            Some(other) => {
                ensure!(!walls.contains(e), "a triangle on both sides of the boundary at {:?} to {:?}", m.nodes[e.0], m.nodes[e.1]);
                let [a, b, c] = [e.0, e.1, *opposite].map(|n| m.nodes[n]);
                let centre = circumcenter(a, b, c);
                let (r, d) = (dist(a, centre), dist(m.nodes[*other], centre));
                ensure!(d >= r - 1e-6 * size - 1e-9 * r, "the node {:?} lies inside the circle of its neighbour {:?} {:?} {:?}", m.nodes[*other], a, b, c);
            }
        }
    }
    for w in &walls {
        ensure!(edges.contains_key(w), "no triangle at the piece {:?} to {:?} of the boundary", m.nodes[w.0], m.nodes[w.1]);
    }
    // the pieces are the sides of the body, in order
    let mut at = 0;
    for ring in &body.rings {
        for i in 0..ring.len() {
            let (p, q) = (ring[i], ring[(i + 1) % ring.len()]);
            let mut here = p;
            loop {
                ensure!(at < m.walls.len(), "the boundary of the mesh ends before the one of the body");
                let (a, b) = (m.nodes[m.walls[at].0], m.nodes[m.walls[at].1]);
                ensure!(a == here, "the boundary is broken at {:?}", here);
                ensure!(dot(sub(b, a), sub(q, p)) > 0.0 && seg_dist(b, p, q) <= 1e-11 * size, "the point {:?} is not on its side {:?} to {:?}", b, p, q);
                at += 1;
                here = b;
                if here == q {
                    break;
                }
            }
        }
    }
    ensure!(at == m.walls.len(), "{} pieces of the boundary too many", m.walls.len() - at);
    Ok(())
}

pub fn materials(test: bool) -> bugi::element::material::Material {
    if test {
        TEST
    } else {
        AL6061
    }
}

/// The boundary points after a division by h; None where a side cannot be divided or rounding decides.
pub fn pieces(b: &Body, h: f64) -> Option<Vec<P>> {
    let mut res = vec![];
    for (p, q) in b.sides() {
        let l = dist(p, q);
        let n = (l / h * (1.0 + 1e-9)).floor();
        let m = (l / h * (1.0 - 1e-9)).floor();
        for n in [n, m] {
            if n < 1.0 || l / n > h * 3f64.sqrt() * (1.0 - 1e-9) {
                return None;
            }
        }
        for i in 0..n as usize {
            let t = i as f64 / n;
            res.push((p.0 + t * (q.0 - p.0), p.1 + t * (q.1 - p.1)));
        }
    }
    Some(res)
}

/// Chew's algorithm promises its mesh for boundary points at least h apart.
pub fn apart(points: &[P], h: f64) -> bool {
    (0..points.len()).all(|i| (0..i).all(|j| dist(points[i], points[j]) >= h * (1.0 - 1e-9)))
}

/// what constraints at one point come to; None where the order of angled ones could matter
fn together(cs: &[Con]) -> Option<Con> {
    let mut res = Con::Free;
    for c in cs {
        res = match (res, *c) {
            (Con::Free, c) => c,
            (r, Con::Free) => r,
            (r, c) if r == c => r,
            (Con::Angle(a), Con::Angle(b)) => Con::Angle((a + b) / 2.0),
            // a restriction along an axis takes the place of an angled one
            (Con::Angle(_), c) => c,
            (r, Con::Angle(_)) => r,
            _ => Con::XY,
        };
    }
    let angles: Vec<f64> = cs.iter().filter_map(|c| if let Con::Angle(a) = c { Some(*a) } else { None }).collect();
    let mut other = angles.clone();
    other.dedup();
    if other.len() > 1 && matches!(res, Con::Angle(_)) {
        return None;
    }
    Some(res)
}

/// The mesh has the material, condition, loads and constraints of the body it was made of.
pub fn carries(on: &Dressed, cond: Cond, test: bool, m: &Mesh, e: &ElementAssemblage) -> Result<(), Fail> {
    ensure!(cond.is(e.condition()), "condition {:?}", e.condition());
    ensure!(e.material().name == materials(test).name, "material {:?}", e.material());
    ensure!(e.conc_forces().is_empty(), "concentrated forces {:?}", e.conc_forces());
    // which side each piece of the boundary is part of: pieces come in the order of the sides
    let sides = on.body.sides();
    let mut side_of: HashMap<(usize, usize), usize> = HashMap::new();
    let mut at = 0;
    for (i, (_, q)) in sides.iter().enumerate() {
        loop {
            let w = m.walls[at];
            side_of.insert(w, i);
            at += 1;
            if m.nodes[w.1] == *q {
                break;
            }
        }
    }
    // the load of a side is on each of its pieces, once, and on nothing else
    let mut seen: HashMap<(usize, usize), V> = HashMap::new();
    for ((a, b), f) in e.dist_forces() {
        let (a, b) = (a.into_idx(), b.into_idx());
        let key = if side_of.contains_key(&(a, b)) { (a, b) } else { (b, a) };
        ensure!(side_of.contains_key(&key), "a load between {:?} and {:?}, not on the boundary", m.nodes[a], m.nodes[b]);
        ensure!(seen.insert(key, (f[0], f[1])).is_none(), "loaded twice: {:?} to {:?}", m.nodes[a], m.nodes[b]);
    }
    for (w, s) in &side_of {
        let want = on.forces.iter().find(|f| f.0 == *s).map(|f| (f.2 .0.value_bits(), f.2 .1.value_bits()));
        let got = seen.get(w).map(|f| (f.0.value_bits(), f.1.value_bits()));
        ensure!(want == got, "the piece {:?} to {:?} of side {} has the load {:?}", m.nodes[w.0], m.nodes[w.1], s, seen.get(w));
    }
    // constraints: every point of a constrained side, and nothing else
    let mut held: HashMap<usize, Vec<Con>> = HashMap::new();
    for (w, s) in &side_of {
        if let Some((_, _, con)) = on.cons.iter().find(|x| x.0 == *s) {
            held.entry(w.0).or_default().push(*con);
            held.entry(w.1).or_default().push(*con);
        }
    }
    for (s, con) in &on.corners {
        let p = sides[*s].0;
        let n = m.nodes.iter().position(|q| *q == p).unwrap();
        held.entry(n).or_default().push(*con);
    }
    for (n, con) in e.constraints() {
        let n = n.into_idx();
        let Some(want) = together(held.get(&n).map_or(&[], |v| &v[..])) else { continue };
        ensure!(want.is(con), "the node at {:?} is held by {:?} for {:?}", m.nodes[n], con, want);
    }
    Ok(())
}

/// the mesher can be expected to end with its promises kept
pub fn suitable(body: &Body, mesher: u8, h: f64, top: f64) -> bool {
    let count = body.area() / (h * h);
    match mesher {
        0 => count < top && pieces(body, h).map_or(false, |p| apart(&p, h)),
        1 => count < 9.0 * top && body.sharpest() >= 60.0 - 1e-6,
        _ => true,
    }
}

/// What a mesh file holds, as nodes and triangles. The boundary is where the triangles end.
pub fn from_file(e: &ElementAssemblage, body: &Body) -> Result<Mesh, Fail> {
    let nodes: Vec<P> = e.nodes().iter().map(|p| (p[0], p[1])).collect();
    let tris: Vec<[usize; 3]> = e.element_descriptors().into_iter().map(|d| d.into_parts().map(|n| n.into_idx())).collect();
    let edges: HashSet<(usize, usize)> = tris.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).collect();
    let next: HashMap<usize, usize> = edges.iter().filter(|e| !edges.contains(&(e.1, e.0))).copied().collect();
    let mut walls = vec![];
    for r in &body.rings {
        let bits = |p: P| (p.0.value_bits(), p.1.value_bits());
        let Some(start) = nodes.iter().position(|p| bits(*p) == bits(r[0])) else { return Err(format!("no node at the corner {:?}", r[0]).into()) };
        let mut at = start;
        loop {
            let Some(to) = next.get(&at) else { return Err(format!("the boundary of the mesh ends at {:?}", nodes[at]).into()) };
            walls.push((at, *to));
            at = *to;
            if at == start {
                break;
            }
            ensure!(walls.len() <= nodes.len(), "the boundary of the mesh does not close");
        }
    }
    Ok(Mesh { nodes, tris, walls })
}
