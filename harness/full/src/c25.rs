//! C25: subdividing a boundary keeps the body and everything that is on its sides.

use crate::dress::*;
use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use crate::poly::*;
use bugi::element::constraint::Constraint;
use bugi::mesher::bounds::Segment;
use bugi::mesher::Vertex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// every piece into pieces of at least this fraction of the shortest one
    All(f64),
    /// one piece, at the fraction of its own length
    One(usize, f64),
    /// one piece in the middle
    Split(usize),
}

/// A history of subdivisions.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    on: Dressed,
    ops: Vec<Op>,
}

fn case() -> BoxedStrategy<Case> {
    case_of(dressed(body()), 4)
}

fn wide() -> BoxedStrategy<Case> {
    case_of(dressed_up_to(wide_body(), 150), 40)
}

/// one side in tens of thousands of pieces, subdivided before and after
fn vast() -> BoxedStrategy<Case> {
    let op = || prop_oneof![1 => (0usize..1000, 0.1f64..1.0).prop_map(|(i, f)| Op::One(i, f)), 2 => (0usize..1000).prop_map(Op::Split)];
    (dressed(body()), prop::collection::vec(op(), 0..3), (0usize..1000, 20_000u32..70_000), prop::collection::vec((0usize..100_000).prop_map(Op::Split), 0..3))
        .prop_map(|(on, mut ops, (i, n), after)| {
            ops.push(Op::One(i, 1.0 / (n as f64 + 0.5)));
            ops.extend(after);
            Case { on, ops }
        })
        .boxed()
}

fn case_of(on: BoxedStrategy<Dressed>, ops: usize) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        3 => prop_oneof![0.05f64..1.0, (1u32..12).prop_map(|k| 0.999999 / k as f64)].prop_map(Op::All),
        1 => (0usize..1000, 0.1f64..1.0).prop_map(|(i, f)| Op::One(i, f)),
        2 => (0usize..1000).prop_map(Op::Split),
    ];
    (on, prop::collection::vec(op, 1..ops)).prop_map(|(on, ops)| Case { on, ops }).boxed()
}

/// The pieces of the walls as the model has them: end points and the side they are part of.
type Pieces = Vec<(P, P, usize)>;

/// how many pieces of length at least h, at most √3 h; None where rounding decides
fn parts(l: f64, h: f64) -> Result<Option<usize>, ()> {
    let (lo, hi) = ((l / h * (1.0 - 1e-9)).floor(), (l / h * (1.0 + 1e-9)).floor());
    let fits = |n: f64| n >= 1.0 && l / n <= h * 3f64.sqrt() * (1.0 + 1e-9);
    let tight = |n: f64| n >= 1.0 && l / n <= h * 3f64.sqrt() * (1.0 - 1e-9);
    if lo == hi && fits(lo) == tight(lo) {
        return Ok(if fits(lo) { Some(lo as usize) } else { None });
    }
    Err(())
}

fn close(a: P, b: P, tol: f64) -> bool {
    (a.0 - b.0).abs() <= tol && (a.1 - b.1).abs() <= tol
}

fn check(c: &Case) -> Result<Info, Fail> {
    let ops = &c.ops;
    let c = &c.on;
    let (mut b, sides) = c.build();
    let given = c.body.sides();
    let tol = 1e-11 * c.body.extent();
    let mut pieces: Pieces = given.iter().enumerate().map(|(i, (p, q))| (*p, *q, i)).collect();
    let mut tags = vec![];
    let mut unsure = false;
    for op in ops {
        let walls: Vec<Segment> = b.all_walls().collect();
        let shortest = pieces.iter().map(|(p, q, _)| dist(*p, *q)).fold(f64::MAX, f64::min);
        if pieces.len() > 3000 && !matches!(op, Op::Split(_)) {
            break;
        }
        match op {
            Op::All(f) => {
                let h = shortest * f;
                let mut next: Pieces = vec![];
                let mut can = true;
                for (p, q, s) in &pieces {
                    match parts(dist(*p, *q), h) {
                        Ok(Some(n)) => {
                            for i in 0..n {
                                let at = |i: usize| if i == n { *q } else { (p.0 + (q.0 - p.0) * i as f64 / n as f64, p.1 + (q.1 - p.1) * i as f64 / n as f64) };
                                next.push((at(i), at(i + 1), *s));
                            }
                        }
                        Ok(None) => can = false,
                        Err(()) => unsure = true,
                    }
                }
                if unsure {
                    break;
                }
                let done = attempt(|| b.divide_all_segments(h));
                if !can {
                    // a piece that cannot be divided is reported, it does not silently stay too long or become too short
                    ensure!(done.is_err(), "a side that has no pieces of lengths {} to {} was divided", h, h * 3f64.sqrt());
                    return ok_tags(true, vec!["indivisible, refused"]);
                }
                ensure!(done.is_ok(), "not divided: {}", done.unwrap_err());
                pieces = next;
                tags.push("all divided");
            }
            Op::One(i, f) => {
                let i = i % pieces.len();
                let (p, q, s) = pieces[i];
                let h = dist(p, q) * f;
                let n = match parts(dist(p, q), h) {
                    Ok(Some(n)) => n,
                    _ => continue,
                };
                ensure!(attempt(|| b.divide_segment(walls[i], h)).is_ok(), "piece {} not divided", i);
                let at = |i: usize| if i == n { q } else { (p.0 + (q.0 - p.0) * i as f64 / n as f64, p.1 + (q.1 - p.1) * i as f64 / n as f64) };
                pieces.splice(i..i + 1, (0..n).map(|k| (at(k), at(k + 1), s)));
                tags.push("one divided");
            }
            Op::Split(i) => {
                let i = i % pieces.len();
                let (p, q, s) = pieces[i];
                let m = ((p.0 + q.0) / 2.0, (p.1 + q.1) / 2.0);
                let (x, y, v) = attempt(|| b.split_segment(walls[i])).map_err(|e| Fail::from(format!("piece {} not split: {}", i, e)))?;
                ensure!(x.0 == walls[i].0 && x.1 == v && y.0 == v && y.1 == walls[i].1, "the halves of piece {} do not meet in its middle", i);
                ensure!(b.is_segment(x) && b.is_segment(y) && !b.is_segment(walls[i]), "a half of piece {} is not a segment, or the whole still is", i);
                pieces.splice(i..i + 1, [(p, m, s), (m, q, s)]);
                tags.push("split");
            }
        }
    }
    if unsure && tags.is_empty() {
        return ok_tags(false, vec!["rounding decides"]);
    }
    // the walls are the pieces, in order, ring by ring
    let walls: Vec<Segment> = b.all_walls().collect();
    ensure!(walls.len() == pieces.len(), "{} pieces for {}", walls.len(), pieces.len());
    let mut of: HashMap<(Vertex, Vertex), usize> = HashMap::new();
    let mut place: HashMap<Vertex, P> = HashMap::new();
    for (i, (w, (p, q, s))) in walls.iter().zip(&pieces).enumerate() {
        let (a, z) = w.get();
        let (a, z): (P, P) = (a.into(), z.into());
        ensure!(close(a, *p, tol) && close(z, *q, tol), "piece {} runs from {:?} to {:?} for {:?} to {:?}", i, a, z, p, q);
        ensure!(b.is_segment(*w), "piece {} is not a segment", i);
        ensure!((w.len() - dist(*p, *q)).abs() <= tol, "length of piece {}", i);
        of.insert((w.0, w.1), *s);
        place.insert(w.0, a);
    }
    ensure!(of.len() == walls.len() && place.len() == walls.len(), "a piece twice");
    for s in &sides {
        let a: P = s.get().0.into();
        ensure!(place.get(&s.0) == Some(&a), "the corner {:?} is lost", a);
    }
    // the walls without subdivision stay what they were
    ensure!(b.all_base_walls().collect::<Vec<_>>() == sides, "the sides changed");
    let stored: HashSet<Vertex> = b.all_vertices().copied().collect();
    ensure!(stored == place.keys().copied().collect(), "{} corners for {}", stored.len(), place.len());
    // the load of a side is on each of its pieces, once
    let mut loads: HashMap<(Vertex, Vertex), V> = HashMap::new();
    for (s, f) in b.all_distributed_forces() {
        let key = if of.contains_key(&(s.0, s.1)) { (s.0, s.1) } else { (s.1, s.0) };
        ensure!(of.contains_key(&key), "a load on something that is not a piece");
        ensure!(loads.insert(key, f.into()).is_none(), "a piece is loaded twice");
    }
    for (key, s) in &of {
        let want = c.forces.iter().find(|f| f.0 == *s).map(|f| f.2);
        let got = loads.get(key).copied();
        let bits = |f: Option<V>| f.map(|f| (f.0.value_bits(), f.1.value_bits()));
        ensure!(bits(want) == bits(got), "a piece of side {} has the load {:?} for {:?}", s, got, want);
    }
    // the constraint of a side holds at each of its points, that of a corner at the corner
    let mut held: HashMap<Vertex, HashSet<String>> = HashMap::new();
    for (v, con) in b.all_constraints() {
        held.entry(v).or_default().insert(con_value(con));
    }
    let mut want: HashMap<Vertex, HashSet<String>> = HashMap::new();
    for ((a, z), s) in &of {
        if let Some((_, _, con)) = c.cons.iter().find(|x| x.0 == *s) {
            want.entry(*a).or_default().insert(con_value(con.get()));
            want.entry(*z).or_default().insert(con_value(con.get()));
        }
    }
    for (s, con) in &c.corners {
        want.entry(sides[*s].0).or_default().insert(con_value(con.get()));
    }
    ensure!(held.len() == want.len(), "{} constrained points for {}", held.len(), want.len());
    for (v, w) in &want {
        ensure!(held.get(v) == Some(w), "the point {:?} has the constraints {:?} for {:?}", place[v], held.get(v), w);
    }
    tags.sort();
    tags.dedup();
    ok_tags(pieces.len() > given.len() && c.forces.len() + c.cons.len() > 0, tags)
}

// ------------------------------------------------------------------
// what a boundary says about itself, at any point of a history

/// Free points beside a body that was subdivided, and what is asked.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Asked {
    on: Dressed,
    ops: Vec<Op>,
    /// points of the box around the body (0 to 1 each way, further out too)
    free: Vec<(f64, f64)>,
    /// pieces and points
    views: Vec<(usize, usize)>,
    /// points to be joined
    joins: Vec<(usize, usize)>,
    /// a further polygon, by points of the box
    ring: Vec<(f64, f64)>,
}

fn asked() -> BoxedStrategy<Asked> {
    asked_of(dressed(body()), 5, 16)
}

fn asked_wide() -> BoxedStrategy<Asked> {
    asked_of(dressed_up_to(wide_body(), 20), 30, 60)
}

fn asked_of(on: BoxedStrategy<Dressed>, ops: usize, views: usize) -> BoxedStrategy<Asked> {
    let op = prop_oneof![
        1 => (0usize..1000, 0.1f64..1.0).prop_map(|(i, f)| Op::One(i, f)),
        2 => (0usize..1000).prop_map(Op::Split),
    ];
    let at = || (-0.2f64..1.2, -0.2f64..1.2);
    let pair = |n: usize| prop::collection::vec((0usize..1000, 0usize..1000), 1..n);
    (on, prop::collection::vec(op, 0..ops), prop::collection::vec(at(), 0..5), pair(views), pair(6), prop::collection::vec(at(), 0..6))
        .prop_map(|(on, ops, free, views, joins, ring)| Asked { on, ops, free, views, joins, ring })
        .boxed()
}

fn spot(v: Vertex) -> P {
    Segment(v, v).get().0.into()
}

fn seg_seg(a: P, b: P, c: P, d: P) -> f64 {
    let o = |a: P, b: P, c: P| cross(sub(b, a), sub(c, a));
    if o(a, b, c) * o(a, b, d) < 0.0 && o(c, d, a) * o(c, d, b) < 0.0 {
        return 0.0;
    }
    seg_dist(a, c, d).min(seg_dist(b, c, d)).min(seg_dist(c, a, b)).min(seg_dist(d, a, b))
}

/// Whether two segments meet; None where rounding decides.
fn meet(a: P, b: P, c: P, d: P, tol: f64) -> Option<bool> {
    let gap = seg_seg(a, b, c, d);
    if gap > tol {
        return Some(false);
    }
    // deep: each end well off the other line
    let off = |a: P, b: P, c: P| cross(sub(b, a), sub(c, a)) / dist(a, b);
    let (e, f, g, h) = (off(a, b, c), off(a, b, d), off(c, d, a), off(c, d, b));
    if gap == 0.0 && [e, f, g, h].iter().all(|x| x.abs() > tol) {
        return Some(true);
    }
    None
}

fn check_asked(c: &Asked) -> Result<Info, Fail> {
    let (mut b, sides) = c.on.build();
    let rings = &c.on.body;
    let corners: Vec<P> = rings.rings.iter().flatten().copied().collect();
    let lo = corners.iter().fold((f64::MAX, f64::MAX), |m, p| (m.0.min(p.0), m.1.min(p.1)));
    let hi = corners.iter().fold((f64::MIN, f64::MIN), |m, p| (m.0.max(p.0), m.1.max(p.1)));
    let size = (hi.0 - lo.0).max(hi.1 - lo.1);
    let place = |u: (f64, f64)| (lo.0 + u.0 * (hi.0 - lo.0), lo.1 + u.1 * (hi.1 - lo.1));
    let mut tags = vec![];
    ensure!(b.size() == size, "a body of size {} says {}", size, b.size());
    for op in &c.ops {
        let walls: Vec<Segment> = b.all_walls().collect();
        match op {
            Op::One(i, f) => {
                let s = walls[i % walls.len()];
                let h = s.len() * f;
                if matches!(parts(s.len(), h), Ok(Some(_))) {
                    ensure!(attempt(|| b.divide_segment(s, h)).is_ok(), "a piece not divided");
                }
            }
            Op::Split(i) => drop(attempt(|| b.split_segment(walls[i % walls.len()])).map_err(|e| Fail::from(format!("a piece not split: {}", e)))?),
            Op::All(_) => {}
        }
    }
    let eps = 1e-9 * (rings.extent() + size);
    // dividing adds points between the corners only: the size stays
    ensure!((b.size() - size).abs() <= eps, "a body of size {} says {} after dividing its sides", size, b.size());
    let walls: Vec<Segment> = b.all_walls().collect();
    // exactly the pieces, in their direction, are segments
    let vs: Vec<Vertex> = walls.iter().map(|w| w.0).collect();
    let set: HashSet<(Vertex, Vertex)> = walls.iter().map(|w| (w.0, w.1)).collect();
    ensure!(set.len() == walls.len() && vs.iter().collect::<HashSet<_>>().len() == vs.len(), "a piece or corner twice");
    for w in &walls {
        let (p, q): (P, P) = { let (p, q) = w.get(); (p.into(), q.into()) };
        ensure!(!b.is_segment(w.rev()) && w.rev().rev() == *w && w.rev().get().0 == w.get().1, "the reverse of a piece");
        ensure!(w.has(w.0) && w.has(w.1) && vs.iter().all(|v| w.has(*v) == (*v == w.0 || *v == w.1)), "the ends of a piece");
        let (m, disk): (P, _) = (w.mid().into(), w.diametral());
        ensure!(close(m, ((p.0 + q.0) / 2.0, (p.1 + q.1) / 2.0), eps) && close(disk.center.into(), m, eps), "the middle of {:?} {:?} is {:?}", p, q, m);
        ensure!((disk.radius - dist(p, q) / 2.0).abs() <= eps && (w.len() - dist(p, q)).abs() <= eps, "the disk on {:?} {:?} has the radius {}", p, q, disk.radius);
    }
    for (i, j) in &c.joins {
        let (v, w) = (vs[i % vs.len()], vs[j % vs.len()]);
        ensure!(b.is_segment((v, w)) == set.contains(&(v, w)), "segment or not");
    }
    // free points
    let mut pts = vs.clone();
    let (mut flo, mut fhi) = (lo, hi);
    for u in &c.free {
        let p = place(*u);
        let v = b.store_vertex(p);
        let g = spot(v);
        ensure!(g == p, "a point stored at {:?} is at {:?}", p, g);
        ensure!(!pts.contains(&v), "a point twice");
        pts.push(v);
        flo = (flo.0.min(p.0), flo.1.min(p.1));
        fhi = (fhi.0.max(p.0), fhi.1.max(p.1));
    }
    let stored: Vec<Vertex> = b.all_vertices().copied().collect();
    ensure!(stored.len() == pts.len() && stored.iter().collect::<HashSet<_>>() == pts.iter().collect::<HashSet<_>>(), "{} points stored, {} listed", pts.len(), stored.len());
    ensure!(b.all_walls().collect::<Vec<_>>() == walls && b.all_base_walls().collect::<Vec<_>>() == sides, "free points changed the walls");
    let size = (fhi.0 - flo.0).max(fhi.1 - flo.1);
    ensure!((b.size() - size).abs() <= eps, "a boundary of size {} says {}", size, b.size());
    // the middle of a piece is seen from a point unless a side that touches neither is between them
    let given = rings.sides();
    for (i, j) in &c.views {
        let (w, x) = (walls[i % walls.len()], pts[j % pts.len()]);
        let (m, at): (P, P) = (w.mid().into(), spot(x));
        let mut hidden = Some(false);
        for (p, q) in &given {
            let near = seg_dist(m, *p, *q).min(seg_dist(at, *p, *q));
            if near < 1e-9 * size {
                continue;
            }
            if near < 1e-5 * size {
                // about as near as the code takes for touching
                if seg_seg(m, at, *p, *q) < 1e-5 * size && hidden == Some(false) {
                    hidden = None;
                }
                continue;
            }
            match meet(m, at, *p, *q, 1e-9 * size) {
                Some(true) => hidden = Some(true),
                None if hidden == Some(false) => hidden = None,
                _ => {}
            }
        }
        if let Some(hidden) = hidden {
            let got = b.midpoint_visible(w, x);
            ensure!(got != hidden, "{:?} is {} from {:?}, the boundary says otherwise", m, if hidden { "hidden" } else { "seen" }, at);
            tags.push(if hidden { "hidden" } else { "seen" });
        }
    }
    // segments that meet one they have no end in common with are refused, others are stored
    for (i, j) in &c.joins {
        let (v, w) = (pts[i % pts.len()], pts[j % pts.len()]);
        if v == w {
            continue;
        }
        let (p, q) = (spot(v), spot(w));
        let mut met = Some(false);
        for s in walls.iter().filter(|s| !s.has(v) && !s.has(w)) {
            let (e, f): (P, P) = { let (e, f) = s.get(); (e.into(), f.into()) };
            match meet(p, q, e, f, 1e-9 * size) {
                Some(true) => met = Some(true),
                None if met == Some(false) => met = None,
                _ => {}
            }
        }
        if let Some(met) = met {
            let mut copy = b.clone();
            let res = attempt(|| copy.store_segment((v, w)));
            ensure!(res.is_err() == met, "a segment from {:?} to {:?} that {} was {}", p, q, if met { "crosses a side" } else { "crosses no side" }, if res.is_err() { "refused" } else { "stored" });
            ensure!(copy.is_segment((v, w)) == (!met || set.contains(&(v, w))), "stored or not");
            tags.push(if met { "crossing refused" } else { "segment stored" });
        }
    }
    // so with whole polygons
    let ring: Vec<P> = c.ring.iter().map(|u| place(*u)).collect();
    let mut copy = b.clone();
    let res = attempt(|| copy.try_store_polygon(&ring)).map_err(|e| Fail::from(format!("storing a polygon: {}", e)))?;
    if ring.len() < 3 {
        ensure!(res.is_err(), "a polygon of {} points was stored", ring.len());
        ensure!(copy.all_walls().collect::<Vec<_>>() == walls, "a refused polygon changed the walls");
        tags.push("few points refused");
    } else {
        let n = ring.len();
        let own: Vec<(P, P)> = (0..n).map(|i| (ring[i], ring[(i + 1) % n])).collect();
        let mut met = Some(false);
        let mut see = |x: Option<bool>| match x {
            Some(true) => met = Some(true),
            None if met == Some(false) => met = None,
            _ => {}
        };
        for (i, (p, q)) in own.iter().enumerate() {
            for s in &walls {
                let (e, f): (P, P) = { let (e, f) = s.get(); (e.into(), f.into()) };
                see(meet(*p, *q, e, f, 1e-9 * size));
            }
            for (j, (e, f)) in own.iter().enumerate().take(i) {
                // neighbours share an end
                if j + 1 != i && !(j == 0 && i == n - 1) {
                    see(meet(*p, *q, *e, *f, 1e-9 * size));
                }
            }
        }
        if let Some(met) = met {
            ensure!(res.is_err() == met, "a polygon {:?} that {} was {}", ring, if met { "crosses a side" } else { "crosses no side" }, if res.is_err() { "refused" } else { "stored" });
            tags.push(if met { "crossing polygon refused" } else { "polygon stored" });
            if let Ok(ids) = res {
                ensure!(ids.len() == n && ids.iter().zip(&ring).all(|(v, p)| spot(*v) == *p), "the corners of a polygon");
                let more: Vec<Segment> = (0..n).map(|i| Segment(ids[i], ids[(i + 1) % n])).collect();
                let all: Vec<Segment> = walls.iter().chain(&more).copied().collect();
                ensure!(copy.all_walls().collect::<Vec<_>>() == all, "the walls after a further polygon");
                let base: Vec<Segment> = sides.iter().chain(&more).copied().collect();
                ensure!(copy.all_base_walls().collect::<Vec<_>>() == base, "the sides after a further polygon");
            }
        }
    }
    tags.sort();
    tags.dedup();
    ok_tags(tags.contains(&"hidden") || tags.contains(&"crossing refused") || tags.contains(&"crossing polygon refused"), tags)
}

pub fn property() -> Property {
    Property {
        id: "C25",
        families: vec![
            Box::new(Family { name: "queries", rule: "a subdivided body with a view or a segment that a side obstructs", quick: 400_000, thorough: 24_000_000, strategy: asked, check: check_asked }),
            Box::new(Family { name: "queries-wide", rule: "as queries, with up to hundreds of sides and tens of holes", quick: 20_000, thorough: 600_000, strategy: asked_wide, check: check_asked }),
            Box::new(Family { name: "histories-vast", rule: "as histories, with a side in 20 000 to 70 000 pieces", quick: 48, thorough: 2_000, strategy: vast, check }),
            Box::new(Family { name: "histories-wide", rule: "as histories, with up to hundreds of sides, loads and constraints", quick: 4_000, thorough: 160_000, strategy: wide, check }),
            Box::new(Family { name: "histories", rule: "a body with loads or constraints that was subdivided", quick: 400_000, thorough: 25_000_000, strategy: case, check })],
        assumptions: vec!["piece counts within rounding of a change are not judged", "one load and one constraint per side"],
    }
}
