//! C31: pictures of boundaries and triangulations show their points and edges, and nothing else.

use crate::draw::*;
use crate::dress::*;
use crate::ensure;
use crate::model::scratch;
use crate::pbt::*;
use crate::poly::*;
use bugi::mesher::bounds::{PlaneBoundary, Segment};
use bugi::mesher::plane::PlaneTriangulation;
use bugi::mesher::Vertex;
use bugi::spatial::Point;
use bugi::visual::{VisOptions, Visualizer};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Look {
    size: Option<u32>,
    show: bool,
    /// points marked in the picture, in one colour each (0 to 1 each way over the box around the model)
    marks: Vec<(usize, Vec<(f64, f64)>)>,
}

fn look() -> BoxedStrategy<Look> {
    let at = || (-0.2f64..1.2, -0.2f64..1.2);
    (
        prop_oneof![1 => (1u32..12).prop_map(Some), 5 => (12u32..90).prop_map(Some), 3 => (90u32..300).prop_map(Some), 1 => (300u32..500).prop_map(Some), 1 => Just(None)],
        prop::bool::weighted(0.9),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((0usize..4, prop::collection::vec(at(), 1..4)), 1..3)],
    )
        .prop_map(|(size, show, marks)| Look { size, show, marks })
        .boxed()
}

fn spot(v: Vertex) -> P {
    Segment(v, v).get().0.into()
}

/// the picture has the points and edges; whether every pixel was judged and lines are visible
fn seen(mut vis: Visualizer, pts: &[P], edges: &[(usize, usize)], l: &Look) -> Result<Option<bool>, Fail> {
    let mut all: Vec<[f64; 3]> = pts.iter().map(|p| [p.0, p.1, 0.0]).collect();
    let mut colors = vec![0; all.len()];
    let lo = pts.iter().fold((f64::MAX, f64::MAX), |m, p| (m.0.min(p.0), m.1.min(p.1)));
    let hi = pts.iter().fold((f64::MIN, f64::MIN), |m, p| (m.0.max(p.0), m.1.max(p.1)));
    for (k, batch) in &l.marks {
        let more: Vec<P> = batch.iter().map(|u| (lo.0 + u.0 * (hi.0 - lo.0), lo.1 + u.1 * (hi.1 - lo.1))).collect();
        vis.add_points(more.iter().map(|p| Point::new(&[p.0, p.1])).collect(), *k);
        all.extend(more.iter().map(|p| [p.0, p.1, 0.0]));
        colors.extend(more.iter().map(|_| *k));
    }
    let file = scratch("c31.png");
    // (there may be a file of that name)
    if pts.len() % 2 == 0 {
        let _ = std::fs::remove_file(&file);
    } else {
        std::fs::write(&file, vec![b'.'; 200_000]).unwrap();
    }
    let mut o = VisOptions::new().show_mesh(l.show);
    if let Some(s) = l.size {
        o = o.im_size(s);
    }
    attempt(|| vis.draw(file.to_str().unwrap(), o)).map_err(|e| Fail::from(format!("not drawn: {}", e)))?;
    let img = image::open(&file).map_err(|e| format!("the file does not hold an image: {}", e))?.to_rgb8();
    let _ = std::fs::remove_file(&file);
    let k = judge(&Picture { dim: 2, pts: &all, colors: &colors, edges, tris: &[], vals: None }, 0, l.show, l.size.unwrap_or(256), &img)?;
    Ok(k.map(|k| k[1] > 0))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// a piece divided by this fraction of its length
    One(usize, f64),
    Split(usize),
    /// all pieces divided by this fraction of the shortest
    All(f64),
    /// a point belonging to no side (0 to 1 each way over the box around the body)
    Free(f64, f64),
    /// a free point joined to another point, if nothing is in the way
    Join(usize, usize),
}

/// A boundary drawn at the end of a history, and now and then on the way.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Outline {
    body: Body,
    ops: Vec<(Op, Option<Look>)>,
    last: Look,
}

fn outlines() -> BoxedStrategy<Outline> {
    outlines_of(body(), 6)
}

fn outlines_wide() -> BoxedStrategy<Outline> {
    outlines_of(wide_body(), 30)
}

fn outlines_of(body: BoxedStrategy<Body>, ops: usize) -> BoxedStrategy<Outline> {
    let op = prop_oneof![
        2 => (0usize..1000, 0.1f64..1.0).prop_map(|(i, f)| Op::One(i, f)),
        3 => (0usize..1000).prop_map(Op::Split),
        1 => (0.1f64..1.0).prop_map(Op::All),
        2 => (-0.2f64..1.2, -0.2f64..1.2).prop_map(|(x, y)| Op::Free(x, y)),
        2 => (0usize..1000, 0usize..1000).prop_map(|(i, j)| Op::Join(i, j)),
    ];
    (body, prop::collection::vec((op, prop::option::weighted(0.15, look())), 0..ops), look()).prop_map(|(body, ops, last)| Outline { body, ops, last }).boxed()
}

fn check_outline(c: &Outline) -> Result<Info, Fail> {
    let mut b = PlaneBoundary::new();
    // points as they are stored, and the segments between them
    let mut pts: Vec<Vertex> = vec![];
    let mut segs: Vec<Segment> = vec![];
    for r in &c.body.rings {
        let ids = b.store_polygon(r);
        segs.extend((0..ids.len()).map(|i| Segment(ids[i], ids[(i + 1) % ids.len()])));
        pts.extend(ids);
    }
    let corners: Vec<P> = pts.iter().map(|v| spot(*v)).collect();
    let lo = corners.iter().fold((f64::MAX, f64::MAX), |m, p| (m.0.min(p.0), m.1.min(p.1)));
    let hi = corners.iter().fold((f64::MIN, f64::MIN), |m, p| (m.0.max(p.0), m.1.max(p.1)));
    let mut tags = vec![];
    let mut rich = false;
    let walls = segs.len();
    // free points and the segments from them
    let mut free: Vec<Vertex> = vec![];
    let mut loose: Vec<Segment> = vec![];
    let mut walled = segs;
    let view = |b: &PlaneBoundary, pts: &[Vertex], segs: &[Segment], l: &Look, what: &str| -> Result<Option<bool>, Fail> {
        let at: Vec<P> = pts.iter().map(|v| spot(*v)).collect();
        let of: std::collections::HashMap<Vertex, usize> = pts.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let edges: Vec<(usize, usize)> = segs.iter().map(|s| (of[&s.0], of[&s.1])).collect();
        seen(attempt(|| b.visualize()).map_err(|e| Fail::from(format!("{}: {}", what, e)))?, &at, &edges, l).map_err(|e| Fail::from(format!("{}: {:?}", what, e)))
    };
    let ops = c.ops.iter().map(|(o, l)| (Some(o), l.as_ref())).chain([(None, Some(&c.last))]);
    for (k, (op, l)) in ops.enumerate() {
        match op {
            Some(Op::One(i, f)) => {
                // what a division makes of a piece is C25's matter
                let i = i % walled.len();
                let s = walled[i];
                if attempt(|| b.clone().divide_segment(s, s.len() * f)).is_ok() && walled.len() < 2000 {
                    b.divide_segment(s, s.len() * f);
                }
            }
            // (all segments are divided, those that are part of no side too)
            Some(Op::All(f)) if loose.is_empty() => {
                let h = walled.iter().map(|s| s.len()).fold(f64::MAX, f64::min) * f;
                if walled.iter().map(|s| s.len()).sum::<f64>() / h < 3000.0 && attempt(|| b.clone().divide_all_segments(h)).is_ok() {
                    b.divide_all_segments(h);
                }
            }
            Some(Op::Split(i)) => {
                let s = walled[i % walled.len()];
                attempt(|| b.split_segment(s)).map_err(|e| Fail::from(format!("a piece not split: {}", e)))?;
            }
            Some(Op::Free(x, y)) => {
                let v = b.store_vertex((lo.0 + x * (hi.0 - lo.0), lo.1 + y * (hi.1 - lo.1)));
                pts.push(v);
                free.push(v);
            }
            Some(Op::Join(i, j)) => {
                if free.is_empty() {
                    continue;
                }
                // at most one segment begins at a point
                let (v, w) = (free[i % free.len()], pts[j % pts.len()]);
                // crossings are refused: C25's matter, too
                if v != w && loose.iter().all(|s| s.0 != v) && attempt(|| b.clone().store_segment((v, w))).is_ok() {
                    b.store_segment((v, w));
                    loose.push(Segment(v, w));
                    tags.push("joined");
                }
            }
            _ => {}
        }
        // the pieces of the sides now, with the points they run between
        if let Some(Op::One(..)) | Some(Op::All(_)) | Some(Op::Split(_)) = op {
            walled = b.all_walls().collect();
            for s in &walled {
                if !pts.contains(&s.0) {
                    pts.push(s.0);
                }
            }
        }
        if let Some(l) = l {
            let segs: Vec<Segment> = walled.iter().chain(&loose).copied().collect();
            let r = view(&b, &pts, &segs, l, &format!("the boundary after {} steps", k))?;
            tags.push(if r.is_some() { "every pixel explained" } else { "drawn, pixels left to rounding" });
            rich = rich || r == Some(true);
        }
    }
    if walled.len() > walls {
        tags.push("subdivided");
    }
    tags.sort();
    tags.dedup();
    ok_tags(rich, tags)
}

/// A triangulation drawn before, on the way and at the end.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Meshed {
    body: Body,
    rel: f64,
    /// Chew's, Ruppert's, the plain one
    mesher: u8,
    looks: [Look; 3],
}

fn meshes() -> BoxedStrategy<Meshed> {
    meshes_of(body(), (0.15f64..1.0).boxed())
}

fn meshes_wide() -> BoxedStrategy<Meshed> {
    meshes_of(wide_body(), (0.4f64..1.0).boxed())
}

fn meshes_of(body: BoxedStrategy<Body>, rel: BoxedStrategy<f64>) -> BoxedStrategy<Meshed> {
    (body, rel, 0u8..3, [look(), look(), look()]).prop_map(|(body, rel, mesher, looks)| Meshed { body, rel, mesher, looks }).boxed()
}

fn check_meshed(c: &Meshed) -> Result<Info, Fail> {
    let h = c.body.feature() * c.rel;
    // larger triangles for Ruppert's mesher, which takes any size
    let h = if c.mesher == 1 { h * 3.0 } else { h };
    if !suitable(&c.body, c.mesher, h, 1500.0) {
        return ok_tags(false, vec!["body not for the mesher"]);
    }
    let mut t = PlaneTriangulation::new(bare(&c.body));
    let corners: Vec<P> = c.body.rings.iter().flatten().copied().collect();
    seen(t.visualize(), &corners, &[], &c.looks[0]).map_err(|e| Fail::from(format!("before meshing: {:?}", e)))?;
    match c.mesher {
        0 => t.chew_mesh(h),
        1 => t.ruppert_mesh(h),
        _ => t.gift_wrap(),
    }
    let pictures = [t.visualize(), t.visualize()];
    let (m, _) = taken(t)?;
    tiles(&m, &c.body)?;
    let mut edges: Vec<(usize, usize)> = m.tris.iter().flat_map(|t| (0..3).map(move |k| (t[k].min(t[(k + 1) % 3]), t[k].max(t[(k + 1) % 3])))).collect();
    edges.sort();
    edges.dedup();
    let mut tags = vec![["chew", "ruppert", "plain"][c.mesher as usize]];
    let mut rich = false;
    for (vis, l) in pictures.into_iter().zip(&c.looks[1..]) {
        let r = seen(vis, &m.nodes, &edges, l).map_err(|e| Fail::from(format!("the mesh: {:?}", e)))?;
        tags.push(if r.is_some() { "every pixel explained" } else { "drawn, pixels left to rounding" });
        rich = rich || r == Some(true);
    }
    tags.sort();
    tags.dedup();
    ok_tags(rich, tags)
}

pub fn property() -> Property {
    Property {
        id: "C31",
        families: vec![
            Box::new(Family { name: "boundaries", rule: "a body's boundary subdivided, with free points and joined points, drawn on the way and at the end. Non-trivial: every pixel of an image with visible lines is explained", quick: 20_000, thorough: 600_000, strategy: outlines, check: check_outline }),
            Box::new(Family { name: "boundaries-wide", rule: "as boundaries, with up to hundreds of sides and tens of holes and 30 steps", quick: 3_000, thorough: 90_000, strategy: outlines_wide, check: check_outline }),
            Box::new(Family { name: "meshes", rule: "a triangulation by any mesher, drawn before and after. Non-trivial: every pixel of an image with visible lines is explained", quick: 20_000, thorough: 600_000, strategy: meshes, check: check_meshed }),
            Box::new(Family { name: "meshes-wide", rule: "as meshes, with up to hundreds of sides and tens of holes", quick: 2_000, thorough: 60_000, strategy: meshes_wide, check: check_meshed }),
        ],
        assumptions: vec!["models with a point within a millionth of the middle between two pixels are only drawn, not judged", "the points and pieces of a subdivided boundary are those C25 checks, the triangles of a mesh those C26 and C27 check"],
    }
}
