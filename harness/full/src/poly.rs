//! Plane bodies bounded by polygons: generation and the geometry the mesh checks need.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub type P = (f64, f64);

pub fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
pub fn cross(a: P, b: P) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
pub fn dot(a: P, b: P) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
pub fn dist(a: P, b: P) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
pub fn area(p: &[P]) -> f64 {
    let o = p[0];
    (1..p.len() - 1).map(|i| cross(sub(p[i], o), sub(p[i + 1], o))).sum::<f64>() / 2.0
}
pub fn seg_dist(p: P, a: P, b: P) -> f64 {
    let d = sub(b, a);
    let t = (dot(sub(p, a), d) / dot(d, d)).clamp(0.0, 1.0);
    dist(p, (a.0 + t * d.0, a.1 + t * d.1))
}
pub fn circumradius(a: P, b: P, c: P) -> f64 {
    dist(a, b) * dist(b, c) * dist(c, a) / (2.0 * cross(sub(b, a), sub(c, a)).abs())
}
pub fn circumcenter(a: P, b: P, c: P) -> P {
    let (u, v) = (sub(b, a), sub(c, a));
    let d = 2.0 * cross(u, v);
    let (uu, vv) = (dot(u, u), dot(v, v));
    (a.0 + (v.1 * uu - u.1 * vv) / d, a.1 + (u.0 * vv - v.0 * uu) / d)
}

/// An outline (counterclockwise) and holes (clockwise).
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Body {
    pub rings: Vec<Vec<P>>,
}

impl Body {
    pub fn sides(&self) -> Vec<(P, P)> {
        self.rings.iter().flat_map(|r| (0..r.len()).map(move |i| (r[i], r[(i + 1) % r.len()]))).collect()
    }
    pub fn area(&self) -> f64 {
        self.rings.iter().map(|r| area(r)).sum()
    }
    pub fn extent(&self) -> f64 {
        self.rings.iter().flatten().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max)
    }
    /// the smallest distance of a corner from a side it does not belong to
    pub fn feature(&self) -> f64 {
        let sides = self.sides();
        let mut res = f64::MAX;
        for r in &self.rings {
            for p in r {
                for (a, b) in &sides {
                    if a != p && b != p {
                        res = res.min(seg_dist(*p, *a, *b));
                    }
                }
            }
        }
        res
    }
    /// the smallest angle between neighbouring sides (inside the body or outside), in degrees
    pub fn sharpest(&self) -> f64 {
        let mut res = 360.0f64;
        for r in &self.rings {
            let n = r.len();
            for i in 0..n {
                let (u, v) = (sub(r[(i + n - 1) % n], r[i]), sub(r[(i + 1) % n], r[i]));
                res = res.min(cross(u, v).atan2(dot(u, v)).abs().to_degrees());
            }
        }
        res
    }
    pub fn map(&self, f: impl Fn(P) -> P) -> Body {
        Body { rings: self.rings.iter().map(|r| r.iter().map(|p| f(*p)).collect()).collect() }
    }
}

/// a ring around the origin, counterclockwise
fn star(lo: usize, hi: usize) -> BoxedStrategy<Vec<P>> {
    (lo..=hi)
        .prop_flat_map(|n| prop::collection::vec((0.5f64..1.0, 0.6f64..1.4), n))
        .prop_map(|v| {
            let total: f64 = v.iter().map(|x| x.0).sum();
            let mut at = 0.0;
            v.iter()
                .map(|(gap, r)| {
                    at += gap / total * std::f64::consts::TAU;
                    (r * at.cos(), r * at.sin())
                })
                .collect()
        })
        .boxed()
}

/// a union of grid cells with a boundary that is one ring: a staircase
fn stairs(lo: usize, hi: usize) -> BoxedStrategy<Vec<P>> {
    prop::collection::vec((1i32..4, 1i32..5), lo..hi)
        .prop_map(|cols| {
            let mut top = vec![];
            let mut x = 0;
            for (w, h) in &cols {
                top.push((x as f64, *h as f64));
                x += w;
                top.push((x as f64, *h as f64));
            }
            let mut ring = vec![(0.0, 0.0), (x as f64, 0.0)];
            top.reverse();
            for (i, p) in top.iter().enumerate() {
                let prev = *ring.last().unwrap();
                // drop points in the middle of a straight side
                if i > 0 && i + 1 < top.len() && (prev.1 == p.1 && top[i + 1].1 == p.1) {
                    continue;
                }
                if prev != *p {
                    ring.push(*p);
                }
            }
            ring
        })
        .boxed()
}

fn steps() -> BoxedStrategy<Vec<P>> {
    stairs(1, 4)
}

/// a corridor of width one that winds inwards
fn spiral(turns: usize) -> Vec<P> {
    // the outer side runs in, the inner one back out
    let dirs = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)];
    let (mut at, mut out, mut inn) = ((0.0, 0.0), vec![(0.0, 0.0)], vec![(0.0, 1.0)]);
    for k in 0..turns {
        let d = dirs[k % 4];
        let e = dirs[(k + 1) % 4];
        let l = 2.0 * ((turns - k + 1) / 2) as f64 + 3.0;
        at = (at.0 + d.0 * l, at.1 + d.1 * l);
        if k + 1 < turns {
            out.push(at);
            // the inner corner is one to the left of both corridors
            inn.push((at.0 - d.0 + e.0, at.1 - d.1 + e.1));
        } else {
            out.push(at);
            inn.push((at.0 + e.0, at.1 + e.1));
        }
    }
    inn.reverse();
    out.extend(inn);
    out
}

/// bodies of tens to hundreds of sides, with up to tens of holes
fn wide_shape() -> BoxedStrategy<Body> {
    prop_oneof![
        2 => (20usize..160, 0.0f64..0.2)
            .prop_flat_map(|(n, rough)| (Just(rough), prop::collection::vec((0.7f64..1.0, -1.0f64..1.0), n)))
            .prop_map(|(rough, v)| {
                let (total, n): (f64, _) = (v.iter().map(|x| x.0).sum(), v.len() as f64);
                let mut at = 0.0;
                let ring = v.iter().map(|(gap, r)| {
                    at += gap / total * std::f64::consts::TAU;
                    let r = 1.0 + r * rough * 10.0 / n;
                    (r * at.cos(), r * at.sin())
                });
                Body { rings: vec![ring.collect()] }
            }),
        2 => (1usize..7, 1usize..7).prop_flat_map(|(k, l)| (Just((k, l)), prop::collection::vec((0u8..5, 0.3f64..0.6, -0.15f64..0.15, -0.15f64..0.15), k * l))).prop_map(|((k, l), v)| {
            let mut rings = vec![vec![(0.0, 0.0), (k as f64, 0.0), (k as f64, l as f64), (0.0, l as f64)]];
            for (i, (kind, size, x, y)) in v.into_iter().enumerate() {
                // nothing, a square or a polygon of three to five corners
                let (cx, cy) = ((i % k) as f64 + 0.5, (i / k) as f64 + 0.5);
                match kind {
                    0 => {}
                    1 => rings.push(vec![(cx - 0.25, cy - 0.25), (cx - 0.25, cy + 0.25), (cx + 0.25, cy + 0.25), (cx + 0.25, cy - 0.25)]),
                    n => rings.push((0..n as usize + 1).rev().map(|j| {
                        let t = j as f64 / (n as f64 + 1.0) * std::f64::consts::TAU + size;
                        (cx + x + size / 2.0 * t.cos(), cy + y + size / 2.0 * t.sin())
                    }).collect()),
                }
            }
            Body { rings }
        }),
        2 => stairs(6, 40).prop_map(|r| Body { rings: vec![r] }),
        1 => (2usize..24).prop_map(|n| Body { rings: vec![spiral(n)] }),
    ]
    .boxed()
}

fn shape() -> BoxedStrategy<Body> {
    prop_oneof![
        3 => star(3, 9).prop_map(|r| Body { rings: vec![r] }),
        2 => (star(4, 8), prop::collection::vec((star(3, 5), 0.08f64..0.25, -0.3f64..0.3, -0.3f64..0.3), 1..3)).prop_map(|(r, holes)| {
            let mut rings = vec![r];
            for (h, s, x, y) in holes {
                let mut h: Vec<P> = h.iter().map(|p| (p.0 * s + x, p.1 * s + y)).collect();
                h.reverse();
                rings.push(h);
            }
            Body { rings }
        }),
        2 => steps().prop_map(|r| Body { rings: vec![r] }),
        1 => (2i32..6, 2i32..6, 1i32..4, 1i32..4).prop_map(|(w, h, x, y)| {
            // a square hole in a rectangle
            let (w, h) = ((w + x) as f64 + 1.0, (h + y) as f64 + 1.0);
            let (x, y) = (x as f64, y as f64);
            Body { rings: vec![vec![(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)], vec![(x, y), (x, y + 1.0), (x + 1.0, y + 1.0), (x + 1.0, y)]] }
        }),
    ]
    .boxed()
}

/// bodies whose rings do not touch, turned and moved, of any size
pub fn body() -> BoxedStrategy<Body> {
    placed(shape())
}

/// as body(), with tens to hundreds of sides
pub fn wide_body() -> BoxedStrategy<Body> {
    placed(wide_shape())
}

fn placed(shape: BoxedStrategy<Body>) -> BoxedStrategy<Body> {
    let turn = prop_oneof![2 => Just(0.0), 1 => Just(std::f64::consts::FRAC_PI_4), 1 => Just(std::f64::consts::FRAC_PI_2), 2 => 0.0f64..6.3];
    let size = prop_oneof![4 => Just(0), 2 => -8i32..8, 1 => -60i32..60];
    (shape, turn, size, prop_oneof![Just((0.0, 0.0)), (-3.0f64..3.0, -3.0f64..3.0)])
        .prop_map(|(b, turn, size, at)| {
            // (a quarter turn is exact)
            let (s, c) = if turn == std::f64::consts::FRAC_PI_2 { (1.0, 0.0) } else { turn.sin_cos() };
            let k = (size as f64).exp2();
            b.map(|p| ((c * p.0 - s * p.1 + at.0) * k, (s * p.0 + c * p.1 + at.1) * k))
        })
        .prop_filter("touching", |b| {
            // holes inside the outline, apart from each other
            b.feature() > 1e-3 * b.extent() && b.rings[1..].iter().enumerate().all(|(i, h)| {
                h.iter().all(|p| inside(*p, &b.rings[0])) && b.rings[1..].iter().enumerate().all(|(j, g)| i == j || !h.iter().any(|p| inside(*p, g))) && !crossing(b)
            })
        })
        .boxed()
}

pub fn inside(p: P, ring: &[P]) -> bool {
    let n = ring.len();
    let mut odd = false;
    for i in 0..n {
        let (a, b) = (ring[i], ring[(i + 1) % n]);
        if (a.1 > p.1) != (b.1 > p.1) && p.0 < (b.0 - a.0) * (p.1 - a.1) / (b.1 - a.1) + a.0 {
            odd = !odd;
        }
    }
    odd
}

/// Points inside the body (given as 0 to 1 each way over the box around it), at least gap off its sides and each other.
pub fn spots(b: &Body, at: &[P], gap: f64) -> Vec<P> {
    let ring = &b.rings[0];
    let lo = ring.iter().fold((f64::MAX, f64::MAX), |m, p| (m.0.min(p.0), m.1.min(p.1)));
    let hi = ring.iter().fold((f64::MIN, f64::MIN), |m, p| (m.0.max(p.0), m.1.max(p.1)));
    let sides = b.sides();
    let mut res: Vec<P> = vec![];
    for u in at {
        let p = (lo.0 + u.0 * (hi.0 - lo.0), lo.1 + u.1 * (hi.1 - lo.1));
        if inside(p, ring) && !b.rings[1..].iter().any(|r| inside(p, r)) && sides.iter().all(|(a, z)| seg_dist(p, *a, *z) >= gap) && res.iter().all(|q| dist(p, *q) >= gap) {
            res.push(p);
        }
    }
    res
}

pub fn box_points(most: usize) -> BoxedStrategy<Vec<P>> {
    prop::collection::vec((0.0f64..1.0, 0.0f64..1.0), 1..most).boxed()
}

fn crossing(b: &Body) -> bool {
    let s = b.sides();
    for i in 0..s.len() {
        for j in 0..i {
            let ((a, b), (c, d)) = (s[i], s[j]);
            if a == c || a == d || b == c || b == d {
                continue;
            }
            let o = |a: P, b: P, c: P| cross(sub(b, a), sub(c, a)) > 0.0;
            if o(a, b, c) != o(a, b, d) && o(c, d, a) != o(c, d, b) {
                return true;
            }
        }
    }
    false
}

/// A mesh as nodes and triangles, with the pieces of its boundary.
pub struct Mesh {
    pub nodes: Vec<P>,
    pub tris: Vec<[usize; 3]>,
    /// pieces of the boundary, from node to node
    pub walls: Vec<(usize, usize)>,
}

/// The mesher iterates over hash maps, so that a replayed case is tried often.
pub fn tries() -> usize {
    if std::env::var_os("VERIF_REPLAY").is_some() {
        300
    } else {
        1
    }
}
