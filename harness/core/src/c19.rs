//! C19: predicates against exact integer arithmetic, point operations against plain vectors.

use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::spatial::predicates::*;
use bugi::spatial::Point;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::convert::{TryFrom, TryInto};

/// integer coordinates and the power of two they are multiplied by
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pts {
    p: Vec<[i64; 3]>,
    exp: i32,
}

impl Pts {
    fn at(&self, i: usize, dim: usize) -> Point {
        let s = 2f64.powi(self.exp);
        let v: Vec<f64> = self.p[i][..dim].iter().map(|x| *x as f64 * s).collect();
        Point::new(&v)
    }
}

fn strat_pts(n: usize) -> BoxedStrategy<Pts> {
    (prop_oneof![2 => Just(4i64), 2 => Just(30), 2 => Just(1000), 1 => Just(100_000)], prop_oneof![3 => Just(0i64), 1 => Just(50), 1 => Just(5000), 1 => Just(1 << 30), 1 => Just(1 << 42)], prop_oneof![4 => -20i32..20, 1 => -150i32..150])
        .prop_flat_map(move |(r, far, exp)| {
            (prop::collection::vec((-r..=r, -r..=r, -r..=r), n), (-far..=far, -far..=far, -far..=far), Just(exp), 0u8..8, any::<prop::sample::Index>(), any::<prop::sample::Index>(), (-3i64..=3, 1i64..=4))
        })
        .prop_map(|(v, o, exp, kind, i, j, (a, b))| {
            let mut p: Vec<[i64; 3]> = v.iter().map(|q| [q.0, q.1, q.2]).collect();
            let n = p.len();
            let (i, j) = (i.index(n), j.index(n));
            match kind {
                // near a combination of the others: nearly flat or nearly on the circle
                0 => {
                    for d in 0..3 {
                        p[n - 1][d] = (p[0][d] * a + p[1][d] * (b - a)) / b;
                    }
                }
                1 => p[i] = p[j],
                2 => {
                    p[i] = p[j];
                    p[i][0] += 1;
                }
                // the reflection in the middle of two others lies on their circle for right angles
                3 => {
                    for d in 0..3 {
                        p[n - 1][d] = p[0][d] + p[1][d] - p[2][d];
                    }
                }
                _ => {}
            }
            for q in p.iter_mut() {
                q[0] += o.0;
                q[1] += o.1;
                q[2] += o.2;
            }
            Pts { p, exp }
        })
        .boxed()
}

fn diff(a: &[i64; 3], b: &[i64; 3]) -> [i128; 3] {
    [(a[0] - b[0]) as i128, (a[1] - b[1]) as i128, (a[2] - b[2]) as i128]
}

fn det3(a: [i128; 3], b: [i128; 3], c: [i128; 3]) -> i128 {
    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}

fn det4(r: [[i128; 4]; 4]) -> i128 {
    let mut s = 0;
    for j in 0..4 {
        let m = |i: usize| -> [i128; 3] {
            let v: Vec<i128> = (0..4).filter(|&k| k != j).map(|k| r[i][k]).collect();
            [v[0], v[1], v[2]]
        };
        let d = r[0][j] * det3(m(1), m(2), m(3));
        s += if j % 2 == 0 { d } else { -d };
    }
    s
}

/// products of the largest entry of every column: the scale rounding errors of the determinant have
fn scale(rows: &[Vec<f64>]) -> f64 {
    (0..rows[0].len()).map(|j| rows.iter().map(|r| r[j].abs()).fold(0.0, f64::max)).product()
}

/// the largest scale of the determinant over the corners its offsets can be taken from
fn offset_scale(p: &[[i64; 3]], row: impl Fn([i128; 3]) -> Vec<f64>) -> f64 {
    (0..p.len()).map(|b| scale(&(0..p.len()).filter(|&i| i != b).map(|i| row(diff(&p[i], &p[b]))).collect::<Vec<_>>())).fold(0.0, f64::max)
}

fn far(exact: i128, scale: f64) -> bool {
    (exact as f64).abs() > 1e-12 * scale
}

fn cyclic(n: usize, odd: bool) -> Vec<Vec<usize>> {
    // even (or odd) orders of the first n points
    let mut res: Vec<Vec<usize>> = vec![];
    fn go(cur: Vec<usize>, n: usize, res: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            res.push(cur);
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                let mut c = cur.clone();
                c.push(i);
                go(c, n, res);
            }
        }
    }
    go(vec![], n, &mut res);
    res.retain(|o| {
        let inv = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).filter(|(i, j)| o[*i] > o[*j]).count();
        (inv % 2 == 1) == odd
    });
    res
}

fn check_orient(c: &Pts) -> Result<Info, Fail> {
    let exact = det3(diff(&c.p[0], &c.p[3]), diff(&c.p[1], &c.p[3]), diff(&c.p[2], &c.p[3]));
    if !far(exact, offset_scale(&c.p[..4], |d| d.iter().map(|x| *x as f64).collect())) {
        // only that it answers
        tetrahedron_dir((c.at(0, 3), c.at(1, 3), c.at(2, 3), c.at(3, 3)));
        return ok_tags(false, vec!["degenerate to rounding"]);
    }
    for odd in [false, true] {
        for o in cyclic(4, odd) {
            let got = tetrahedron_dir((c.at(o[0], 3), c.at(o[1], 3), c.at(o[2], 3), c.at(o[3], 3)));
            let want = if (exact > 0) != odd { Orient::Positive } else { Orient::Negative };
            ensure!(got == want, "orientation {:?} in order {:?}, expected {:?} (determinant {})", got, o, want, exact);
        }
    }
    ok_tags(true, vec![if exact > 0 { "positive" } else { "negative" }])
}

fn sq(d: &[i128; 3], dim: usize) -> i128 {
    d[..dim].iter().map(|x| x * x).sum()
}

fn check_circle(c: &Pts) -> Result<Info, Fail> {
    let flat = |i: usize| [c.p[i][0], c.p[i][1], 0];
    let orient = det3([1, 0, 0], {
        let d = diff(&flat(1), &flat(0));
        [0, d[0], d[1]]
    }, {
        let d = diff(&flat(2), &flat(0));
        [0, d[0], d[1]]
    });
    let r: Vec<[i128; 3]> = (0..3)
        .map(|i| {
            let d = diff(&flat(i), &flat(3));
            [d[0], d[1], sq(&d, 2)]
        })
        .collect();
    let exact = det3(r[0], r[1], r[2]);
    if orient == 0 || !far(exact, offset_scale(&c.p[..4], |d| vec![d[0] as f64, d[1] as f64, sq(&d, 2) as f64])) {
        in_circle(c.at(3, 2), (c.at(0, 2), c.at(1, 2), c.at(2, 2)));
        return ok_tags(false, vec!["degenerate to rounding"]);
    }
    // corners in counterclockwise order
    let want = (exact > 0) == (orient > 0);
    for o in cyclic(3, orient < 0) {
        let got = in_circle(c.at(3, 2), (c.at(o[0], 2), c.at(o[1], 2), c.at(o[2], 2)));
        ensure!(got == want, "point inside the circumcircle: {}, expected {} (corners in order {:?})", got, want, o);
    }
    ok_tags(true, vec![if want { "inside" } else { "outside" }])
}

fn check_sphere(c: &Pts) -> Result<Info, Fail> {
    let orient = det3(diff(&c.p[0], &c.p[3]), diff(&c.p[1], &c.p[3]), diff(&c.p[2], &c.p[3]));
    let mut r = [[0i128; 4]; 4];
    for i in 0..4 {
        let d = diff(&c.p[i], &c.p[4]);
        r[i] = [d[0], d[1], d[2], sq(&d, 3)];
    }
    let exact = det4(r);
    if orient == 0 || !far(exact, offset_scale(&c.p, |d| vec![d[0] as f64, d[1] as f64, d[2] as f64, sq(&d, 3) as f64])) {
        return ok_tags(false, vec!["degenerate to rounding"]);
    }
    let want = (exact > 0) == (orient > 0);
    // corners in positive orientation
    for o in cyclic(4, orient < 0) {
        let t = (c.at(o[0], 3), c.at(o[1], 3), c.at(o[2], 3), c.at(o[3], 3));
        let got = in_sphere(c.at(4, 3), t);
        ensure!(got == want, "point inside the circumsphere: {}, expected {} (corners in order {:?})", got, want, o);
    }
    ok_tags(true, vec![if want { "inside" } else { "outside" }])
}

fn check_tri(c: &Pts) -> Result<Info, Fail> {
    let s = 2f64.powi(c.exp);
    let d = |i: usize, j: usize| [(c.p[i][0] - c.p[j][0]) as i128, (c.p[i][1] - c.p[j][1]) as i128];
    let cross = |a: [i128; 2], b: [i128; 2]| a[0] * b[1] - a[1] * b[0];
    let area = cross(d(1, 0), d(2, 0));
    let corner = [c.at(0, 2), c.at(1, 2), c.at(2, 2)];
    let p = c.at(3, 2);
    let orders = [[0usize, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]];
    let long = [d(0, 1), d(1, 2), d(2, 0)].iter().map(|v| ((v[0] * v[0] + v[1] * v[1]) as f64).sqrt()).fold(0.0, f64::max);
    let dist = (0..3).map(|i| d(3, i)).map(|v| ((v[0] * v[0] + v[1] * v[1]) as f64).sqrt()).fold(0.0, f64::max);
    for o in orders {
        let t = (corner[o[0]], corner[o[1]], corner[o[2]]);
        let centre = circumcenter(t);
        if area == 0 {
            ensure!(centre.is_none(), "circumcentre {:?} of collinear points (order {:?})", centre, o);
            continue;
        }
        let Some(q) = centre else { return Err(format!("no circumcentre of a triangle of twice the area {} (order {:?})", area, o).into()) };
        ensure!(q.dim() == 2, "circumcentre of dimension {}", q.dim());
        let r: Vec<f64> = corner.iter().map(|k| k.dist(q)).collect();
        let reach = c.p[..3].iter().map(|k| (k[0].abs().max(k[1].abs())) as f64).fold(0.0, f64::max);
        // rounding of the offsets (products of coordinates) over the area
        let tol = 1e-14 * s * (reach + long) * (1.0 + long * long / area.abs() as f64).powi(2) + 1e-12 * r[0];
        ensure!((r[0] - r[1]).abs() <= tol && (r[0] - r[2]).abs() <= tol, "circumcentre {:?} at distances {:?} from the corners (tolerance {:e}, order {:?})", q, r, tol, o);
        // membership and coordinates
        let (x, y, z) = bary_coor(p, t);
        let got = [x, y, z];
        let sliver = long * (dist + long) / area.abs() as f64;
        ensure!((x + y + z - 1.0).abs() <= 1e-14 * (1.0 + x.abs() + y.abs() + z.abs()), "coordinates {:?} add up to {}", got, x + y + z);
        for d in 0..2 {
            let back: f64 = (0..3).map(|k| got[k] * corner[o[k]][d]).sum();
            ensure!((back - p[d]).abs() <= 1e-13 * (1.0 + sliver) * (reach + dist + long) * s, "coordinates {:?} give {} for {} (order {:?})", got, back, p[d], o);
        }
        let mut inside = Some(true);
        for k in 0..3 {
            let i = o[k];
            let (a, b) = ((i + 1) % 3, (i + 2) % 3);
            let exact = cross(d(b, a), d(3, a));
            let w = exact as f64 / area as f64;
            ensure!((got[k] - w).abs() <= 1e-13 * (1.0 + sliver), "coordinate {} is {}, expected {} (order {:?})", k, got[k], w, o);
            if w < -1e-12 * (1.0 + sliver) {
                inside = Some(false);
            } else if w.abs() <= 1e-12 * (1.0 + sliver) && inside == Some(true) {
                inside = None;
            }
        }
        if let Some(w) = inside {
            ensure!(in_triangle(p, t) == w, "point in triangle: {}, expected {} (coordinates {:?}, order {:?})", !w, w, got, o);
        }
        for k in 0..3 {
            ensure!(in_triangle(corner[k], t), "corner {} is not in its triangle (order {:?})", k, o);
        }
    }
    ok_tags(area != 0, vec![if area == 0 { "collinear" } else { "proper" }])
}

// ------------------------------------------------------------ points

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ops {
    a: Vec<f64>,
    b: Vec<f64>,
    other: Vec<f64>,
    long: Vec<f64>,
    f: f64,
    ints: (u32, u32),
}

fn strat_ops() -> BoxedStrategy<Ops> {
    (1usize..4)
        .prop_flat_map(|n| {
            let cell = || prop_oneof![3 => -10.0f64..10.0, 1 => Just(0.0), 1 => -1e6f64..1e6, 1 => (-3i32..=3).prop_map(f64::from)];
            (
                prop::collection::vec(cell(), n),
                prop::collection::vec(cell(), n),
                (1usize..4).prop_filter("same", move |m| *m != n).prop_flat_map(move |m| prop::collection::vec(cell(), m)),
                prop::collection::vec(cell(), 4..8),
                cell(),
                any::<(u32, u32)>(),
                prop_oneof![3 => Just(0i32), 1 => -400i32..400],
            )
        })
        .prop_map(|(a, b, other, long, f, ints, e)| {
            let of = |v: Vec<f64>| v.into_iter().map(|x| x * 2f64.powi(e)).collect();
            Ops { a: of(a), b: of(b), other: of(other), long, f, ints }
        })
        .boxed()
}

fn check_ops(c: &Ops) -> Result<Info, Fail> {
    let n = c.a.len();
    let (a, b) = (Point::new(&c.a), Point::new(&c.b));
    let is = |p: Point, v: &[f64], what: &str| -> Result<(), Fail> {
        ensure!(p.dim() == v.len(), "{}: dimension {}, expected {}", what, p.dim(), v.len());
        for i in 0..v.len() {
            ensure!((p[i] - v[i]).abs() <= 1e-14 * v[i].abs(), "{}: coordinate {} is {}, expected {}", what, i, p[i], v[i]);
        }
        ensure!(p.to_vec() == (0..v.len()).map(|i| p[i]).collect::<Vec<_>>(), "{}: as a list {:?}", what, p.to_vec());
        for i in v.len()..4 {
            ensure!(refuses(|| p[i]), "{}: coordinate {} of a point of dimension {}", what, i, v.len());
        }
        // nothing of the unused coordinates leaks
        let norm = vnorm(v);
        ensure!((p.norm() - norm).abs() <= 1e-14 * norm, "{}: norm {}, expected {}", what, p.norm(), norm);
        Ok(())
    };
    let each = |f: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { c.a.iter().zip(&c.b).map(|(x, y)| f(*x, *y)).collect() };
    is(a, &c.a, "point")?;
    is(a + b, &each(&|x, y| x + y), "sum")?;
    is(a - b, &each(&|x, y| x - y), "difference")?;
    is(a * c.f, &each(&|x, _| x * c.f), "multiple")?;
    is(Point::zero(n), &vec![0.0; n], "zero")?;
    let mid = a.mid(b);
    ensure!(mid.dim() == n, "midpoint of dimension {}", mid.dim());
    for i in 0..n {
        ensure!((mid[i] - (c.a[i] / 2.0 + c.b[i] / 2.0)).abs() <= 1e-14 * (c.a[i].abs() + c.b[i].abs()), "midpoint {:?} of {:?} and {:?}", mid, a, b);
    }
    let d = vdist(&c.a, &c.b);
    ensure!((a.dist(b) - d).abs() <= 1e-14 * d && a.dist(b) == b.dist(a), "distance {}, expected {}", a.dist(b), d);
    let (got, want) = (a.dot(b), dot(&c.a, &c.b));
    ensure!((got - want).abs() <= 1e-14 * vnorm(&c.a) * vnorm(&c.b), "dot product {}, expected {}", got, want);
    let norm = vnorm(&c.a);
    ensure!((a.norm() - norm).abs() <= 1e-14 * norm, "norm {}, expected {}", a.norm(), norm);
    if norm > 0.0 {
        let u = a.unit();
        is(u, &c.a.iter().map(|x| x / norm).collect::<Vec<_>>().iter().enumerate().map(|(i, x)| if (u[i] - x).abs() <= 1e-14 { u[i] } else { *x }).collect::<Vec<_>>(), "unit vector")?;
    }
    let mut e = a;
    let k = c.ints.0 as usize % n;
    e[k] = c.f;
    let mut v = c.a.clone();
    v[k] = c.f;
    is(e, &v, "after setting a coordinate")?;
    ensure!(a == Point::new(&c.a) && (a == b) == (c.a == c.b), "equality of {:?} and {:?}", a, b);
    // conversions there and back
    ensure!(Point::try_from(c.a.clone()) == Ok(a), "from a list: {:?}", c.a);
    ensure!(Vec::<f64>::from(a) == c.a, "to a list: {:?}", a);
    ensure!(Point::try_from(c.long.clone()).is_err(), "a point from {} numbers", c.long.len());
    ensure!(Point::try_from(vec![]).is_err(), "a point from no numbers");
    ensure!(refuses(|| Point::new(&c.long)), "a point of dimension {}", c.long.len());
    ensure!(refuses(|| Point::zero(c.long.len())), "a zero point of dimension {}", c.long.len());
    let one: Result<f64, _> = a.try_into();
    let two: Result<(f64, f64), _> = a.try_into();
    let three: Result<(f64, f64, f64), _> = a.try_into();
    match n {
        1 => ensure!(one.ok() == Some(c.a[0]) && two.is_err() && three.is_err() && Point::from(c.a[0]) == a, "conversions of {:?}", a),
        2 => ensure!(one.is_err() && two.ok() == Some((c.a[0], c.a[1])) && three.is_err() && Point::from((c.a[0], c.a[1])) == a, "conversions of {:?}", a),
        _ => ensure!(one.is_err() && two.is_err() && three.ok() == Some((c.a[0], c.a[1], c.a[2])) && Point::from((c.a[0], c.a[1], c.a[2])) == a, "conversions of {:?}", a),
    }
    let p = Point::from(c.ints);
    ensure!(p.dim() == 2 && p[0] == c.ints.0 as f64 && p[1] == c.ints.1 as f64, "{:?} from {:?}", p, c.ints);
    // text: every coordinate to four places
    let text = a.to_string();
    let inner: Vec<f64> = text.trim_start_matches('(').trim_end_matches(')').split(',').filter_map(|s| s.trim().parse().ok()).collect();
    ensure!(inner.len() == n && inner.iter().zip(&c.a).all(|(x, y)| (x - y).abs() <= 0.5001e-4 + 1e-14 * y.abs()), "{:?} written as {}", c.a, text);
    // different dimensions do not mix
    let q = Point::new(&c.other);
    // where they do, what comes out is a point of its dimension
    for (p, q) in [(a, q), (q, a)] {
        if let Ok(m) = attempt(|| p.mid(q)) {
            let v: Vec<f64> = (0..p.dim().min(q.dim())).map(|i| p[i] / 2.0 + q[i] / 2.0).collect();
            let far = vnorm(&c.a) + vnorm(&c.other);
            ensure!(m.dim() == v.len() && (0..v.len()).all(|i| (m[i] - v[i]).abs() <= 1e-14 * far), "the midpoint of {:?} and {:?} is {:?}", p, q, m);
            let w: Vec<f64> = (0..v.len()).map(|i| m[i]).collect();
            ensure!(m == Point::new(&w) && (m.norm() - vnorm(&w)).abs() <= 1e-14 * far, "the midpoint of {:?} and {:?} is {:?}, of the norm {}", p, q, m, m.norm());
        }
    }
    ensure!(refuses(|| a + q) && refuses(|| a - q) && refuses(|| a.dist(q)), "{:?} and {:?} were mixed", a, q);
    ok_tags(n > 1 && norm > 0.0, vec![["one", "two", "three"][n - 1]])
}

pub fn property() -> Property {
    Property {
        id: "C19",
        families: vec![
            Box::new(Family {
                name: "orientation",
                rule: "four points with integer coordinates times a power of two, all orders. Non-trivial: the exact determinant is beyond rounding",
                quick: 480_000,
                thorough: 14_400_000,
                strategy: || strat_pts(4),
                check: check_orient,
            }),
            Box::new(Family {
                name: "circle",
                rule: "four points with integer coordinates times a power of two, all orders of the corners. Non-trivial: the exact determinant is beyond rounding",
                quick: 800_000,
                thorough: 24_000_000,
                strategy: || strat_pts(4),
                check: check_circle,
            }),
            Box::new(Family {
                name: "sphere",
                rule: "five points with integer coordinates times a power of two, all orders of the corners. Non-trivial: the exact determinant is beyond rounding",
                quick: 480_000,
                thorough: 14_400_000,
                strategy: || strat_pts(5),
                check: check_sphere,
            }),
            Box::new(Family {
                name: "triangle",
                rule: "three corners and a point with integer coordinates times a power of two, all orders. Non-trivial: not collinear",
                quick: 800_000,
                thorough: 24_000_000,
                strategy: || strat_pts(4),
                check: check_tri,
            }),
            Box::new(Family {
                name: "points",
                rule: "pairs of points of one to three dimensions and every operation on them. Non-trivial: more than one dimension and not zero",
                quick: 480_000,
                thorough: 14_400_000,
                strategy: strat_ops,
                check: check_ops,
            }),
        ],
        assumptions: vec!["circle and sphere tests are given their corners in counterclockwise order and positive orientation", "answers within rounding of a boundary are not judged"],
    }
}
