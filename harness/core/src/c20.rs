//! C20: every pixel of a rendering, explained by the model drawn.

use crate::canned::{answer_with, Canned};
use crate::draw::*;
use crate::ensure;
use crate::fem;
use crate::pbt::*;
use bugi::spatial::Point;
use bugi::visual::{color, VisOptions, Visualizer};
use image::Rgb;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    dim: usize,
    /// batches of points with their colour; the first has colour 0
    batches: Vec<(usize, Vec<[f64; 3]>)>,
    edges: Vec<(usize, usize)>,
    tris: Vec<(usize, usize, usize)>,
    vals: Option<Vec<f64>>,
    draws: Vec<Draw>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Draw {
    size: Option<u32>,
    show: bool,
    /// 0 default, 1 heat, 2 rainbow, 3 own
    map: u8,
    /// what is set anew before drawing
    edges: Option<Vec<(usize, usize)>>,
    tris: Option<Vec<(usize, usize, usize)>>,
    vals: Option<Vec<f64>>,
}

// ------------------------------------------------------------ generators

fn draws() -> BoxedStrategy<Vec<Draw>> {
    let size = prop_oneof![1 => 1u32..12, 5 => 12u32..70, 2 => 70u32..200, 1 => Just(256u32), 1 => 256u32..500];
    let one = |s: BoxedStrategy<Option<u32>>| (s, prop::bool::weighted(0.7), 0u8..4).prop_map(|(size, show, map)| Draw { size, show, map, edges: None, tris: None, vals: None });
    (one(prop_oneof![8 => size.clone().prop_map(Some), 1 => Just(None)].boxed()), prop::collection::vec(one(size.prop_map(Some).boxed()), 0..2))
        .prop_map(|(a, mut b)| {
            b.insert(0, a);
            b
        })
        .boxed()
}

fn values(n: usize) -> BoxedStrategy<Option<Vec<f64>>> {
    prop_oneof![
        1 => Just(None),
        5 => prop::collection::vec(-10.0f64..10.0, n).prop_map(Some),
        1 => prop::collection::vec((0i32..3).prop_map(f64::from), n).prop_map(Some),
        1 => (-5.0f64..5.0).prop_map(move |x| Some(vec![x; n])),
        1 => prop::collection::vec(1e9f64..3e9, n).prop_map(Some),
        1 => (prop::collection::vec(-1.0f64..1.0, n), -900i32..900).prop_map(|(v, e)| Some(v.iter().map(|x| x * 2f64.powi(e)).collect())),
    ]
    .boxed()
}

/// points anywhere, with edges and triangles between any of them
fn strat_any() -> BoxedStrategy<Case> {
    (1usize..4, prop_oneof![1 => Just(1usize), 1 => Just(2), 6 => 3usize..12])
        .prop_flat_map(|(dim, n)| {
            let cell = || prop_oneof![4 => -1.0f64..1.0, 1 => (-2i32..=2).prop_map(|x| x as f64 / 2.0)];
            (
                Just(dim),
                prop::collection::vec((cell(), cell(), cell()), n),
                prop_oneof![6 => Just((1.0, 0.0)), 2 => (1e-3f64..1e3, -50.0f64..50.0), 1 => (1e-9f64..1e-6, -1.0f64..1.0), 1 => Just((1e280, 0.0)), 1 => Just((1e-280, 0.0)), 1 => Just((1e-14, 1.0)), 1 => Just((0.0, 3.0))],
                (prop_oneof![6 => Just(1.0), 1 => Just(0.0), 1 => Just(0.01)], prop_oneof![6 => Just(1.0), 1 => Just(0.0), 1 => Just(0.01)]),
                prop::collection::vec(0usize..4, 1..4),
                prop::collection::vec((0..n, 0..n), 0..8),
                prop::collection::vec((0..n, 0..n, 0..n), 0..4),
                values(n),
                draws(),
            )
        })
        .prop_map(|(dim, pts, (s, o), (sx, sy), cuts, edges, tris, vals, draws)| {
            let pts: Vec<[f64; 3]> = pts.iter().map(|p| [s * (sx * p.0 + o), s * (sy * p.1 - 0.7 * o), s * (p.2 + 0.3 * o)]).map(|p| if s == 0.0 { [o, -o, 2.0 * o] } else { p }).collect();
            // cut into batches, of equal size or each larger than all before it
            let mut batches: Vec<(usize, Vec<[f64; 3]>)> = vec![];
            let mut rest = &pts[..];
            let mut take = if cuts.len() > 1 && pts.len() % 2 == 0 { 1 } else { (pts.len() + cuts.len() - 1) / cuts.len() };
            let grow = if take == 1 { 3 } else { 1 };
            for k in 0..cuts.len() {
                let n = if k + 1 == cuts.len() { rest.len() } else { take.min(rest.len()) };
                if n == 0 {
                    break;
                }
                batches.push((if k == 0 { 0 } else { cuts[k] }, rest[..n].to_vec()));
                rest = &rest[n..];
                take *= grow;
            }
            Case { dim, batches, edges, tris, vals, draws }
        })
        .boxed()
}

/// the same, with edges, triangles and values replaced or taken away between drawings
fn strat_history() -> BoxedStrategy<Case> {
    strat_any()
        .prop_flat_map(|c| {
            let n: usize = c.batches.iter().map(|b| b.1.len()).sum();
            let step = (
                prop::option::of(prop::collection::vec((0..n, 0..n), 0..6)),
                prop::option::of(prop::collection::vec((0..n, 0..n, 0..n), 0..4)),
                prop_oneof![2 => Just(None), 1 => values(n)],
                (1u32..90, prop::bool::weighted(0.7), 0u8..4),
            );
            (Just(c), prop::collection::vec(step, 1..4))
        })
        .prop_map(|(mut c, steps)| {
            for (edges, tris, vals, (size, show, map)) in steps {
                c.draws.push(Draw { size: Some(size), show, map, edges, tris, vals });
            }
            c
        })
        .boxed()
}

/// meshes with all their edges and triangles
fn strat_mesh() -> BoxedStrategy<Case> {
    strat_mesh_of(prop_oneof![3 => fem::mesh(3, 3, false), 1 => fem::mesh(8, 2, false)].boxed())
}

fn strat_mesh_large() -> BoxedStrategy<Case> {
    strat_mesh_of(prop_oneof![3 => fem::mesh(12, 10, false), 1 => fem::mesh(60, 2, false)].boxed())
}

fn strat_mesh_of(mesh: BoxedStrategy<fem::Mesh>) -> BoxedStrategy<Case> {
    mesh
        .prop_flat_map(|m| {
            let n = m.pts.len();
            (Just(m), values(n), draws(), any::<bool>())
        })
        .prop_map(|(m, vals, draws, both)| {
            let mut edges: Vec<(usize, usize)> = m.edges().into_iter().map(|e| e.0).collect();
            if both {
                edges = m.tris.iter().flat_map(|t| vec![(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).collect();
            }
            Case {
                dim: 2,
                batches: vec![(0, m.pts.iter().map(|p| [p[0], p[1], 0.0]).collect())],
                edges,
                tris: m.tris.iter().map(|t| (t[0], t[1], t[2])).collect(),
                vals,
                draws,
            }
        })
        .boxed()
}

struct Scratch(std::path::PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn scratch() -> Scratch {
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    thread_local! {
        static ID: usize = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    Scratch(std::env::temp_dir().join(format!("bugi-c20-{}-{}.png", std::process::id(), ID.with(|i| *i))))
}

fn check(c: &Case) -> Result<Info, Fail> {
    let point = |p: &[f64; 3]| Point::new(&p[..c.dim]);
    let first: Vec<Point> = c.batches[0].1.iter().map(point).collect();
    let mut pts = c.batches[0].1.clone();
    let mut colors = vec![0; pts.len()];
    let mut vis: Visualizer = first.into();
    for (col, b) in &c.batches[1..] {
        vis.add_points(b.iter().map(point).collect(), *col);
        pts.extend(b);
        colors.extend(vec![*col; b.len()]);
    }
    vis.set_edges(c.edges.clone());
    vis.set_triangles(c.tris.clone());
    if let Some(v) = &c.vals {
        set(&mut vis, v, point(&pts[0]))?;
    }
    let mut now = c.clone();
    let mut tags = vec![];
    let mut rich = false;
    for d in &c.draws {
        if let Some(e) = &d.edges {
            vis.set_edges(e.clone());
            now.edges = e.clone();
        }
        if let Some(t) = &d.tris {
            vis.set_triangles(t.clone());
            now.tris = t.clone();
        }
        if let Some(v) = &d.vals {
            set(&mut vis, v, point(&pts[0]))?;
            now.vals = Some(v.clone());
        }
        let k = drawn(&mut vis, &now, d, &pts, &colors)?;
        tags.push(if k.is_some() { "every pixel explained" } else { "drawn, pixels left to rounding" });
        rich = rich || k.map_or(false, |k| k[1] > 0 && k[2] > 0);
    }
    tags.push(["one dimension", "two dimensions", "three dimensions"][c.dim - 1]);
    ok_tags(rich, tags)
}

fn set(vis: &mut Visualizer, v: &[f64], extra: Point) -> Result<(), Fail> {
    let mut long = v.to_vec();
    long.push(1.0);
    ensure!(refuses(|| vis.set_vals(long)), "more values than nodes were taken");
    vis.set_vals(v.to_vec());
    ensure!(refuses(|| vis.add_points(vec![extra], 1)), "points were added after the values");
    Ok(())
}

fn drawn(vis: &mut Visualizer, c: &Case, d: &Draw, pts: &[[f64; 3]], colors: &[usize]) -> Result<Option<[usize; 4]>, Fail> {
    let file = scratch();
    let mut o = VisOptions::new();
    if let Some(s) = d.size {
        o = o.im_size(s);
    }
    if !d.show {
        o = o.show_mesh(false);
    }
    o = match d.map {
        1 => o.color_map(color::hot_map_boxed()),
        2 => o.color_map(color::rgb_map_boxed()),
        3 => o.color_map(Box::new(own)),
        _ => o,
    };
    let path = file.0.to_str().unwrap();
    // (there may be a file of that name)
    if pts.len() % 2 == 1 {
        std::fs::write(path, vec![b'.'; 200_000]).unwrap();
    }
    if d.size.is_none() && d.show && d.map == 0 {
        vis.draw(path, ());
    } else {
        vis.draw(path, o);
    }
    let img = image::open(&file.0).map_err(|e| format!("the file does not hold an image: {}", e))?.to_rgb8();
    judge(&Picture { dim: c.dim, pts, colors, edges: &c.edges, tris: &c.tris, vals: c.vals.as_deref() }, d.map, d.show, d.size.unwrap_or(256), &img)
}

// ------------------------------------------------------------ deformed bodies

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Deformed {
    mesh: fem::Mesh,
    u: Vec<f64>,
    scale: f64,
    /// shown with von Mises values, displacements, or none
    shown: u8,
    draws: Vec<Draw>,
}

fn strat_deformed() -> BoxedStrategy<Deformed> {
    prop_oneof![3 => fem::mesh(3, 3, false), 1 => fem::mesh(8, 2, false)]
        .prop_flat_map(|m| {
            let n = 2 * m.pts.len();
            (Just(m), prop_oneof![3 => prop::collection::vec(-1.0f64..1.0, n), 1 => prop::collection::vec(prop_oneof![3 => Just(0.0), 1 => -1.0f64..1.0], n)], prop_oneof![1 => Just(0.0), 4 => -1.0f64..1.0], 0u8..3, draws())
        })
        .prop_map(|(mesh, u, scale, shown, draws)| Deformed { mesh, u, scale, shown, draws })
        .boxed()
}

/// the picture of a solved body shows its displaced nodes, all its edges and all its triangles
fn check_deformed(c: &Deformed) -> Result<Info, Fail> {
    let size = c.mesh.pts.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    let scale = c.scale * size;
    let m = fem::Model { mesh: c.mesh.clone(), cond: fem::Cond::Stress(1.0), mat: fem::Mat { e: 1.0, nu: 0.3, rho: 1.0 }, cons: vec![], conc: vec![], line: vec![] };
    answer_with(&c.u);
    let mut elas = m.build();
    let def = elas.calc_displacements::<Canned>();
    let mut vis = def.visualize(scale);
    let vals = match c.shown {
        0 => Some(def.von_mises()),
        1 => Some(def.displacement_norms()),
        _ => None,
    };
    if let Some(v) = &vals {
        vis.set_vals(v.clone());
    }
    let pts: Vec<[f64; 3]> = c.mesh.pts.iter().enumerate().map(|(i, p)| [p[0] + scale * c.u[2 * i], p[1] + scale * c.u[2 * i + 1], 0.0]).collect();
    if let Some(v) = vals.as_ref().filter(|_| c.shown == 1) {
        for (i, x) in v.iter().enumerate() {
            let w = c.u[2 * i].hypot(c.u[2 * i + 1]);
            ensure!((x - w).abs() <= 1e-12 * w, "node {} moves by {}, said to move by {}", i, w, x);
        }
    }
    let now = Case {
        dim: 2,
        batches: vec![],
        edges: c.mesh.edges().into_iter().map(|e| e.0).collect(),
        tris: c.mesh.tris.iter().map(|t| (t[0], t[1], t[2])).collect(),
        vals,
        draws: vec![],
    };
    let colors = vec![0; pts.len()];
    let mut rich = false;
    let mut tags = vec![];
    for d in &c.draws {
        let k = drawn(&mut vis, &now, d, &pts, &colors)?;
        tags.push(if k.is_some() { "every pixel explained" } else { "drawn, pixels left to rounding" });
        rich = rich || k.map_or(false, |k| k[1] > 0 && k[2] > 0);
    }
    ok_tags(rich, tags)
}

pub fn property() -> Property {
    Property {
        id: "C20",
        families: vec![
            Box::new(Family {
                name: "anything",
                rule: "points of one to three dimensions in colour batches, coincident, collinear, huge and tiny ones included, with edges and triangles between any of them, drawn once or twice at 1 to 500 pixels. Non-trivial: pixels of lines and of triangles are visible in one image",
                quick: 30_000,
                thorough: 900_000,
                strategy: strat_any,
                check,
            }),
            Box::new(Family {
                name: "histories",
                rule: "the same, drawn several times with edges, triangles and values replaced or taken away in between. Non-trivial: pixels of lines and of triangles are visible in one image",
                quick: 12_000,
                thorough: 360_000,
                strategy: strat_history,
                check,
            }),
            Box::new(Family {
                name: "deformed",
                rule: "meshes moved by arbitrary displacements (through a solver that answers with prepared numbers), scaled, drawn with their von Mises values, displacements or without values. Non-trivial: pixels of lines and of triangles are visible in one image",
                quick: 12_000,
                thorough: 360_000,
                strategy: strat_deformed,
                check: check_deformed,
            }),
            Box::new(Family {
                name: "meshes",
                rule: "triangle meshes with all their edges, drawn once or twice at 1 to 500 pixels. Non-trivial: pixels of lines and of triangles are visible in one image",
                quick: 12_000,
                thorough: 360_000,
                strategy: strat_mesh,
                check,
            }),
            Box::new(Family {
                name: "meshes-large",
                rule: "the same with up to 240 triangles. Non-trivial: pixels of lines and of triangles are visible in one image",
                quick: 2_000,
                thorough: 60_000,
                strategy: strat_mesh_large,
                check,
            }),
        ],
        assumptions: vec!["models with a point within a millionth of the middle between two pixels are only drawn, not judged", "node values and coordinates are finite, edges and triangles name existing nodes"],
    }
}
