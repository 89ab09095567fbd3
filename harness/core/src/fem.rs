//! A reference finite-element method (constant-strain triangles from the textbook formulas, dense
//! matrices) and the meshes, materials, constraints and loads every element property draws from.

use crate::tab::*;
use bugi::element::constraint::Constraint;
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, ElementDescriptor, NodeId};
use bugi::spatial::Point;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub type P2 = [f64; 2];

// ------------------------------------------------------------ model

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Cond {
    Stress(f64),
    Strain(f64),
    Axi,
}

impl Cond {
    pub fn of(&self) -> Condition {
        match *self {
            Cond::Stress(t) => Condition::PlaneStress(t),
            Cond::Strain(t) => Condition::PlaneStrain(t),
            Cond::Axi => Condition::Axisymmetric,
        }
    }
    pub fn plane(&self) -> bool {
        *self != Cond::Axi
    }
    pub fn thickness(&self) -> f64 {
        match *self {
            Cond::Stress(t) | Cond::Strain(t) => t,
            Cond::Axi => 1.0,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct Mat {
    pub e: f64,
    pub nu: f64,
    pub rho: f64,
}

impl Mat {
    pub fn of(&self) -> Material {
        Material { name: "generated", youngs: self.e, poisson: self.nu, density: self.rho }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Con {
    Free,
    X,
    Y,
    XY,
    Angle(f64),
}

impl Con {
    pub fn of(&self) -> Constraint {
        match *self {
            Con::Free => Constraint::Free,
            Con::X => Constraint::XFixed,
            Con::Y => Constraint::YFixed,
            Con::XY => Constraint::XYFixed,
            Con::Angle(a) => Constraint::AngleFixed(a),
        }
    }
    /// orthonormal directions the node may still move in
    pub fn free(&self) -> Vec<P2> {
        match *self {
            Con::Free => vec![[1.0, 0.0], [0.0, 1.0]],
            Con::X => vec![[0.0, 1.0]],
            Con::Y => vec![[1.0, 0.0]],
            Con::XY => vec![],
            Con::Angle(a) => vec![[-a.sin(), a.cos()]],
        }
    }
    /// unit directions it may not move in
    pub fn fixed(&self) -> Vec<P2> {
        match *self {
            Con::Free => vec![],
            Con::X => vec![[1.0, 0.0]],
            Con::Y => vec![[0.0, 1.0]],
            Con::XY => vec![[1.0, 0.0], [0.0, 1.0]],
            Con::Angle(a) => vec![[a.cos(), a.sin()]],
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Mesh {
    pub pts: Vec<P2>,
    pub tris: Vec<[usize; 3]>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Model {
    pub mesh: Mesh,
    pub cond: Cond,
    pub mat: Mat,
    pub cons: Vec<(usize, Con)>,
    pub conc: Vec<(usize, P2)>,
    pub line: Vec<(usize, usize, P2)>,
}

pub fn area(p: &[P2; 3]) -> f64 {
    ((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])) / 2.0
}

/// longest edge squared over twice the area: the factor by which rounding grows
pub fn sliver(p: &[P2; 3]) -> f64 {
    let d = |a: P2, b: P2| (a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2);
    d(p[0], p[1]).max(d(p[1], p[2])).max(d(p[2], p[0])) / (2.0 * area(p).abs())
}

/// the same including how far from the origin the triangle is
pub fn rounding(p: &[P2; 3]) -> f64 {
    let far = p.iter().map(|q| q[0].abs().max(q[1].abs())).fold(0.0, f64::max);
    let d = |a: P2, b: P2| ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2)).sqrt();
    let long = d(p[0], p[1]).max(d(p[1], p[2])).max(d(p[2], p[0]));
    sliver(p) * (1.0 + far / long)
}

impl Mesh {
    pub fn tri(&self, t: usize) -> [P2; 3] {
        let [a, b, c] = self.tris[t];
        [self.pts[a], self.pts[b], self.pts[c]]
    }
    pub fn rounding(&self) -> f64 {
        (0..self.tris.len()).map(|t| rounding(&self.tri(t))).fold(1.0, f64::max)
    }
    /// undirected edges with the triangles that have them
    pub fn edges(&self) -> Vec<((usize, usize), Vec<usize>)> {
        let mut m = std::collections::BTreeMap::new();
        for (t, tri) in self.tris.iter().enumerate() {
            for k in 0..3 {
                let (a, b) = (tri[k], tri[(k + 1) % 3]);
                m.entry((a.min(b), a.max(b))).or_insert_with(Vec::new).push(t);
            }
        }
        m.into_iter().collect()
    }
    pub fn used(&self) -> Vec<bool> {
        let mut u = vec![false; self.pts.len()];
        self.tris.iter().flatten().for_each(|&i| u[i] = true);
        u
    }
}

// ------------------------------------------------------------ reference elements

/// gradients of the three shape functions, from the edge vectors
pub fn grads(p: &[P2; 3]) -> [P2; 3] {
    let d = 2.0 * area(p);
    let g = |i: usize| {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        [(p[j][1] - p[k][1]) / d, (p[k][0] - p[j][0]) / d]
    };
    [g(0), g(1), g(2)]
}

/// stress from strain: [xx yy xy] or [xx yy xy hoop]
pub fn elastic(cond: Cond, m: Mat) -> Tab {
    let (e, v) = (m.e, m.nu);
    let mu = e / (2.0 * (1.0 + v));
    match cond {
        Cond::Stress(_) => {
            let q = e / (1.0 - v * v);
            Tab { r: 3, c: 3, v: vec![q, q * v, 0.0, q * v, q, 0.0, 0.0, 0.0, mu] }
        }
        Cond::Strain(_) => {
            let l = e * v / ((1.0 + v) * (1.0 - 2.0 * v));
            Tab { r: 3, c: 3, v: vec![l + 2.0 * mu, l, 0.0, l, l + 2.0 * mu, 0.0, 0.0, 0.0, mu] }
        }
        Cond::Axi => {
            let l = e * v / ((1.0 + v) * (1.0 - 2.0 * v));
            let d = l + 2.0 * mu;
            Tab { r: 4, c: 4, v: vec![d, l, 0.0, l, l, d, 0.0, l, 0.0, 0.0, mu, 0.0, l, l, 0.0, d] }
        }
    }
}

/// strains at barycentric coordinates `h` from the six displacements
pub fn strain_mat(cond: Cond, p: &[P2; 3], h: [f64; 3]) -> Tab {
    let g = grads(p);
    let rows = if cond.plane() { 3 } else { 4 };
    let mut b = Tab::new(rows, 6);
    let r: f64 = (0..3).map(|i| h[i] * p[i][0]).sum();
    for i in 0..3 {
        b.set(0, 2 * i, g[i][0]);
        b.set(1, 2 * i + 1, g[i][1]);
        b.set(2, 2 * i, g[i][1]);
        b.set(2, 2 * i + 1, g[i][0]);
        if rows == 4 {
            b.set(3, 2 * i, h[i] / r);
        }
    }
    b
}

/// the three interior points the method integrates at, each weighing a third of the area
pub const POINTS: [[f64; 3]; 3] = [[2.0 / 3.0, 1.0 / 6.0, 1.0 / 6.0], [1.0 / 6.0, 2.0 / 3.0, 1.0 / 6.0], [1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0]];

pub fn k_el(cond: Cond, m: Mat, p: &[P2; 3]) -> Tab {
    let c = elastic(cond, m);
    let a = area(p).abs();
    let mut k = Tab::new(6, 6);
    for h in POINTS {
        let b = strain_mat(cond, p, h);
        let r: f64 = (0..3).map(|i| h[i] * p[i][0]).sum();
        let t = if cond.plane() { cond.thickness() } else { r };
        k = k.plus(&b.t().mul(&c.mul(&b)).scale(a * t / 3.0));
    }
    k
}

pub fn m_el(cond: Cond, m: Mat, p: &[P2; 3]) -> Tab {
    let a = area(p).abs();
    let mut k = Tab::new(6, 6);
    for i in 0..3 {
        for j in 0..3 {
            let x = match cond {
                // the consistent mass in closed form
                Cond::Stress(t) | Cond::Strain(t) => m.rho * t * a / 12.0 * if i == j { 2.0 } else { 1.0 },
                Cond::Axi => POINTS.iter().map(|h| m.rho * a / 3.0 * h[i] * h[j] * (0..3).map(|q| h[q] * p[q][0]).sum::<f64>()).sum(),
            };
            k.set(2 * i, 2 * j, x);
            k.set(2 * i + 1, 2 * j + 1, x);
        }
    }
    k
}

// ------------------------------------------------------------ reference assemblage

impl Model {
    pub fn dofs(&self) -> usize {
        2 * self.mesh.pts.len()
    }
    fn assemble(&self, el: fn(Cond, Mat, &[P2; 3]) -> Tab) -> Tab {
        let mut k = Tab::new(self.dofs(), self.dofs());
        for (t, tri) in self.mesh.tris.iter().enumerate() {
            let e = el(self.cond, self.mat, &self.mesh.tri(t));
            for i in 0..6 {
                for j in 0..6 {
                    k.add(2 * tri[i / 2] + i % 2, 2 * tri[j / 2] + j % 2, e.at(i, j));
                }
            }
        }
        k
    }
    pub fn k(&self) -> Tab {
        self.assemble(k_el)
    }
    pub fn m(&self) -> Tab {
        self.assemble(m_el)
    }
    pub fn loads(&self) -> Vec<f64> {
        let mut r = vec![0.0; self.dofs()];
        for &(n, f) in &self.conc {
            r[2 * n] += f[0];
            r[2 * n + 1] += f[1];
        }
        for &(a, b, f) in &self.line {
            let (p, q) = (self.mesh.pts[a], self.mesh.pts[b]);
            let half = ((p[0] - q[0]).powi(2) + (p[1] - q[1]).powi(2)).sqrt() / 2.0;
            for n in [a, b] {
                r[2 * n] += f[0] * half;
                r[2 * n + 1] += f[1] * half;
            }
        }
        r
    }
    /// what each node is constrained to, after combining requests the documented way
    pub fn constraints(&self) -> Vec<Con> {
        let mut c = vec![Con::Free; self.mesh.pts.len()];
        for &(n, x) in &self.cons {
            c[n] = merged(c[n], x);
        }
        c
    }
    /// the columns span the motions the constraints allow
    pub fn basis(&self) -> Tab {
        basis(&self.constraints())
    }
    /// displacements of an independent solution; None where the constraints leave a mechanism
    pub fn solve(&self) -> Option<Solution> {
        let p = self.basis();
        let k = self.k();
        let kr = p.t().mul(&k).mul(&p);
        let kr = kr.plus(&kr.t()).scale(0.5);
        let rr = p.t().mulv(&self.loads());
        if p.c == 0 {
            return Some(Solution { u: vec![0.0; self.dofs()], cond: 1.0, reach: 0.0 });
        }
        let cond = cond(&kr);
        if !(cond < 1e10) {
            return None;
        }
        let x = solve(&kr, &rr)?;
        let reach = vnorm(&self.loads()) / kr.norm() * cond;
        Some(Solution { u: p.mulv(&x), cond, reach })
    }
    pub fn build(&self) -> ElementAssemblage {
        let mut elas = ElementAssemblage::new(self.mat.of(), self.cond.of());
        let ids = self.add_nodes(&mut elas);
        for t in &self.mesh.tris {
            elas.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
        }
        self.add_conditions(&mut elas, &ids);
        elas
    }
    pub fn add_nodes(&self, elas: &mut ElementAssemblage) -> Vec<NodeId> {
        let pts: Vec<(f64, f64)> = self.mesh.pts.iter().map(|p| (p[0], p[1])).collect();
        elas.add_nodes(&pts)
    }
    pub fn add_conditions(&self, elas: &mut ElementAssemblage, ids: &[NodeId]) {
        for &(n, c) in &self.cons {
            elas.add_constraint(ids[n], c.of());
        }
        for &(n, f) in &self.conc {
            elas.add_conc_force(ids[n], Point::new(&f));
        }
        for &(a, b, f) in &self.line {
            elas.add_dist_line_force(ids[a], ids[b], Point::new(&f));
        }
    }
}

pub struct Solution {
    pub u: Vec<f64>,
    pub cond: f64,
    /// no displacement under loads of this size is larger
    pub reach: f64,
}

pub fn basis(cons: &[Con]) -> Tab {
    let cols: Vec<(usize, P2)> = cons.iter().enumerate().flat_map(|(n, c)| c.free().into_iter().map(move |d| (n, d))).collect();
    let mut p = Tab::new(2 * cons.len(), cols.len());
    for (j, (n, d)) in cols.iter().enumerate() {
        p.set(2 * n, j, d[0]);
        p.set(2 * n + 1, j, d[1]);
    }
    p
}

/// one more request on a node: axis directions add up, an angle yields to any axis, two angles
/// give their mean
pub fn merged(a: Con, b: Con) -> Con {
    match (a, b) {
        (Con::Free, x) | (x, Con::Free) => x,
        (Con::Angle(x), Con::Angle(y)) => Con::Angle((x + y) / 2.0),
        (Con::Angle(_), x) | (x, Con::Angle(_)) => x,
        (Con::X, Con::X) => Con::X,
        (Con::Y, Con::Y) => Con::Y,
        _ => Con::XY,
    }
}

/// a node's displacement out of a result that only gives displaced positions: the scale is large
/// enough for the position itself to vanish in the sum
pub fn displacements(def: &bugi::element::Deformation, pts: &[P2]) -> Vec<f64> {
    let far = pts.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    let norm = def.displacement_norms().iter().cloned().fold(0.0, f64::max);
    let scale = if norm > 0.0 && norm.is_finite() { 1e3 * (far + 1e-300) / norm } else { 1.0 };
    let scale = if scale.is_finite() && scale > 0.0 { scale } else { 1.0 };
    def.displaced_nodes(scale).iter().zip(pts).flat_map(|(q, p)| vec![(q[0] - p[0]) / scale, (q[1] - p[1]) / scale]).collect()
}

// ------------------------------------------------------------ generators

/// materials of every kind, stiffness and density usually ordinary but of any size now and then
pub fn material() -> BoxedStrategy<Mat> {
    (ordinary_material(), exponent(100), exponent(60))
        .prop_map(|(m, e, d)| Mat { e: m.e * pow2(e), nu: m.nu, rho: m.rho * pow2(d) })
        .boxed()
}

fn ordinary_material() -> BoxedStrategy<Mat> {
    prop_oneof![
        3 => (0.5f64..5.0, 0.0f64..0.45, 0.5f64..3.0).prop_map(|(e, nu, rho)| Mat { e, nu, rho }),
        1 => (1e9f64..3e11, 0.05f64..0.48, 1e3f64..9e3).prop_map(|(e, nu, rho)| Mat { e, nu, rho }),
        1 => (0.5f64..5.0, -0.5f64..0.0, 0.5f64..3.0).prop_map(|(e, nu, rho)| Mat { e, nu, rho }),
        1 => Just(Mat { e: 1.0, nu: 0.0, rho: 1.0 }),
        // next to incompressible, and the opposite
        1 => (0.5f64..5.0, prop_oneof![0.45f64..0.499, -0.95f64..-0.5], 0.5f64..3.0).prop_map(|(e, nu, rho)| Mat { e, nu, rho }),
    ]
    .boxed()
}

pub fn plane() -> BoxedStrategy<Cond> {
    let t = || (prop_oneof![2 => 0.05f64..2.0, 1 => Just(1.0)], exponent(60)).prop_map(|(t, e)| t * pow2(e));
    prop_oneof![t().prop_map(Cond::Stress), t().prop_map(Cond::Strain)].boxed()
}

pub fn condition() -> BoxedStrategy<Cond> {
    prop_oneof![3 => plane(), 1 => Just(Cond::Axi)].boxed()
}

/// where a body ends up: turned, stretched, scaled and moved; axisymmetric ones stay off the axis
#[derive(Debug, Clone, Copy)]
pub struct Place {
    pub turn: f64,
    pub stretch: f64,
    pub size: f64,
    pub shift: P2,
}

pub fn place() -> BoxedStrategy<Place> {
    (
        prop_oneof![1 => Just(0.0), 3 => 0.0f64..6.28],
        prop_oneof![3 => Just(1.0), 2 => 0.2f64..5.0, 1 => 0.02f64..50.0],
        prop_oneof![8 => Just(1.0), 2 => 0.01f64..100.0, 1 => (-40i32..40).prop_map(pow2)],
        prop_oneof![1 => Just([0.0, 0.0]), 3 => (-3.0f64..3.0, -3.0f64..3.0).prop_map(|(x, y)| [x, y]), 1 => (-100.0f64..100.0, -100.0f64..100.0).prop_map(|(x, y)| [x, y])],
    )
        .prop_map(|(turn, stretch, size, shift)| Place { turn, stretch, size, shift })
        .boxed()
}

pub fn placed(pts: &mut [P2], p: Place, axi: bool) {
    let (s, c) = p.turn.sin_cos();
    for q in pts.iter_mut() {
        let (x, y) = (q[0] * p.stretch, q[1]);
        *q = [p.size * (c * x - s * y + p.shift[0]), p.size * (s * x + c * y + p.shift[1])];
    }
    if axi {
        let lo = pts.iter().map(|q| q[0]).fold(f64::INFINITY, f64::min);
        let hi = pts.iter().map(|q| q[0]).fold(f64::NEG_INFINITY, f64::max);
        // keep the shift as a distance from the axis; unshifted bodies touch it
        let dist = if p.shift[0] == 0.0 { 0.0 } else { 0.1 * (hi - lo) + p.size * p.shift[0].abs() };
        pts.iter_mut().for_each(|q| q[0] += dist - lo);
    }
}

/// A grid of jittered nodes cut into triangles by random diagonals, with random numbering, element
/// order and node order within elements; some cells may be missing as long as the rest hangs together.
pub fn mesh(max_x: usize, max_y: usize, axi: bool) -> BoxedStrategy<Mesh> {
    let most = (2 * max_x * max_y).max(3);
    prop_oneof![9 => grid(max_x, max_y, axi), 1 => fan(most.min(24), axi)].boxed()
}

/// triangles around one node, all the way or not
pub fn fan(most: usize, axi: bool) -> BoxedStrategy<Mesh> {
    (3..=most, any::<bool>())
        .prop_flat_map(move |(n, open)| {
            (
                Just((n, open)),
                prop::collection::vec((-0.25f64..0.25, 0.6f64..1.4), n + 1),
                Just((0..n + 2).collect::<Vec<_>>()).prop_shuffle(),
                Just((0..n).collect::<Vec<_>>()).prop_shuffle(),
                prop::collection::vec(0usize..6, n),
                place(),
            )
        })
        .prop_map(move |((n, open), rim, number, order, turn, pl)| {
            let step = std::f64::consts::TAU / if open { n as f64 + 1.5 } else { n as f64 };
            let outer = if open { n + 1 } else { n };
            let used: Vec<usize> = number.into_iter().filter(|k| *k <= outer).collect();
            let mut pts = vec![[0.0, 0.0]; outer + 1];
            for k in 0..outer {
                let a = step * (k as f64 + rim[k].0);
                pts[used[k + 1]] = [rim[k].1 * a.cos(), rim[k].1 * a.sin()];
            }
            let tris = order
                .iter()
                .map(|&k| {
                    let t = [used[0], used[k + 1], used[(k + 1) % outer + 1]];
                    let o = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]][turn[k]];
                    [t[o[0]], t[o[1]], t[o[2]]]
                })
                .collect();
            placed(&mut pts, pl, axi);
            Mesh { pts, tris }
        })
        .boxed()
}

fn grid(max_x: usize, max_y: usize, axi: bool) -> BoxedStrategy<Mesh> {
    (1..=max_x, 1..=max_y)
        .prop_flat_map(move |(nx, ny)| {
            let n = (nx + 1) * (ny + 1);
            let cells = nx * ny;
            (
                Just((nx, ny)),
                prop::collection::vec((-0.3f64..0.3, -0.3f64..0.3), n),
                prop_oneof![1 => Just(0.0), 4 => Just(1.0)],
                prop::collection::vec(any::<bool>(), cells),
                prop_oneof![3 => Just(vec![true; cells]), 1 => prop::collection::vec(prop::bool::weighted(0.8), cells)],
                prop::collection::vec(0u8..6, 2 * cells),
                (Just((0..n).collect::<Vec<_>>()).prop_shuffle(), Just((0..2 * cells).collect::<Vec<_>>()).prop_shuffle()),
                (place(), any::<bool>()),
            )
        })
        .prop_map(move |((nx, ny), jit, jscale, diag, keep, turn, (number, order), (pl, plain))| {
            let at = |i: usize, j: usize| j * (nx + 1) + i;
            let mut pts: Vec<P2> = vec![[0.0, 0.0]; jit.len()];
            for j in 0..=ny {
                for i in 0..=nx {
                    let q = jit[at(i, j)];
                    pts[at(i, j)] = [i as f64 + jscale * q.0, j as f64 + jscale * q.1];
                }
            }
            // the kept cells connected (through edges) to the first kept one
            let first = keep.iter().position(|k| *k);
            let mut inside = vec![false; nx * ny];
            let mut todo: Vec<usize> = vec![first.unwrap_or(0)];
            inside[todo[0]] = true;
            while let Some(c) = todo.pop() {
                let (i, j) = (c % nx, c / nx);
                let mut go = |ok: bool, d: usize| {
                    if ok && keep[d] && !inside[d] {
                        inside[d] = true;
                        todo.push(d);
                    }
                };
                go(i > 0, c.wrapping_sub(1));
                go(i + 1 < nx, c + 1);
                go(j > 0, c.wrapping_sub(nx));
                go(j + 1 < ny, c + nx);
            }
            let mut tris = vec![];
            for c in (0..nx * ny).filter(|&c| inside[c]) {
                let (i, j) = (c % nx, c / nx);
                let (a, b, d, e) = (at(i, j), at(i + 1, j), at(i, j + 1), at(i + 1, j + 1));
                // cut the cell along the diagonal that keeps both halves proper
                let ok = |t: [usize; 3]| area(&[pts[t[0]], pts[t[1]], pts[t[2]]]) > 0.05;
                let one = [[a, b, e], [a, e, d]];
                let two = [[a, b, d], [b, e, d]];
                let cut = if diag[c] && one.iter().all(|t| ok(*t)) || !two.iter().all(|t| ok(*t)) { one } else { two };
                for (h, t) in cut.iter().enumerate() {
                    let t = if plain {
                        *t
                    } else {
                        match turn[2 * c + h] {
                            0 => *t,
                            1 => [t[1], t[2], t[0]],
                            2 => [t[2], t[0], t[1]],
                            3 => [t[1], t[0], t[2]],
                            4 => [t[0], t[2], t[1]],
                            _ => [t[2], t[1], t[0]],
                        }
                    };
                    tris.push((order[2 * c + h], t));
                }
            }
            tris.sort();
            let mut tris: Vec<[usize; 3]> = tris.into_iter().map(|x| x.1).collect();
            // drop unused nodes, then renumber
            let mut used = vec![false; pts.len()];
            tris.iter().flatten().for_each(|&i| used[i] = true);
            let mut rank: Vec<usize> = (0..pts.len()).filter(|&i| used[i]).collect();
            rank.sort_by_key(|&i| if plain { i } else { number[i] });
            let mut new = vec![0; pts.len()];
            rank.iter().enumerate().for_each(|(k, &i)| new[i] = k);
            let mut out: Vec<P2> = rank.iter().map(|&i| pts[i]).collect();
            tris.iter_mut().flatten().for_each(|i| *i = new[*i]);
            placed(&mut out, pl, axi);
            Mesh { pts: out, tris }
        })
        .boxed()
}

fn con() -> BoxedStrategy<Con> {
    prop_oneof![Just(Con::X), Just(Con::Y), Just(Con::XY), angle().prop_map(Con::Angle)].boxed()
}

pub fn angle() -> BoxedStrategy<f64> {
    prop_oneof![4 => -7.0f64..7.0, 1 => (-1.0f64..1.0, -12i32..0).prop_map(|(x, e)| x * 10f64.powi(e)), 1 => Just(0.0), 1 => Just(std::f64::consts::FRAC_PI_2), 1 => Just(-std::f64::consts::FRAC_PI_4)].boxed()
}

/// enough constraints to hold the body in almost every case, plus extra ones, several on a node at times
pub fn constraints(mesh: &Mesh) -> BoxedStrategy<Vec<(usize, Con)>> {
    let n = mesh.pts.len();
    let pts = mesh.pts.clone();
    let some = ((0..n, 0..n - 1), 0u8..4, prop::collection::vec((0..n, con()), 0..4), angle(), 0.0f64..1.0)
        .prop_map(move |((a, b), kind, extra, ang, w)| {
            let b = if b >= a { b + 1 } else { b };
            let along = (pts[b][1] - pts[a][1]).atan2(pts[b][0] - pts[a][0]);
            let mut v = match kind {
                0 => vec![(a, Con::XY), (b, Con::XY)],
                // a pin and a roller that resists turning about it
                1 => vec![(a, Con::XY), (b, Con::Angle(along + std::f64::consts::FRAC_PI_2 + (w - 0.5)))],
                2 => vec![(a, Con::X), (b, if (pts[b][1] - pts[a][1]).abs() > (pts[b][0] - pts[a][0]).abs() { Con::X } else { Con::Y }), (a, Con::Y)],
                _ => vec![(a, Con::Angle(ang)), (a, Con::XY), (b, Con::XY)],
            };
            let mut e = extra.clone();
            if w < 0.3 {
                e.extend(v.drain(..1));
                v.extend(e);
            } else {
                v.extend(e);
            }
            v
        })
        .boxed();
    // now and then every node is held
    prop_oneof![60 => some, 1 => Just((0..n).map(|i| (i, Con::XY)).collect::<Vec<_>>())].boxed()
}

pub fn force() -> BoxedStrategy<P2> {
    prop_oneof![4 => (-5.0f64..5.0, -5.0f64..5.0).prop_map(|(x, y)| [x, y]), 1 => (-5.0f64..5.0).prop_map(|x| [x, 0.0]), 1 => (-5.0f64..5.0).prop_map(|x| [0.0, x])].boxed()
}

/// at most one force a node and one load an edge, in random order, edges named in either direction
pub fn loads(mesh: &Mesh, max_conc: usize, max_line: usize) -> BoxedStrategy<(Vec<(usize, P2)>, Vec<(usize, usize, P2)>)> {
    let n = mesh.pts.len();
    let edges: Vec<(usize, usize)> = mesh.edges().into_iter().map(|e| e.0).collect();
    let m = edges.len();
    // all of one size, which may be any
    (prop::collection::vec((0..n, force()), 0..=max_conc), prop::collection::vec((0..m, force(), any::<bool>()), 0..=max_line), exponent(100))
        .prop_map(move |(mut c, mut l, e)| {
            c.iter_mut().for_each(|x| x.1.iter_mut().for_each(|f| *f *= pow2(e)));
            l.iter_mut().for_each(|x| x.1.iter_mut().for_each(|f| *f *= pow2(e)));
            let mut seen = vec![false; n];
            c.retain(|x| !std::mem::replace(&mut seen[x.0], true));
            let mut seen = vec![false; m];
            let mut line = vec![];
            for (e, f, swap) in l {
                if !std::mem::replace(&mut seen[e], true) {
                    let (a, b) = edges[e];
                    line.push(if swap { (b, a, f) } else { (a, b, f) });
                }
            }
            (c, line)
        })
        .boxed()
}

pub fn model(max_x: usize, max_y: usize, cond: BoxedStrategy<Cond>) -> BoxedStrategy<Model> {
    (cond, material())
        .prop_flat_map(move |(cond, mat)| (Just(cond), Just(mat), mesh(max_x, max_y, !cond.plane())))
        .prop_flat_map(|(cond, mat, mesh)| (Just((cond, mat)), constraints(&mesh), loads(&mesh, 4, 4), Just(mesh)))
        .prop_map(|((cond, mat), cons, (conc, line), mesh)| Model { mesh, cond, mat, cons, conc, line })
        .boxed()
}

impl Model {
    /// with another body of the same material beside it
    pub fn and(mut self, o: &Model) -> Model {
        let n = self.mesh.pts.len();
        self.mesh.pts.extend(&o.mesh.pts);
        self.mesh.tris.extend(o.mesh.tris.iter().map(|t| [t[0] + n, t[1] + n, t[2] + n]));
        self.cons.extend(o.cons.iter().map(|x| (x.0 + n, x.1)));
        self.conc.extend(o.conc.iter().map(|x| (x.0 + n, x.1)));
        self.line.extend(o.line.iter().map(|x| (x.0 + n, x.1 + n, x.2)));
        self
    }
    /// the same with node i called `to[i]`
    pub fn renumbered(&self, to: &[usize]) -> Model {
        let mut r = self.clone();
        self.mesh.pts.iter().enumerate().for_each(|(i, p)| r.mesh.pts[to[i]] = *p);
        r.mesh.tris.iter_mut().flatten().for_each(|i| *i = to[*i]);
        r.cons.iter_mut().for_each(|x| x.0 = to[x.0]);
        r.conc.iter_mut().for_each(|x| x.0 = to[x.0]);
        r.line.iter_mut().for_each(|x| { x.0 = to[x.0]; x.1 = to[x.1] });
        r
    }
}

/// now and then with elements that lie on top of others: the same three nodes, in any order
pub fn layered(m: BoxedStrategy<Model>) -> BoxedStrategy<Model> {
    (m, layers())
        .prop_map(|(mut m, more)| {
            lay(&mut m.mesh, &more);
            m
        })
        .boxed()
}

pub fn layered_mesh(m: BoxedStrategy<Mesh>) -> BoxedStrategy<Mesh> {
    (m, layers())
        .prop_map(|(mut m, more)| {
            lay(&mut m, &more);
            m
        })
        .boxed()
}

type Layers = Vec<(prop::sample::Index, usize, bool)>;

fn layers() -> BoxedStrategy<Layers> {
    prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec((any::<prop::sample::Index>(), 0usize..6, any::<bool>()), 1..4)].boxed()
}

fn lay(m: &mut Mesh, more: &Layers) {
    for (i, turn, next) in more {
        let i = i.index(m.tris.len());
        let [a, b, c] = m.tris[i];
        let t = [[a, b, c], [b, c, a], [c, a, b], [c, b, a], [b, a, c], [a, c, b]][*turn];
        if *next {
            m.tris.insert(i + 1, t);
        } else {
            m.tris.push(t);
        }
    }
}

/// two or three separate bodies and nodes that are held and belong to none, numbered at random
pub fn apart(max_x: usize, max_y: usize) -> BoxedStrategy<Model> {
    (condition(), 2usize..4)
        .prop_flat_map(move |(cond, n)| (prop::collection::vec(model(max_x, max_y, Just(cond).boxed()), n), prop::collection::vec((0.5f64..5.0, -5.0f64..5.0), 0..3)))
        .prop_map(|(v, spare)| {
            let mut all = v[0].clone();
            v[1..].iter().for_each(|m| all = all.clone().and(m));
            for p in spare {
                all.cons.push((all.mesh.pts.len(), Con::XY));
                all.mesh.pts.push([p.0, p.1]);
            }
            all
        })
        .prop_flat_map(|m| {
            let n = m.mesh.pts.len();
            (Just(m), Just((0..n).collect::<Vec<_>>()).prop_shuffle())
        })
        .prop_map(|(m, to)| m.renumbered(&to))
        .boxed()
}

/// a body that is solved while constraints and loads are still added, and then a second one beside it
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct History {
    pub a: Model,
    pub b: Model,
    /// when each constraint or load is added, and which of them are followed by a solution
    pub keys: Vec<u32>,
    pub stops: Vec<bool>,
}

pub fn history(max_x: usize, max_y: usize) -> BoxedStrategy<History> {
    condition()
        .prop_flat_map(move |cond| (model(max_x, max_y, Just(cond).boxed()), model(max_x, 1, Just(cond).boxed()), prop::collection::vec(any::<u32>(), 16), prop::collection::vec(prop::bool::weighted(0.3), 16)))
        .prop_map(|(a, mut b, keys, stops)| {
            b.mat = a.mat;
            History { a, b, keys, stops }
        })
        .boxed()
}

impl History {
    /// runs `look` with what has been added so far, at each stop and after each body
    pub fn replay(&self, mut look: impl FnMut(&mut ElementAssemblage, &Model, usize) -> Result<(), crate::pbt::Fail>) -> Result<(), crate::pbt::Fail> {
        let mut elas = ElementAssemblage::new(self.a.mat.of(), self.a.cond.of());
        let mut so_far = Model { mesh: Mesh { pts: vec![], tris: vec![] }, cond: self.a.cond, mat: self.a.mat, cons: vec![], conc: vec![], line: vec![] };
        let mut stop = 0;
        for body in [&self.a, &self.b] {
            let n = so_far.mesh.pts.len();
            let bare = Model { cons: vec![], conc: vec![], line: vec![], ..body.clone() };
            let ids = body.add_nodes(&mut elas);
            for t in &body.mesh.tris {
                elas.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
            }
            so_far = so_far.and(&bare);
            let mut todo: Vec<(u32, u8, usize)> = vec![];
            let mut k = self.keys.iter().cloned().cycle();
            (0..body.cons.len()).for_each(|i| todo.push((k.next().unwrap() / 2, 0, i)));
            (0..body.conc.len()).for_each(|i| todo.push((k.next().unwrap(), 1, i)));
            (0..body.line.len()).for_each(|i| todo.push((k.next().unwrap(), 2, i)));
            todo.sort();
            let last = todo.len().max(1) - 1;
            if todo.is_empty() {
                look(&mut elas, &so_far, stop)?;
            }
            for (at, (_, kind, i)) in todo.into_iter().enumerate() {
                match kind {
                    0 => {
                        let (m, c) = body.cons[i];
                        elas.add_constraint(ids[m], c.of());
                        so_far.cons.push((m + n, c));
                    }
                    1 => {
                        let (m, f) = body.conc[i];
                        elas.add_conc_force(ids[m], Point::new(&f));
                        so_far.conc.push((m + n, f));
                    }
                    _ => {
                        let (p, q, f) = body.line[i];
                        elas.add_dist_line_force(ids[p], ids[q], Point::new(&f));
                        so_far.line.push((p + n, q + n, f));
                    }
                }
                if at == last || self.stops[stop % self.stops.len()] {
                    look(&mut elas, &so_far, stop)?;
                }
                stop += 1;
            }
        }
        Ok(())
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Patch {
    pub model: Model,
    /// stress xx, yy, xy
    pub stress: [f64; 3],
    pub a: usize,
    pub b: usize,
    pub lean: f64,
}

/// bodies whose whole boundary carries the traction of a uniform stress
pub fn strat_patch() -> BoxedStrategy<Patch> {
    (plane(), material(), mesh(3, 3, false), (-5.0f64..5.0, -5.0f64..5.0, -5.0f64..5.0), -0.6f64..0.6)
        .prop_flat_map(|(cond, mat, mesh, s, lean)| {
            let n = mesh.pts.len();
            (Just((cond, mat, mesh, [s.0, s.1, s.2], lean)), 0..n, 0..n - 1)
        })
        .prop_map(|((cond, mat, mesh, stress, lean), a, b)| {
            let b = if b >= a { b + 1 } else { b };
            let (p, q) = (mesh.pts[a], mesh.pts[b]);
            let along = (q[1] - p[1]).atan2(q[0] - p[0]);
            // one node pinned, another kept from turning about it
            let cons = vec![(a, Con::XY), (b, Con::Angle(along + std::f64::consts::FRAC_PI_2 + lean))];
            let t = cond.thickness();
            let mut line = vec![];
            for ((i, j), tris) in mesh.edges() {
                if tris.len() != 1 {
                    continue;
                }
                let third = mesh.tris[tris[0]].iter().cloned().find(|k| *k != i && *k != j).unwrap();
                let (pi, pj, pk) = (mesh.pts[i], mesh.pts[j], mesh.pts[third]);
                let e = [pj[0] - pi[0], pj[1] - pi[1]];
                let l = e[0].hypot(e[1]);
                let mut n = [e[1] / l, -e[0] / l];
                if n[0] * (pk[0] - pi[0]) + n[1] * (pk[1] - pi[1]) > 0.0 {
                    n = [-n[0], -n[1]];
                }
                line.push((i, j, [t * (stress[0] * n[0] + stress[2] * n[1]), t * (stress[2] * n[0] + stress[1] * n[1])]));
            }
            Patch { model: Model { mesh, cond, mat, cons, conc: vec![], line }, stress, a, b, lean }
        })
        .boxed()
}
