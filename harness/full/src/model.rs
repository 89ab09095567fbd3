//! Plain models: generation, building them through the public interface, comparison, and the text of
//! mesh files written in the many ways the format allows.

use crate::ensure;
use crate::pbt::*;
use bugi::element::constraint::Constraint;
use bugi::element::material::{Material, AL6061, TEST};
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, ElementDescriptor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Con {
    Free,
    X,
    Y,
    XY,
    Angle(f64),
}

impl Con {
    pub fn get(self) -> Constraint {
        match self {
            Con::Free => Constraint::Free,
            Con::X => Constraint::XFixed,
            Con::Y => Constraint::YFixed,
            Con::XY => Constraint::XYFixed,
            Con::Angle(a) => Constraint::AngleFixed(a),
        }
    }
    pub fn is(self, c: Constraint) -> bool {
        match (self, c) {
            (Con::Free, Constraint::Free) | (Con::X, Constraint::XFixed) | (Con::Y, Constraint::YFixed) | (Con::XY, Constraint::XYFixed) => true,
            (Con::Angle(a), Constraint::AngleFixed(b)) => a.value_bits() == b.value_bits(),
            _ => false,
        }
    }
}

/// The bits of a number, with the two zeros taken as one: nothing in the formats tells them apart.
pub trait ValueBits {
    fn value_bits(self) -> u64;
}

impl ValueBits for f64 {
    fn value_bits(self) -> u64 {
        (self + 0.0).to_bits()
    }
}

/// a constraint as text, equal for constraints that are equal
pub fn con_value(c: Constraint) -> String {
    match c {
        Constraint::AngleFixed(a) => format!("{:?}", Constraint::AngleFixed(a + 0.0)),
        c => format!("{:?}", c),
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Cond {
    Strain(f64),
    Stress(f64),
    Axi,
}

impl Cond {
    pub fn get(self) -> Condition {
        match self {
            Cond::Strain(t) => Condition::PlaneStrain(t),
            Cond::Stress(t) => Condition::PlaneStress(t),
            Cond::Axi => Condition::Axisymmetric,
        }
    }
    pub fn is(self, c: Condition) -> bool {
        match (self, c) {
            (Cond::Strain(a), Condition::PlaneStrain(b)) | (Cond::Stress(a), Condition::PlaneStress(b)) => a.value_bits() == b.value_bits(),
            (Cond::Axi, Condition::Axisymmetric) => true,
            _ => false,
        }
    }
}

pub type V = (f64, f64);

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Model {
    pub test: bool,
    pub cond: Cond,
    pub nodes: Vec<V>,
    pub elems: Vec<[usize; 3]>,
    pub cons: Vec<(usize, Con)>,
    pub forces: Vec<(usize, V)>,
    pub dist: Vec<(usize, usize, V)>,
}

impl Model {
    pub fn build(&self) -> ElementAssemblage {
        let mut e = ElementAssemblage::new(if self.test { TEST } else { AL6061 }, self.cond.get());
        let ids = e.add_nodes(&self.nodes);
        for t in &self.elems {
            e.add_element(ElementDescriptor::new(t.map(|i| ids[i])));
        }
        for (i, c) in &self.cons {
            e.add_constraint(ids[*i], c.get());
        }
        for (i, f) in &self.forces {
            e.add_conc_force(ids[*i], (*f).into());
        }
        for (i, j, f) in &self.dist {
            e.add_dist_line_force(ids[*i], ids[*j], (*f).into());
        }
        e
    }

    /// what each node is held by, all lines of the model taken together
    pub fn held(&self) -> Vec<Con> {
        let mut res = vec![Con::Free; self.nodes.len()];
        for (i, c) in &self.cons {
            res[*i] = match (res[*i], *c) {
                (Con::Free, c) => c,
                (r, Con::Free) => r,
                (r, c) if r == c => r,
                _ => Con::XY,
            };
        }
        res
    }

    pub fn same(&self, e: &ElementAssemblage) -> Result<(), Fail> {
        let m = e.material();
        ensure!(is_material(&m, self.test), "material {:?}", m);
        ensure!(self.cond.is(e.condition()), "condition {:?} for {:?}", e.condition(), self.cond);
        let nodes = e.nodes();
        ensure!(nodes.len() == self.nodes.len() && e.node_count() == nodes.len(), "{} nodes for {}", nodes.len(), self.nodes.len());
        for (i, (a, b)) in nodes.iter().zip(&self.nodes).enumerate() {
            ensure!(a.dim() == 2 && a[0].value_bits() == b.0.value_bits() && a[1].value_bits() == b.1.value_bits(), "node {} is {:?} for {:?}", i, a, b);
        }
        let elems: Vec<[usize; 3]> = e.element_descriptors().into_iter().map(|d| d.into_parts().map(|n| n.into_idx())).collect();
        ensure!(elems.len() == self.elems.len(), "{} elements for {}", elems.len(), self.elems.len());
        for (i, (a, b)) in elems.iter().zip(&self.elems).enumerate() {
            ensure!(a == b, "element {} is {:?} for {:?}", i, a, b);
        }
        let cons = e.constraints();
        ensure!(cons.len() == self.nodes.len(), "{} constraints", cons.len());
        for ((i, (n, c)), held) in cons.iter().enumerate().zip(self.held()) {
            ensure!(n.into_idx() == i && held.is(*c), "constraint of node {} is {:?} for {:?}", i, c, held);
        }
        let bits = |f: V| (f.0.value_bits(), f.1.value_bits());
        let mut a: Vec<_> = e.conc_forces().iter().map(|(n, f)| (n.into_idx(), bits((f[0], f[1])))).collect();
        let mut b: Vec<_> = self.forces.iter().map(|(n, f)| (*n, bits(*f))).collect();
        a.sort();
        b.sort();
        let differ = |x: usize, y: usize, at: Option<usize>| format!("{} for {}, different from the {:?}th on", x, y, at);
        ensure!(a == b, "forces: {}", differ(a.len(), b.len(), a.iter().zip(&b).position(|(x, y)| x != y)));
        let mut a: Vec<_> = e.dist_forces().iter().map(|((n, m), f)| (n.into_idx(), m.into_idx(), bits((f[0], f[1])))).collect();
        let mut b: Vec<_> = self.dist.iter().map(|(n, m, f)| (*n, *m, bits(*f))).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "line loads: {}", differ(a.len(), b.len(), a.iter().zip(&b).position(|(x, y)| x != y)));
        Ok(())
    }
}

/// The two materials a file may name: the unit material and aluminium 6061 (68.9 GPa, 2700 kg/m3).
pub fn is_material(m: &Material, test: bool) -> bool {
    let (name, youngs, poisson, density) = if test { ("TEST", 1.0, 0.0, 1.0) } else { ("AL6061", 6.89e10, 0.33, 2700.0) };
    m.name == name && m.youngs == youngs && m.poisson == poisson && m.density == density
}

/// Any finite number, with the ones that text formats lose or mangle.
pub fn number() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => (-1000i32..1000).prop_map(|x| x as f64),
        3 => (-100000i32..100000, 0i32..9).prop_map(|(x, k)| x as f64 / 10f64.powi(k)),
        3 => -10.0f64..10.0,
        2 => any::<u64>().prop_map(|b| { let x = f64::from_bits(b); if x.is_finite() { x } else { 0.5 } }),
        1 => prop_oneof![Just(0.0), Just(-0.0), Just(f64::MAX), Just(f64::MIN_POSITIVE), Just(5e-324), Just(f64::EPSILON), Just(-f64::MAX), Just(1e22), Just(1.0 + f64::EPSILON), Just(0.1 + 0.2), Just(123456.7890625)],
        1 => (any::<bool>(), -60i32..60).prop_map(|(s, k)| if s { -(k as f64).exp2() } else { (k as f64).exp2() }),
    ]
    .boxed()
}

fn con() -> BoxedStrategy<Con> {
    prop_oneof![2 => Just(Con::X), 2 => Just(Con::Y), 2 => Just(Con::XY), 3 => number().prop_map(Con::Angle), 1 => Just(Con::Free)].boxed()
}

pub fn cond() -> BoxedStrategy<Cond> {
    prop_oneof![number().prop_map(|t| Cond::Strain(t.abs())), number().prop_map(|t| Cond::Stress(t.abs())), Just(Cond::Axi)].boxed()
}

/// A jittered, turned and scaled grid of triangles under random labels, with spare nodes anywhere.
pub fn model(hi: usize) -> BoxedStrategy<Model> {
    (1..=hi, 1..=hi)
        .prop_flat_map(|(w, h)| {
            let n = (w + 1) * (h + 1);
            (
                (Just((w, h)), prop::collection::vec((-0.3f64..0.3, -0.3f64..0.3), n), prop_oneof![1 => Just(0.0), 3 => 0.0f64..6.3], -40i32..40, (-4.0f64..4.0, -4.0f64..4.0)),
                prop::collection::vec((number(), number()), 0..4),
                prop::collection::vec((any::<u8>(), any::<bool>()), 2 * w * h),
                (any::<u64>(), any::<bool>(), cond(), prop::bool::weighted(0.2)),
                prop::collection::vec((any::<prop::sample::Index>(), con()), 0..8),
                prop::collection::vec((any::<prop::sample::Index>(), number(), number()), 0..6),
                prop::collection::vec((any::<prop::sample::Index>(), any::<prop::sample::Index>(), number(), number()), 0..6),
            )
        })
        .prop_map(|(((w, h), jit, turn, size, at), spare, keep, (seed, test, cond, round), cons, forces, dist)| {
            let k = (size as f64).exp2();
            let (s, c) = turn.sin_cos();
            let mut nodes: Vec<V> = vec![];
            for j in 0..=h {
                for i in 0..=w {
                    let (a, b) = jit[j * (w + 1) + i];
                    let (x, y) = if round { (i as f64, j as f64) } else { (i as f64 + a, j as f64 + b) };
                    nodes.push(if round { (x, y) } else { ((c * x - s * y + at.0) * k, (s * x + c * y + at.1) * k) });
                }
            }
            nodes.extend(spare);
            // labels
            let rng = fastrand::Rng::with_seed(seed);
            let mut label: Vec<usize> = (0..nodes.len()).collect();
            rng.shuffle(&mut label);
            let mut placed = vec![(0.0, 0.0); nodes.len()];
            for (i, p) in nodes.iter().enumerate() {
                placed[label[i]] = *p;
            }
            let mut elems = vec![];
            for j in 0..h {
                for i in 0..w {
                    let q = j * (w + 1) + i;
                    for (z, t) in [[q, q + 1, q + w + 1], [q + 1, q + w + 2, q + w + 1]].into_iter().enumerate() {
                        let (r, left) = keep[2 * (j * w + i) + z];
                        if r % 8 == 7 {
                            continue;
                        }
                        let mut t = t.map(|x| label[x]);
                        t.rotate_left((r % 3) as usize);
                        if left && r % 2 == 0 {
                            t.reverse();
                        }
                        elems.push(t);
                    }
                }
            }
            rng.shuffle(&mut elems);
            let n = placed.len();
            // loads are often alike
            let mut alike: Vec<V> = vec![];
            let share = rng.bool();
            let mut like = |v: V| {
                if share && !alike.is_empty() && rng.u32(0..3) > 0 {
                    return alike[rng.usize(0..alike.len())];
                }
                alike.push(v);
                v
            };
            let mut m = Model { test, cond, nodes: placed, elems, cons: vec![], forces: vec![], dist: vec![] };
            for (i, c) in cons {
                let i = i.index(n);
                if !m.cons.iter().any(|x| x.0 == i) {
                    m.cons.push((i, c));
                }
            }
            for (i, x, y) in forces {
                let i = i.index(n);
                if !m.forces.iter().any(|f| f.0 == i) {
                    m.forces.push((i, like((x, y))));
                }
            }
            for (i, j, x, y) in dist {
                let (i, j) = (i.index(n), j.index(n));
                // an edge may be loaded once by each of its two names
                let both = |m: &Model, i: usize, j: usize| m.dist.iter().any(|f| (f.0, f.1) == (i, j));
                if i != j && !both(&m, i, j) {
                    let (x, y) = like((x, y));
                    m.dist.push((i, j, (x, y)));
                    if i % 5 == 0 && !both(&m, j, i) {
                        m.dist.push((j, i, if share { (x, y) } else { (y, x) }));
                    }
                }
            }
            m
        })
        .boxed()
}

/// A model of tens of thousands of nodes, elements, constraints, forces or line loads, by how many of each.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Vast {
    pub counts: [usize; 5],
    pub seed: u64,
    pub cond: Cond,
    pub style: Style,
}

pub fn vast() -> BoxedStrategy<Vast> {
    // around the places where narrow integers end
    let count = || prop_oneof![3 => 4usize..40, 1 => 250usize..270, 1 => 32760usize..32780, 2 => 65530usize..65545, 2 => 65000usize..90000];
    ([count(), count(), count(), count(), count()], any::<u64>(), cond(), style()).prop_map(|(counts, seed, cond, style)| Vast { counts, seed, cond, style }).boxed()
}

impl Vast {
    pub fn model(&self) -> Model {
        let [nodes, elems, cons, forces, dist] = self.counts;
        let nodes = nodes.max(4);
        let rng = fastrand::Rng::with_seed(self.seed);
        let num = || match rng.u32(0..4) {
            0 => rng.i32(-1000..1000) as f64,
            1 => rng.i32(-100000..100000) as f64 / 1000.0,
            2 => rng.f64() - 0.5,
            _ => (rng.f64() - 0.5) * (rng.i32(-60..60) as f64).exp2(),
        };
        // two rows of nodes, so that any three that are not in one row make a triangle
        let at: Vec<V> = (0..nodes).map(|i| ((i / 2) as f64 + rng.f64() * 0.1, (i % 2) as f64)).collect();
        let elems = (0..elems)
            .map(|k| {
                let far = rng.u32(0..16) == 0;
                let a = if far { rng.usize(0..nodes) } else { k % (nodes - 3) };
                let b = if far { rng.usize(0..nodes / 2) * 2 + (1 - a % 2) } else { a + 1 };
                let mut c = if far { rng.usize(0..nodes) } else { a + 2 };
                while c == a || c == b {
                    c = rng.usize(0..nodes);
                }
                let mut t = [a, b, c];
                t.rotate_left(rng.usize(0..3));
                t
            })
            .collect();
        // constraints and forces on distinct nodes, line loads on distinct pairs, many alike
        let every = rng.bool();
        let common = (num(), num());
        let force = || if every || rng.u32(0..4) == 0 { common } else { (num(), num()) };
        let some = |k: usize| {
            let mut all: Vec<usize> = (0..nodes).collect();
            rng.shuffle(&mut all);
            all.truncate(k);
            all
        };
        let cons = some(cons).into_iter().map(|n| (n, match rng.u32(0..5) { 0 => Con::X, 1 => Con::Y, 2 => Con::XY, 3 => Con::Free, _ => Con::Angle(num()) })).collect();
        let forces = some(forces).into_iter().map(|n| (n, force())).collect();
        let mut dist: Vec<(usize, usize, V)> = (0..dist.min(nodes * (nodes - 1) / 2))
            .map(|k| {
                let (i, step) = (k % nodes, 1 + k / nodes);
                (i, (i + step) % nodes, force())
            })
            .collect();
        dist.retain(|d| d.0 != d.1);
        dist.sort_by_key(|d| (d.0, d.1));
        dist.dedup_by_key(|d| (d.0, d.1));
        rng.shuffle(&mut dist);
        Model { test: rng.bool(), cond: self.cond.clone(), nodes: at, elems, cons, forces, dist }
    }
}

thread_local! {
    static SERIAL: usize = {
        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
    };
}

/// A file name in the scratch directory that no other thread uses.
pub fn scratch(name: &str) -> PathBuf {
    let dir = std::env::var_os("VERIF_SCRATCH").map_or_else(std::env::temp_dir, PathBuf::from);
    dir.join(format!("t{}-{}", SERIAL.with(|s| *s), name))
}

/// How the same file is written: notations of numbers, comments and blank lines.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Style {
    pub seed: u64,
    pub plain: bool,
    pub end: bool,
}

pub fn style() -> BoxedStrategy<Style> {
    (any::<u64>(), prop::bool::weighted(0.2), any::<bool>()).prop_map(|(seed, plain, end)| Style { seed, plain, end }).boxed()
}

pub struct Writer {
    rng: fastrand::Rng,
    plain: bool,
}

impl Writer {
    pub fn new(s: &Style) -> Writer {
        Writer { rng: fastrand::Rng::with_seed(s.seed), plain: s.plain }
    }
    /// the number in one of its notations, all of them exact
    pub fn num(&self, x: f64) -> String {
        let pick = if self.plain { 0 } else { self.rng.u32(0..6) };
        match pick {
            1 => format!("{:e}", x),
            2 => format!("{:E}", x),
            3 if !x.is_sign_negative() => format!("+{}", x),
            4 => {
                let t = format!("{}", x);
                if t.contains('.') { t + "00" } else { t + ".0" }
            }
            5 => {
                let t = format!("{:e}", x);
                let (m, e) = t.split_once('e').unwrap();
                let e: i32 = e.parse().unwrap();
                format!("{}e{}{:02}", m, if e < 0 { "-" } else { "+" }, e.abs())
            }
            _ => format!("{}", x),
        }
    }
    pub fn usize(&self, n: usize) -> String {
        if !self.plain && self.rng.u32(0..8) == 0 { format!("0{}", n) } else { n.to_string() }
    }
    /// puts comment lines and blank lines between the lines
    pub fn dressed(&self, lines: &[String], end: bool) -> String {
        let mut out = vec![];
        let gap = |out: &mut Vec<String>| {
            if !self.plain {
                while self.rng.u32(0..6) == 0 {
                    out.push(["", "#", "# a comment", "#$EndNodes", "# count 3", "#\u{e9}\u{4e00}"][self.rng.usize(0..6)].to_string());
                }
            }
        };
        for l in lines {
            gap(&mut out);
            out.push(l.clone());
        }
        gap(&mut out);
        let mut t = out.join("\n");
        if end {
            t.push('\n');
        }
        t
    }
}

/// One section: its name and its lines.
pub type Sections = Vec<(String, Vec<String>)>;

pub fn con_text(c: Con, w: &Writer) -> String {
    match c {
        Con::Free => "free".into(),
        Con::X => "x".into(),
        Con::Y => "y".into(),
        Con::XY => "xy".into(),
        Con::Angle(a) => format!("angle:{}", w.num(a)),
    }
}

pub fn sections(m: &Model, w: &Writer) -> Sections {
    let cond = match m.cond {
        Cond::Strain(t) => format!("condition planestrain {}", w.num(t)),
        Cond::Stress(t) => format!("condition planestress {}", w.num(t)),
        Cond::Axi => "condition axisymmetric".into(),
    };
    let mut res = vec![("Header".to_string(), vec!["version 1".to_string(), format!("material {}", if m.test { "TEST" } else { "AL6061" }), cond])];
    let mut list = |name: &str, items: Vec<String>, numbered: bool| {
        let mut lines = vec![format!("count {}", w.usize(items.len()))];
        lines.extend(items.into_iter().enumerate().map(|(i, x)| if numbered { format!("{} {}", w.usize(i), x) } else { x }));
        res.push((name.to_string(), lines));
    };
    list("Nodes", m.nodes.iter().map(|p| format!("{}/{}", w.num(p.0), w.num(p.1))).collect(), true);
    list("Elements", m.elems.iter().map(|t| format!("{}/{}/{}", w.usize(t[0]), w.usize(t[1]), w.usize(t[2]))).collect(), true);
    list("Constraints", m.cons.iter().map(|(n, c)| format!("{} {}", w.usize(*n), con_text(*c, w))).collect(), false);
    list("Forces", m.forces.iter().map(|(n, f)| format!("{} {}/{}", w.usize(*n), w.num(f.0), w.num(f.1))).collect(), false);
    list("DistForces", m.dist.iter().map(|(n, k, f)| format!("{} {} {}/{}", w.usize(*n), w.usize(*k), w.num(f.0), w.num(f.1))).collect(), false);
    res
}

pub fn lines(s: &Sections) -> Vec<String> {
    let mut res = vec![];
    for (name, body) in s {
        res.push(format!("${}", name));
        res.extend(body.iter().cloned());
        res.push(format!("$End{}", name));
    }
    res
}

/// A stably held grid of triangles with loads.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Solved {
    pub cond: u8,
    pub t: f64,
    pub w: usize,
    pub h: usize,
    pub size: i32,
    pub jit: Vec<(f64, f64)>,
    pub angle: f64,
    pub forces: Vec<(usize, f64, f64)>,
    pub edges: Vec<(usize, f64, f64)>,
}

pub fn solved() -> BoxedStrategy<Solved> {
    solved_of(1..4, 1..4)
}

pub fn solved_of(w: std::ops::Range<usize>, h: std::ops::Range<usize>) -> BoxedStrategy<Solved> {
    (w, h)
        .prop_flat_map(|(w, h)| {
            (
                (Just(w), Just(h), 0u8..3, 0.01f64..2.0, -8i32..8),
                prop::collection::vec((-0.25f64..0.25, -0.25f64..0.25), (w + 1) * (h + 1)),
                -3.2f64..3.2,
                prop::collection::vec((0usize..100, -1.0f64..1.0, -1.0f64..1.0), 1..4),
                prop::collection::vec((0..w, -1.0f64..1.0, -1.0f64..1.0), 0..3),
            )
        })
        .prop_map(|((w, h, cond, t, size), jit, angle, forces, edges)| Solved { cond, t, w, h, size, jit, angle, forces, edges })
        .boxed()
}

pub fn solved_model(c: &Solved) -> Model {
    let k = (c.size as f64).exp2();
    let (w, h) = (c.w, c.h);
    let mut nodes = vec![];
    for j in 0..=h {
        for i in 0..=w {
            let (a, b) = c.jit[j * (w + 1) + i];
            nodes.push(((i as f64 + a + 2.0) * k, (j as f64 + b) * k));
        }
    }
    let mut elems = vec![];
    for j in 0..h {
        for i in 0..w {
            let q = j * (w + 1) + i;
            elems.push([q, q + 1, q + w + 1]);
            elems.push([q + 1, q + w + 2, q + w + 1]);
        }
    }
    let n = nodes.len();
    let mut m = Model {
        test: false,
        cond: [Cond::Strain(c.t), Cond::Stress(c.t), Cond::Axi][c.cond as usize],
        nodes,
        elems,
        cons: vec![(0, Con::XY), (w, Con::Y), (n - 1, Con::Angle(c.angle))],
        forces: vec![],
        dist: vec![],
    };
    for (i, x, y) in &c.forces {
        let i = i % n;
        if !m.forces.iter().any(|f| f.0 == i) {
            m.forces.push((i, (*x, *y)));
        }
    }
    for (i, x, y) in &c.edges {
        let a = h * (w + 1) + i;
        if !m.dist.iter().any(|d| d.0 == a) {
            m.dist.push((a, a + 1, (*x, *y)));
        }
    }
    m
}
