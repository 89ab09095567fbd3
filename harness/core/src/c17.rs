//! C17: stress states, nodal stress recovery and von Mises values against the tensor definitions.

use crate::canned::{answer_with, Canned};
use crate::ensure;
use crate::fem::*;
use crate::pbt::*;
use crate::tab::*;
use bugi::element::stress::{StressState, StressType};
use bugi::matrix::solve::direct::CholeskyEnvelopeSolver;

use bugi::matrix::{LinearMatrix, MatrixLike};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type T3 = [[f64; 3]; 3];

/// the standard value: sqrt(3/2 s:s) of the deviator
fn mises(t: &T3) -> f64 {
    let p = (t[0][0] + t[1][1] + t[2][2]) / 3.0;
    let mut s = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let d = t[i][j] - if i == j { p } else { 0.0 };
            s += d * d;
        }
    }
    (1.5 * s).sqrt()
}

fn size(t: &T3) -> f64 {
    t.iter().flatten().fold(0.0, |m, x| m.max(x.abs()))
}

/// the three-dimensional tensor of a stress vector
fn tensor(v: &[f64]) -> T3 {
    match v.len() {
        1 => [[v[0], 0.0, 0.0], [0.0; 3], [0.0; 3]],
        3 => [[v[0], v[2], 0.0], [v[2], v[1], 0.0], [0.0; 3]],
        4 => [[v[0], v[2], 0.0], [v[2], v[1], 0.0], [0.0, 0.0, v[3]]],
        _ => [[v[0], v[3], v[5]], [v[3], v[1], v[4]], [v[5], v[4], v[2]]],
    }
}

/// what the tensor form of a state holds, out-of-plane components zero
fn cauchy(s: &StressState, what: &str) -> Result<T3, Fail> {
    let c = s.to_cauchy();
    let (r, k) = c.shape();
    ensure!(r == k && r >= 1 && r <= 3, "{}: tensor form of shape {:?}", what, (r, k));
    let mut t = [[0.0; 3]; 3];
    for i in 0..r {
        for j in 0..r {
            t[i][j] = c[(i, j)];
        }
    }
    for i in 0..3 {
        for j in 0..i {
            ensure!(t[i][j] == t[j][i], "{}: tensor form is not symmetric: {:?}", what, t);
        }
    }
    Ok(t)
}

fn same(t: &T3, w: &T3, tol: f64, what: &str) -> Result<(), Fail> {
    for i in 0..3 {
        for j in 0..3 {
            ensure!((t[i][j] - w[i][j]).abs() <= tol, "{}: component {} {} is {}, expected {} (all {:?}, expected {:?})", what, i, j, t[i][j], w[i][j], t, w);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ stress states

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct States {
    a: Vec<f64>,
    b: Vec<f64>,
    col: bool,
    factor: f64,
    div: f64,
    turn: f64,
}

fn strat_states() -> BoxedStrategy<States> {
    (prop_oneof![Just(1usize), Just(3), Just(4), Just(6)], 0u8..4)
        .prop_flat_map(|(n, kind)| {
            let cell = match kind {
                0 => real(),
                1 => quarter(),
                2 => (-1e9f64..1e9).boxed(),
                _ => prop_oneof![2 => Just(0.0), 1 => -10.0f64..10.0].boxed(),
            };
            (
                prop::collection::vec(cell.clone(), n),
                prop::collection::vec(cell, n),
                any::<bool>(),
                prop_oneof![-5.0f64..5.0, Just(0.0), Just(-1.0)],
                prop_oneof![0.1f64..5.0, -5.0f64..-0.1],
                (0.0f64..6.3, exponent(400)),
            )
        })
        .prop_map(|(mut a, mut b, col, factor, div, (turn, e))| {
            a.iter_mut().chain(b.iter_mut()).for_each(|x| *x *= pow2(e));
            States { a, b, col, factor, div, turn }
        })
        .boxed()
}

fn check_states(c: &States) -> Result<Info, Fail> {
    let state = |v: &[f64]| StressState::from_vector(if c.col { LinearMatrix::col_vec(v.to_vec()) } else { LinearMatrix::row_vec(v.to_vec()) });
    let kind = match c.a.len() {
        1 => StressType::Bar,
        3 => StressType::Plane,
        4 => StressType::AxiSym,
        _ => StressType::ThreeD,
    };
    let (a, b) = (state(&c.a), state(&c.b));
    let expect = |s: &StressState, v: &[f64], tol: f64, what: &str| -> Result<(), Fail> {
        ensure!(s.state_type == kind, "{}: a state of {} components is taken for {:?}", what, v.len(), s.state_type);
        let t = tensor(v);
        same(&cauchy(s, what)?, &t, tol, what)?;
        let (m, w) = (s.von_mises(), mises(&t));
        ensure!(m >= 0.0 && (m - w).abs() <= 1e-9 * w + 1e-14 * size(&t) + 3.0 * tol, "{}: von Mises value {} of {:?}, expected {}", what, m, v, w);
        Ok(())
    };
    expect(&a, &c.a, 0.0, "state")?;
    expect(&b, &c.b, 0.0, "state")?;
    let mag = c.a.iter().chain(&c.b).fold(0.0f64, |m, x| m.max(x.abs()));
    let zip = |f: fn(f64, f64) -> f64| -> Vec<f64> { c.a.iter().zip(&c.b).map(|(x, y)| f(*x, *y)).collect() };
    let each = |f: &dyn Fn(f64) -> f64| -> Vec<f64> { c.a.iter().map(|x| f(*x)).collect() };
    expect(&(a.clone() + b.clone()), &zip(|x, y| x + y), 1e-15 * mag, "sum")?;
    expect(&(a.clone() * c.factor), &each(&|x| x * c.factor), 1e-15 * mag * c.factor.abs(), "multiple")?;
    expect(&(a.clone() / c.div), &each(&|x| x / c.div), 1e-15 * mag / c.div.abs(), "fraction")?;
    // size and direction of the axes
    let m = a.von_mises();
    let scaled = (a.clone() * c.factor).von_mises();
    ensure!((scaled - c.factor.abs() * m).abs() <= 1e-9 * (scaled + m) + 1e-14 * mag * c.factor.abs(), "von Mises value {} of a state, {} of {} times it", m, scaled, c.factor);
    if c.a.len() > 1 {
        let (s, k) = c.turn.sin_cos();
        let rot = |x: f64, y: f64, q: f64| [x * k * k + y * s * s - 2.0 * q * s * k, x * s * s + y * k * k + 2.0 * q * s * k, (x - y) * s * k + q * (k * k - s * s)];
        let mut v = c.a.clone();
        if v.len() == 6 {
            // about the third axis: the shears yz, xz turn like a vector
            let [x, y, q] = rot(v[0], v[1], v[3]);
            let (xz, yz) = (v[5] * k - v[4] * s, v[5] * s + v[4] * k);
            v = vec![x, y, v[2], q, yz, xz];
        } else {
            let [x, y, q] = rot(v[0], v[1], v[2]);
            v[0] = x;
            v[1] = y;
            v[2] = q;
        }
        let t = state(&v).von_mises();
        ensure!((t - m).abs() <= 1e-9 * m + 1e-13 * mag, "von Mises value {} of {:?}, {} of the same state seen from axes turned by {}: {:?}", m, c.a, t, c.turn, v);
    }
    // the same state with more components written out
    let mut six = match c.a.len() {
        1 => vec![c.a[0], 0.0, 0.0, 0.0, 0.0, 0.0],
        3 => vec![c.a[0], c.a[1], 0.0, c.a[2], 0.0, 0.0],
        4 => vec![c.a[0], c.a[1], c.a[3], c.a[2], 0.0, 0.0],
        _ => c.a.clone(),
    };
    let t = state(&six).von_mises();
    ensure!((t - m).abs() <= 1e-9 * m + 1e-14 * mag, "von Mises value {} of {:?}, {} of the same state in three dimensions", m, c.a, t);
    // hydrostatic pressure adds nothing
    (0..3).for_each(|i| six[i] += c.factor * mag);
    let t = state(&six).von_mises();
    ensure!((t - m).abs() <= 1e-9 * m + 1e-7 * mag, "von Mises value {} of {:?}, {} under a pressure", m, c.a, t);
    for len in 0..9 {
        let v = vec![c.factor; len];
        match len {
            1 | 3 | 4 | 6 if len == c.a.len() => {}
            1 | 3 | 4 | 6 => {
                let other = state(&v);
                ensure!(refuses(|| a.clone() + other.clone()), "a state of {} components was added to one of {}", len, c.a.len());
                ensure!(refuses(|| other.clone() + a.clone()), "a state of {} components was added to one of {}", c.a.len(), len);
            }
            0 => {}
            _ => ensure!(refuses(|| state(&v)), "a state of {} components", len),
        }
    }
    ensure!(refuses(|| StressState::from_vector(LinearMatrix::from_flat((2, 3), vec![c.factor; 6]))) && refuses(|| StressState::from_vector(LinearMatrix::from_flat((2, 2), c.a.iter().cycle().take(4).cloned()))), "a state from a matrix with two rows");
    ok_tags(m > 0.0, vec![match kind { StressType::Bar => "bar", StressType::Plane => "plane", StressType::AxiSym => "axisymmetric", StressType::ThreeD => "three-dimensional" }])
}

// ------------------------------------------------------------ recovery of arbitrary displacements

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Field {
    model: Model,
    /// nodes no element uses
    spare: Vec<(usize, P2)>,
    u: Vec<f64>,
}

fn strat_field() -> BoxedStrategy<Field> {
    strat_field_of(3, 2)
}

fn strat_field_large() -> BoxedStrategy<Field> {
    strat_field_of(8, 6)
}

fn strat_field_hundreds() -> BoxedStrategy<Field> {
    strat_field_of(22, 18)
}

fn strat_field_fans() -> BoxedStrategy<Field> {
    field_on((condition(), material()).prop_flat_map(|(cond, mat)| (Just(cond), Just(mat), (4u32..10).prop_flat_map(move |k| fan(1 << k, !cond.plane())))).boxed())
}

fn strat_field_of(max_x: usize, max_y: usize) -> BoxedStrategy<Field> {
    field_on((condition(), material()).prop_flat_map(move |(cond, mat)| (Just(cond), Just(mat), prop_oneof![3 => layered_mesh(mesh(max_x, max_y, !cond.plane())), 1 => layered_mesh(mesh(2, 1, !cond.plane()))])).boxed())
}

fn field_on(on: BoxedStrategy<(Cond, Mat, Mesh)>) -> BoxedStrategy<Field> {
    on
        .prop_flat_map(|(cond, mat, mesh)| {
            let n = mesh.pts.len();
            (
                Just((cond, mat)),
                prop_oneof![Just(vec![]), constraints(&mesh)],
                Just(mesh),
                prop::collection::vec((0..=n, (0.5f64..5.0, -5.0f64..5.0)), 0..3),
                prop_oneof![
                    3 => prop::collection::vec(-1.0f64..1.0, 2 * n + 6),
                    1 => prop::collection::vec(prop_oneof![3 => Just(0.0), 1 => -1.0f64..1.0], 2 * n + 6),
                    1 => (-200i32..200).prop_flat_map(move |e| prop::collection::vec((-1.0f64..1.0).prop_map(move |x| x * pow2(e)), 2 * n + 6)),
                ],
            )
        })
        .prop_map(|((cond, mat), cons, mesh, spare, u)| Field { model: Model { mesh, cond, mat, cons, conc: vec![], line: vec![] }, spare: spare.into_iter().map(|(i, p)| (i, [p.0, p.1])).collect(), u })
        .boxed()
}

/// stress tensors at the corners of a triangle
fn corner_stress(m: &Model, t: usize, u: &[f64], corner: usize) -> T3 {
    let p = m.mesh.tri(t);
    let ue: Vec<f64> = m.mesh.tris[t].iter().flat_map(|&i| vec![u[2 * i], u[2 * i + 1]]).collect();
    let mut h = [0.0; 3];
    h[corner] = 1.0;
    let mut b = strain_mat(m.cond, &p, h);
    if m.cond == Cond::Axi && p[corner][0] == 0.0 {
        // on the axis the hoop strain is the limit of displacement over radius: the radial strain
        for j in 0..6 {
            let x = b.at(0, j);
            b.set(3, j, x);
        }
    }
    let s = elastic(m.cond, m.mat).mulv(&b.mulv(&ue));
    let mut t = tensor(&s);
    if let Cond::Strain(_) = m.cond {
        t[2][2] = m.mat.nu * (s[0] + s[1]);
    }
    t
}

fn check_field(c: &Field) -> Result<Info, Fail> {
    let mut m = c.model.clone();
    // spare nodes pushed in between the others
    for &(at, p) in &c.spare {
        m.mesh.pts.insert(at, p);
        let up = |i: &mut usize| if *i >= at { *i += 1 };
        m.mesh.tris.iter_mut().flatten().for_each(up);
        m.cons.iter_mut().for_each(|x| up(&mut x.0));
    }
    if m.cond == Cond::Axi {
        // nothing moves off the axis
        for i in 0..m.mesh.pts.len() {
            if m.mesh.pts[i][0] == 0.0 {
                m.cons.push((i, Con::X));
                m.cons.push((i, Con::X));
            }
        }
    }
    if m.mesh.rounding() > 1e5 {
        return ok_tags(false, vec!["slivers far from the origin"]);
    }
    answer_with(&c.u);
    let mut elas = m.build();
    let def = elas.calc_displacements::<Canned>();
    let u = displacements(&def, &m.mesh.pts);
    if m.cond == Cond::Axi && (0..m.mesh.pts.len()).any(|i| m.mesh.pts[i][0] == 0.0 && u[2 * i].abs() > 0.0) {
        return ok_tags(false, vec!["moves off the axis"]);
    }
    let states = def.stresses();
    let values = def.von_mises();
    let n = m.mesh.pts.len();
    ensure!(states.len() == n && values.len() == n, "{} stresses and {} von Mises values for {} nodes", states.len(), values.len(), n);
    let umax = u.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let mut want = vec![[[0.0; 3]; 3]; n];
    let mut count = vec![0usize; n];
    let mut scale = vec![0.0f64; n];
    for (t, tri) in m.mesh.tris.iter().enumerate() {
        let g = grads(&m.mesh.tri(t)).iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
        for k in 0..3 {
            let s = corner_stress(&m, t, &u, k);
            let hoop = if m.cond == Cond::Axi && m.mesh.pts[tri[k]][0] != 0.0 { 1.0 / m.mesh.pts[tri[k]][0] } else { 0.0 };
            let i = tri[k];
            count[i] += 1;
            for a in 0..3 {
                for b in 0..3 {
                    want[i][a][b] += s[a][b];
                }
            }
            scale[i] = scale[i].max(elastic(m.cond, m.mat).maxabs() * (g * rounding(&m.mesh.tri(t)) + hoop) * umax);
        }
    }
    for i in 0..n {
        let Some(s) = &states[i] else {
            ensure!(count[i] == 0, "no stress at node {}, which {} elements use", i, count[i]);
            ensure!(values[i] == 0.0, "von Mises value {} at node {}, which no element uses", values[i], i);
            continue;
        };
        ensure!(count[i] > 0, "a stress at node {}, which no element uses", i);
        want[i].iter_mut().flatten().for_each(|x| *x /= count[i] as f64);
        let tol = 1e-12 * scale[i];
        let what = format!("stress at node {}", i);
        same(&cauchy(s, &what)?, &want[i], tol, &what)?;
        let w = mises(&want[i]);
        ensure!(values[i] >= 0.0 && (values[i] - w).abs() <= 5.0 * tol + 1e-9 * w, "von Mises value {} at node {}, expected {} for {:?}", values[i], i, w, want[i]);
        ensure!((values[i] - s.von_mises()).abs() <= 5.0 * tol + 1e-9 * w, "von Mises value {} at node {}, its stress has {}", values[i], i, s.von_mises());
    }
    let axis = m.cond == Cond::Axi && m.mesh.pts.iter().any(|p| p[0] == 0.0);
    ok_tags(m.mesh.tris.len() > 2 && umax > 0.0, vec![if axis { "on the axis" } else { "off the axis" }, match m.cond { Cond::Stress(_) => "plane stress", Cond::Strain(_) => "plane strain", Cond::Axi => "axisymmetric" }])
}

// ------------------------------------------------------------ uniform stress

fn check_patch(c: &Patch) -> Result<Info, Fail> {
    let m = &c.model;
    let Some(s) = m.solve() else { return ok_tags(false, vec!["mechanism or nearly"]) };
    let tol = 1e-12 * s.cond * (1.0 + m.mesh.rounding()).min(1e4) + 1e-11;
    if tol > 1e-6 {
        return ok_tags(false, vec!["ill-conditioned"]);
    }
    let mut elas = m.build();
    let def = elas.calc_displacements::<CholeskyEnvelopeSolver>();
    let [x, y, q] = c.stress;
    let mut want = tensor(&[x, y, q]);
    if let Cond::Strain(_) = m.cond {
        want[2][2] = m.mat.nu * (x + y);
    }
    let big = size(&want);
    let umax = s.u.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    for (i, (st, vm)) in def.stresses().iter().zip(def.von_mises()).enumerate() {
        let Some(st) = st else { ensure!(false, "no stress at node {}", i); unreachable!() };
        let g = (0..m.mesh.tris.len()).filter(|&t| m.mesh.tris[t].contains(&i)).flat_map(|t| grads(&m.mesh.tri(t)).to_vec()).flatten().fold(0.0f64, |a, x| a.max(x.abs()));
        let tol = tol * (big + g * umax * elastic(m.cond, m.mat).maxabs());
        same(&cauchy(st, "uniform stress")?, &want, tol, &format!("uniform stress at node {}", i))?;
        let w = mises(&want);
        ensure!((vm - w).abs() <= 5.0 * tol, "von Mises value {} at node {} of a body under uniform stress, expected {}", vm, i, w);
    }
    ok(m.mesh.tris.len() > 2)
}

pub fn property() -> Property {
    Property {
        id: "C17",
        families: vec![
            Box::new(Family {
                name: "states",
                rule: "pairs of stress vectors of 1, 3, 4 or 6 components, as rows or columns, their sums, multiples and turned and embedded forms. Non-trivial: a von Mises value above zero",
                quick: 600_000,
                thorough: 18_000_000,
                strategy: strat_states,
                check: check_states,
            }),
            Box::new(Family {
                name: "recovery",
                rule: "meshes of up to 12 triangles with spare nodes and arbitrary displacement fields (through a solver that answers with prepared numbers). Non-trivial: more than two triangles and something moves",
                quick: 180_000,
                thorough: 5_400_000,
                strategy: strat_field,
                check: check_field,
            }),
            Box::new(Family {
                name: "recovery-hundreds",
                rule: "the same on meshes of up to 792 triangles. Non-trivial: more than two triangles and something moves",
                quick: 2_000,
                thorough: 60_000,
                strategy: strat_field_hundreds,
                check: check_field,
            }),
            Box::new(Family {
                name: "recovery-fans",
                rule: "the same on up to 512 triangles around one node. Non-trivial: more than two triangles and something moves",
                quick: 6_000,
                thorough: 180_000,
                strategy: strat_field_fans,
                check: check_field,
            }),
            Box::new(Family {
                name: "recovery-large",
                rule: "the same on meshes of up to 96 triangles. Non-trivial: more than two triangles and something moves",
                quick: 10_000,
                thorough: 300_000,
                strategy: strat_field_large,
                check: check_field,
            }),
            Box::new(Family {
                name: "uniform",
                rule: "meshes of up to 18 triangles whose whole boundary carries the traction of a uniform stress. Non-trivial: more than two triangles",
                quick: 60_000,
                thorough: 1_800_000,
                strategy: strat_patch,
                check: check_patch,
            }),
        ],
        assumptions: vec!["corners of axisymmetric elements on the axis do not move off it", "uniform-stress cases with a condition number above about 1e6 are not judged"],
    }
}
