//! C15: static displacements against an independent finite-element solution and elasticity theory.

use crate::ensure;
use crate::fem::*;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::element::ElementAssemblage;
use bugi::matrix::solve::Solver;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    model: Model,
    turn: f64,
    number: Vec<usize>,
    factor: f64,
}

fn strat() -> BoxedStrategy<Case> {
    strat_of(prop_oneof![4 => model(3, 2, condition()), 1 => model(6, 1, condition())].boxed())
}

fn strat_large() -> BoxedStrategy<Case> {
    strat_of(prop_oneof![3 => model(8, 5, condition()), 1 => model(25, 1, condition())].boxed())
}

fn strat_hundreds() -> BoxedStrategy<Case> {
    strat_of(prop_oneof![3 => model(14, 12, condition()), 1 => model(80, 1, condition())].boxed())
}

fn strat_apart() -> BoxedStrategy<Case> {
    strat_of(prop_oneof![3 => apart(2, 1), 1 => apart(3, 3)].boxed())
}

fn strat_of(m: BoxedStrategy<Model>) -> BoxedStrategy<Case> {
    layered(m)
        .prop_flat_map(|m| {
            let n = m.mesh.pts.len();
            (Just(m), 0.0f64..6.28, Just((0..n).collect::<Vec<_>>()).prop_shuffle(), prop_oneof![-3.0f64..3.0, Just(0.0), Just(-1.0)])
        })
        .prop_map(|(model, turn, number, factor)| Case { model, turn, number, factor })
        .boxed()
}

pub fn displace<T: Solver>(m: &Model, what: &str) -> Result<Vec<f64>, Fail> {
    displace_in::<T>(&mut m.build(), m, what)
}

fn displace_in<T: Solver>(elas: &mut ElementAssemblage, m: &Model, what: &str) -> Result<Vec<f64>, Fail> {
    let def = attempt(|| elas.calc_displacements::<T>()).map_err(|e| format!("{}: panicked: {}", what, e))?;
    let u = displacements(&def, &m.mesh.pts);
    let norms = def.displacement_norms();
    ensure!(norms.len() == m.mesh.pts.len(), "{}: {} displacement norms for {} nodes", what, norms.len(), m.mesh.pts.len());
    let big = vnorm(&u);
    for i in 0..norms.len() {
        let w = u[2 * i].hypot(u[2 * i + 1]);
        ensure!((norms[i] - w).abs() <= 1e-9 * big, "{}: displacement norm {} at node {}, its displacement has {}", what, norms[i], i, w);
    }
    let moved = def.displaced_nodes(0.0);
    for (q, p) in moved.iter().zip(&m.mesh.pts) {
        ensure!(q[0] == p[0] && q[1] == p[1], "{}: at scale zero {:?} appears at {:?}", what, p, q);
    }
    for scale in [1.0, -1.0, 0.37, -250.0] {
        let shown = def.displaced_nodes(scale);
        for (i, (q, p)) in shown.iter().zip(&m.mesh.pts).enumerate() {
            for d in 0..2 {
                let w = p[d] + scale * u[2 * i + d];
                ensure!((q[d] - w).abs() <= 1e-9 * (w.abs() + scale.abs() * big + p[d].abs()), "{}: node {} displaced at the scale {} is at {}, expected {}", what, i, scale, q[d], w);
            }
        }
    }
    Ok(u)
}

fn close(u: &[f64], w: &[f64], tol: f64, reach: f64, what: &str) -> Result<(), Fail> {
    let d = vdist(u, w);
    ensure!(d <= tol * vnorm(w) + 1e-13 * reach, "{}: off by {:e} of {:e}\n got {:?}\nwant {:?}", what, d, vnorm(w), u, w);
    Ok(())
}

fn check(c: &Case) -> Result<Info, Fail> {
    let m = &c.model;
    let Some(s) = m.solve() else { return ok_tags(false, vec!["mechanism or nearly"]) };
    let tol = 1e-12 * s.cond * (1.0 + m.mesh.rounding()).min(1e4) + 1e-11;
    if tol > 1e-3 {
        return ok_tags(false, vec!["ill-conditioned"]);
    }
    let u = displace::<DenseGaussSolver>(m, "dense")?;
    close(&u, &s.u, tol, s.reach, "dense")?;
    let v = displace::<CholeskyEnvelopeSolver>(m, "Cholesky")?;
    close(&v, &s.u, tol, s.reach, "Cholesky")?;
    // constraints hold exactly, whatever the conditioning
    for (n, con) in m.constraints().iter().enumerate() {
        for d in con.fixed() {
            for (w, how) in [(&u, "dense"), (&v, "Cholesky")] {
                let x = w[2 * n] * d[0] + w[2 * n + 1] * d[1];
                ensure!(x.abs() <= 1e-12 * (w[2 * n].abs() + w[2 * n + 1].abs()) + 1e-15 * vnorm(w), "{}: node {} moves by {:e} along its constraint {:?}", how, n, x, con);
            }
        }
    }
    // linear in the loads: f times one load, and the sum of two
    let mut scaled = m.clone();
    scaled.conc.iter_mut().for_each(|x| x.1 = [x.1[0] * c.factor, x.1[1] * c.factor]);
    scaled.line.iter_mut().for_each(|x| x.2 = [x.2[0] * c.factor, x.2[1] * c.factor]);
    let us = displace::<CholeskyEnvelopeSolver>(&scaled, "scaled")?;
    let want: Vec<f64> = u.iter().map(|x| x * c.factor).collect();
    ensure!(vdist(&us, &want) <= tol * (vnorm(&u) * (1.0 + c.factor.abs())) + 1e-12 * s.reach, "loads times {}: {:?}, expected {:?}", c.factor, us, want);
    let (mut a, mut b) = (m.clone(), m.clone());
    a.line.clear();
    b.conc.clear();
    let ua = displace::<DenseGaussSolver>(&a, "forces alone")?;
    let ub = displace::<DenseGaussSolver>(&b, "line loads alone")?;
    let sum: Vec<f64> = ua.iter().zip(&ub).map(|(x, y)| x + y).collect();
    ensure!(vdist(&sum, &u) <= 2.0 * tol * (vnorm(&ua) + vnorm(&ub)) + 1e-12 * s.reach, "forces and line loads: {:?}, apart they add up to {:?}", u, sum);
    // renumbered
    let at = |i: usize| c.number[i];
    let mut r = m.renumbered(&c.number);
    r.mesh.tris.reverse();
    let ur = displace::<CholeskyEnvelopeSolver>(&r, "renumbered")?;
    let back: Vec<f64> = (0..m.mesh.pts.len()).flat_map(|i| vec![ur[2 * at(i)], ur[2 * at(i) + 1]]).collect();
    close(&back, &s.u, tol, s.reach, "renumbered")?;
    // turned
    if m.cond.plane() {
        let (sn, cs) = c.turn.sin_cos();
        let rot = |p: P2| [cs * p[0] - sn * p[1], sn * p[0] + cs * p[1]];
        let mut t = m.clone();
        t.mesh.pts.iter_mut().for_each(|p| *p = rot(*p));
        t.conc.iter_mut().for_each(|x| x.1 = rot(x.1));
        t.line.iter_mut().for_each(|x| x.2 = rot(x.2));
        t.cons = m.constraints().iter().enumerate().filter(|x| *x.1 != Con::Free).map(|(n, k)| {
            (n, match *k {
                Con::Free => Con::Free,
                Con::XY => Con::XY,
                Con::X => Con::Angle(c.turn),
                Con::Y => Con::Angle(c.turn + std::f64::consts::FRAC_PI_2),
                Con::Angle(a) => Con::Angle(a + c.turn),
            })
        }).collect();
        let ut = displace::<CholeskyEnvelopeSolver>(&t, "turned")?;
        let want: Vec<f64> = s.u.chunks(2).flat_map(|p| rot([p[0], p[1]])).collect();
        close(&ut, &want, 3.0 * tol, s.reach, "turned")?;
    }
    let angled = m.constraints().iter().any(|k| matches!(k, Con::Angle(_)));
    ok_tags(vnorm(&s.u) > 0.0 && m.mesh.tris.len() > 2, vec![if angled { "angled constraints" } else { "axis constraints" }, match m.cond { Cond::Stress(_) => "plane stress", Cond::Strain(_) => "plane strain", Cond::Axi => "axisymmetric" }])
}

// ------------------------------------------------------------ histories

fn strat_history() -> BoxedStrategy<History> {
    history(3, 2)
}

fn check_history(c: &History) -> Result<Info, Fail> {
    let (mut solved, mut skipped) = (0, 0);
    c.replay(|elas, m, k| {
        let Some(s) = m.solve() else {
            skipped += 1;
            return Ok(());
        };
        let tol = 1e-12 * s.cond * (1.0 + m.mesh.rounding()).min(1e4) + 1e-11;
        if tol > 1e-3 {
            skipped += 1;
            return Ok(());
        }
        solved += 1;
        let what = format!("after {} constraints, {} forces and {} line loads", m.cons.len(), m.conc.len(), m.line.len());
        let u = if k % 2 == 0 { displace_in::<DenseGaussSolver>(elas, m, &what)? } else { displace_in::<CholeskyEnvelopeSolver>(elas, m, &what)? };
        close(&u, &s.u, tol, s.reach, &what)
    })?;
    ok_tags(solved > 1, vec![if skipped > 0 { "held only later" } else { "always held" }])
}

// ------------------------------------------------------------ uniform stress

fn check_patch(c: &Patch) -> Result<Info, Fail> {
    let m = &c.model;
    let Some(s) = m.solve() else { return ok_tags(false, vec!["mechanism or nearly"]) };
    let tol = 1e-12 * s.cond * (1.0 + m.mesh.rounding()).min(1e4) + 1e-11;
    if tol > 1e-4 {
        return ok_tags(false, vec!["ill-conditioned"]);
    }
    // strains of the uniform stress by inverting Hooke's law
    let (e, v) = (m.mat.e, m.mat.nu);
    let (e1, v1) = match m.cond {
        Cond::Strain(_) => (e / (1.0 - v * v), v / (1.0 - v)),
        _ => (e, v),
    };
    let [sx, sy, txy] = c.stress;
    let (ex, ey, g) = ((sx - v1 * sy) / e1, (sy - v1 * sx) / e1, 2.0 * (1.0 + v) * txy / e);
    let o = m.mesh.pts[c.a];
    let field = |p: P2, w: f64| {
        let (x, y) = (p[0] - o[0], p[1] - o[1]);
        [ex * x + (g / 2.0 - w) * y, (g / 2.0 + w) * x + ey * y]
    };
    // the turn that satisfies the roller
    let q = m.mesh.pts[c.b];
    let d = m.constraints()[c.b].fixed()[0];
    let f0 = field(q, 0.0);
    let turn = [-(q[1] - o[1]), q[0] - o[0]];
    let w = -(f0[0] * d[0] + f0[1] * d[1]) / (turn[0] * d[0] + turn[1] * d[1]);
    let want: Vec<f64> = m.mesh.pts.iter().flat_map(|p| field(*p, w)).collect();
    close(&displace::<CholeskyEnvelopeSolver>(m, "Cholesky")?, &want, tol, s.reach, "uniform stress, Cholesky")?;
    close(&displace::<DenseGaussSolver>(m, "dense")?, &want, tol, s.reach, "uniform stress, dense")?;
    ok(m.mesh.tris.len() > 2)
}

pub fn property() -> Property {
    Property {
        id: "C15",
        families: vec![
            Box::new(Family {
                name: "bodies",
                rule: "meshes of up to 12 triangles with random connectivity, numbering, orientation, place, material, condition, constraints and loads. Non-trivial: more than two triangles, and something moves",
                quick: 36_000,
                thorough: 1_080_000,
                strategy: strat,
                check,
            }),
            Box::new(Family {
                name: "bodies-large",
                rule: "the same with up to 80 triangles. Non-trivial: more than two triangles, and something moves",
                quick: 3_000,
                thorough: 90_000,
                strategy: strat_large,
                check,
            }),
            Box::new(Family {
                name: "bodies-hundreds",
                rule: "the same with up to 336 triangles. Non-trivial: more than two triangles, and something moves",
                quick: 400,
                thorough: 12_000,
                strategy: strat_hundreds,
                check,
            }),
            Box::new(Family {
                name: "bodies-apart",
                rule: "the same with two or three separate bodies and held nodes of no body in one assemblage. Non-trivial: more than two triangles, and something moves",
                quick: 6_000,
                thorough: 180_000,
                strategy: strat_apart,
                check,
            }),
            Box::new(Family {
                name: "histories",
                rule: "an assemblage solved again and again while constraints, loads and then a second body are added. Non-trivial: more than one solution",
                quick: 12_000,
                thorough: 360_000,
                strategy: strat_history,
                check: check_history,
            }),
            Box::new(Family {
                name: "uniform",
                rule: "meshes of up to 18 triangles whose whole boundary carries the traction of a uniform stress. Non-trivial: more than two triangles",
                quick: 24_000,
                thorough: 720_000,
                strategy: strat_patch,
                check: check_patch,
            }),
        ],
        assumptions: vec!["cases whose reference stiffness has a condition number above 1e10 are not judged"],
    }
}
