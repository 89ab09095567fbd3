//! C18: modal analysis against a dense eigensolution of the reference stiffness and mass.

use crate::eig::*;
use crate::ensure;
use crate::fem::*;
use crate::pbt::*;
use crate::tab::*;
use bugi::element::ElementAssemblage;
use bugi::matrix::solve::direct::CholeskyEnvelopeSolver;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    model: Model,
    want: usize,
    turn: f64,
    shift: P2,
    number: Vec<usize>,
    /// factors on stiffness, density and size
    factor: [f64; 3],
}

fn strat() -> BoxedStrategy<Case> {
    strat_of(prop_oneof![4 => layered(model(2, 2, condition())), 2 => model(4, 1, condition()), 1 => model(1, 1, condition())].boxed())
}

fn strat_large() -> BoxedStrategy<Case> {
    strat_of(prop_oneof![2 => layered(model(4, 4, condition())), 1 => model(9, 1, condition())].boxed())
}

fn strat_hundreds() -> BoxedStrategy<Case> {
    strat_of(prop_oneof![2 => model(11, 9, condition()), 1 => model(60, 1, condition())].boxed())
}

fn strat_apart() -> BoxedStrategy<Case> {
    strat_of(layered(apart(2, 1)))
}

fn strat_of(m: BoxedStrategy<Model>) -> BoxedStrategy<Case> {
    m
        .prop_flat_map(|m| {
            let n = m.mesh.pts.len();
            (
                Just(m),
                prop_oneof![4 => 0usize..6, 1 => 0usize..40],
                0.0f64..6.28,
                (-3.0f64..3.0, -3.0f64..3.0),
                Just((0..n).collect::<Vec<_>>()).prop_shuffle(),
                (0.1f64..10.0, 0.1f64..10.0, 0.1f64..10.0),
            )
        })
        .prop_map(|(model, want, turn, s, number, f)| Case { model, want, turn, shift: [s.0, s.1], number, factor: [f.0, f.1, f.2] })
        .boxed()
}

/// (eigenvalue, displacements) of the modes the code finds
fn modes(m: &Model, n: usize, what: &str) -> Result<Vec<(f64, Vec<f64>)>, Fail> {
    modes_in(&mut m.build(), m, n, what)
}

fn modes_in(elas: &mut ElementAssemblage, m: &Model, n: usize, what: &str) -> Result<Vec<(f64, Vec<f64>)>, Fail> {
    let found = attempt(|| elas.calc_modes(n)).map_err(|e| format!("{}: panicked: {}", what, e))?;
    ensure!(found.len() == n, "{}: {} modes asked for, {} returned", what, n, found.len());
    let mut res = vec![];
    for (i, d) in found.iter().enumerate() {
        let Some(w) = d.frequency() else { return Err(format!("{}: mode {} has no frequency", what, i).into()) };
        ensure!(w > 0.0 && w.is_finite(), "{}: mode {} has frequency {}", what, i, w);
        res.push((w * w, displacements(d, &m.mesh.pts)));
    }
    Ok(res)
}

fn judge(found: &[(f64, Vec<f64>)], cons: &[Con], basis: &Tab, vals: &[f64], k: &Tab, mm: &Tab, what: &str) -> Result<(), Fail> {
    let mut raw = vec![];
    for (i, (l, u)) in found.iter().enumerate() {
        let big = vnorm(u);
        for (n, con) in cons.iter().enumerate() {
            for d in con.fixed() {
                let x = u[2 * n] * d[0] + u[2 * n + 1] * d[1];
                ensure!(x.abs() <= 1e-11 * big, "{}: in mode {} node {} moves by {:e} along its constraint {:?}", what, i, n, x, con);
            }
        }
        raw.push((*l, basis.t().mulv(u)));
    }
    vectors_hold(&raw, vals, k, mm, what)
}

fn strat_history() -> BoxedStrategy<History> {
    history(2, 2)
}

fn check_history(c: &History) -> Result<Info, Fail> {
    let (mut solved, mut skipped) = (0, 0);
    c.replay(|elas, m, k| {
        let p = m.basis();
        if p.c == 0 || m.solve().is_none() || m.mesh.rounding() > 1e4 {
            skipped += 1;
            return Ok(());
        }
        let sym = |t: &Tab| t.plus(&t.t()).scale(0.5);
        let (kk, mm) = (sym(&p.t().mul(&m.k()).mul(&p)), sym(&p.t().mul(&m.m()).mul(&p)));
        let (vals, _) = gen_eigen(&kk, &mm).ok_or_else(|| String::from("reference: mass matrix not definite"))?;
        if !(vals[0] > 0.0 && vals[vals.len() - 1] / vals[0] < 1e7) {
            skipped += 1;
            return Ok(());
        }
        solved += 1;
        let what = format!("after {} constraints", m.cons.len());
        if k % 3 == 0 {
            // a static solution in between changes nothing
            let _ = attempt(|| elas.calc_displacements::<CholeskyEnvelopeSolver>());
        }
        let found = modes_in(elas, m, (1 + k % 4).min(p.c), &what)?;
        judge(&found, &m.constraints(), &p, &vals, &kk, &mm, &what)
    })?;
    ok_tags(solved > 1, vec![if skipped > 0 { "held only later" } else { "always held" }])
}

fn check(c: &Case) -> Result<Info, Fail> {
    let m = &c.model;
    let p = m.basis();
    if p.c == 0 {
        ensure!(modes(m, 0, "held everywhere")?.is_empty(), "modes of a body held everywhere");
        return ok_tags(false, vec!["held everywhere"]);
    }
    if m.solve().is_none() {
        return ok_tags(false, vec!["mechanism or nearly"]);
    }
    let sym = |t: &Tab| t.plus(&t.t()).scale(0.5);
    let (k, mm) = (sym(&p.t().mul(&m.k()).mul(&p)), sym(&p.t().mul(&m.m()).mul(&p)));
    let (vals, _) = gen_eigen(&k, &mm).ok_or_else(|| String::from("reference: mass matrix not definite"))?;
    let (lo, hi) = (vals[0], vals[vals.len() - 1]);
    if !(lo > 0.0 && hi / lo < 1e7) || m.mesh.rounding() > 1e4 {
        return ok_tags(false, vec!["ill-conditioned"]);
    }
    let want = c.want.min(p.c);
    judge(&modes(m, want, "modes")?, &m.constraints(), &p, &vals, &k, &mm, "modes")?;
    // the same body renumbered, turned, moved
    let mut t = m.clone();
    m.mesh.pts.iter().enumerate().for_each(|(i, q)| t.mesh.pts[c.number[i]] = *q);
    t.mesh.tris.iter_mut().for_each(|tri| {
        *tri = [c.number[tri[1]], c.number[tri[0]], c.number[tri[2]]];
    });
    t.mesh.tris.reverse();
    let plane = m.cond.plane();
    let turn = if plane { c.turn } else { 0.0 };
    // in proportion to the smallest element: moving a small body far away would round its shape
    let edge = |p: &[f64; 2], q: &[f64; 2]| vnorm(&[p[0] - q[0], p[1] - q[1]]);
    let size = (0..m.mesh.tris.len()).map(|i| m.mesh.tri(i)).map(|t| edge(&t[0], &t[1]).max(edge(&t[1], &t[2]))).fold(f64::MAX, f64::min);
    let (sn, cs) = turn.sin_cos();
    let shift = if plane { [c.shift[0] * size, c.shift[1] * size] } else { [0.0, c.shift[1] * size] };
    t.mesh.pts.iter_mut().for_each(|q| *q = [cs * q[0] - sn * q[1] + shift[0], sn * q[0] + cs * q[1] + shift[1]]);
    t.cons = m
        .constraints()
        .iter()
        .enumerate()
        .filter(|x| *x.1 != Con::Free)
        .map(|(n, k)| {
            let k = match *k {
                Con::X if plane => Con::Angle(turn),
                Con::Y if plane => Con::Angle(turn + std::f64::consts::FRAC_PI_2),
                Con::Angle(a) => Con::Angle(a + turn),
                other => other,
            };
            (c.number[n], k)
        })
        .collect();
    // and made of another material, at another size
    let [fe, fr, fs] = c.factor;
    t.mat.e *= fe;
    t.mat.rho *= fr;
    t.mesh.pts.iter_mut().flatten().for_each(|x| *x *= fs);
    let scaled: Vec<f64> = vals.iter().map(|l| l * fe / (fr * fs * fs)).collect();
    let pt = t.basis();
    let (kt, mt) = (sym(&pt.t().mul(&t.k()).mul(&pt)), sym(&pt.t().mul(&t.m()).mul(&pt)));
    judge(&modes(&t, want, "moved body")?, &t.constraints(), &pt, &scaled, &kt, &mt, "moved body")?;
    let close = vals[..(want + 1).min(vals.len())].windows(2).any(|w| w[1] - w[0] < 1e-3 * w[1]);
    let angled = m.constraints().iter().any(|k| matches!(k, Con::Angle(_)));
    ok_tags(
        want > 1 && m.mesh.tris.len() > 2,
        vec![
            if close { "close or repeated" } else { "separated" },
            if angled { "angled constraints" } else { "axis constraints" },
            match m.cond { Cond::Stress(_) => "plane stress", Cond::Strain(_) => "plane strain", Cond::Axi => "axisymmetric" },
        ],
    )
}

pub fn property() -> Property {
    Property {
        id: "C18",
        families: vec![Box::new(Family {
            name: "modes",
            rule: "constrained bodies of up to 8 triangles, once as generated and once renumbered, turned, moved and of another size and material. Non-trivial: more than one mode and more than two triangles",
            quick: 90_000,
            thorough: 2_700_000,
            strategy: strat,
            check,
        }),
        Box::new(Family {
            name: "modes-hundreds",
            rule: "the same with bodies of up to 198 triangles. Non-trivial: more than one mode and more than two triangles",
            quick: 300,
            thorough: 9_000,
            strategy: strat_hundreds,
            check,
        }),
        Box::new(Family {
            name: "bodies-apart",
            rule: "the same with two or three separate bodies and held nodes of no body in one assemblage. Non-trivial: more than one mode and more than two triangles",
            quick: 6_000,
            thorough: 180_000,
            strategy: strat_apart,
            check,
        }),
        Box::new(Family {
            name: "histories",
            rule: "an assemblage whose modes are computed again and again while constraints, loads and then a second body are added, static solutions in between. Non-trivial: more than one solution",
            quick: 12_000,
            thorough: 360_000,
            strategy: strat_history,
            check: check_history,
        }),
        Box::new(Family {
            name: "modes-large",
            rule: "the same with bodies of up to 32 triangles. Non-trivial: more than one mode and more than two triangles",
            quick: 2_000,
            thorough: 60_000,
            strategy: strat_large,
            check,
        })],
        assumptions: vec!["bodies whose eigenvalues span more than seven orders of magnitude are not judged"],
    }
}
