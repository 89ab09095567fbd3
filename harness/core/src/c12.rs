//! C12: element stiffness against the constant-strain triangle theory.

use crate::el::*;
use crate::ensure;
use crate::fem::*;
use crate::pbt::*;
use crate::tab::*;
use bugi::element::ElementDescriptor;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pts: [P2; 3],
    cond: Cond,
    mat: Mat,
    /// node ids of the three corners among some unrelated nodes
    ids: [usize; 3],
    turn: f64,
    shift: P2,
}

fn strat() -> BoxedStrategy<Case> {
    condition()
        .prop_flat_map(|cond| (triangle_or_hair(!cond.plane()), Just(cond), material(), ids(), 0.0f64..6.28, (-5.0f64..5.0, -5.0f64..5.0)))
        .prop_map(|(pts, cond, mat, ids, turn, s)| Case { pts, cond, mat, ids, turn, shift: [s.0, s.1] })
        .boxed()
}

fn check(c: &Case) -> Result<Info, Fail> {
    let want = k_el(c.cond, c.mat, &c.pts);
    let size = want.maxabs();
    let tol = 1e-13 * rounding(&c.pts) * size;
    let k = stiffness(&c.pts, &c.ids, c.cond, c.mat)?;
    let close = |a: &Tab, b: &Tab, f: f64, what: &str| -> Result<(), Fail> {
        let d = a.sub(b).maxabs();
        ensure!(d <= f * tol, "{}: off by {:e} of {:e}\n got {:?}\nwant {:?}", what, d, size, a.v, b.v);
        Ok(())
    };
    close(&k, &want, 1.0, "stiffness")?;
    close(&k, &k.t(), 1.0, "symmetry")?;
    let (vals, _) = jacobi(&k.plus(&k.t()).scale(0.5));
    ensure!(vals[0] >= -tol * 10.0, "negative stiffness {:e} of {:e}", vals[0], size);
    // no force under rigid motion
    let far = c.pts.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    let mut rigid = vec![("rigid y motion", vec![0.0, 1.0, 0.0, 1.0, 0.0, 1.0], 1.0)];
    if c.cond.plane() {
        rigid.push(("rigid x motion", vec![1.0, 0.0, 1.0, 0.0, 1.0, 0.0], 1.0));
        rigid.push(("rigid turn", c.pts.iter().flat_map(|p| vec![-p[1], p[0]]).collect(), far));
    }
    for (what, u, s) in rigid {
        let f = k.mulv(&u);
        ensure!(f.iter().all(|x| x.abs() <= 6.0 * tol * s), "{} produces forces {:?} (stiffness up to {:e})", what, f, size);
    }
    // listed in any order
    for o in &ORDERS[1..] {
        let p = [c.pts[o[0]], c.pts[o[1]], c.pts[o[2]]];
        let i = [c.ids[o[0]], c.ids[o[1]], c.ids[o[2]]];
        close(&stiffness(&p, &i, c.cond, c.mat)?, &relabelled(&k, o), 2.0, "other node order")?;
    }
    // elsewhere, and turned
    let moved = |p: P2| if c.cond.plane() { [p[0] + c.shift[0], p[1] + c.shift[1]] } else { [p[0], p[1] + c.shift[1]] };
    let p = [moved(c.pts[0]), moved(c.pts[1]), moved(c.pts[2])];
    let km = stiffness(&p, &c.ids, c.cond, c.mat)?;
    let d = km.sub(&k).maxabs();
    ensure!(d <= 2e-13 * (rounding(&c.pts) + rounding(&p)) * size, "moved: off by {:e} of {:e}", d, size);
    if c.cond.plane() {
        let (s, co) = c.turn.sin_cos();
        let rot = |p: P2| [co * p[0] - s * p[1], s * p[0] + co * p[1]];
        let p = [rot(c.pts[0]), rot(c.pts[1]), rot(c.pts[2])];
        let kt = stiffness(&p, &c.ids, c.cond, c.mat)?;
        let mut r = Tab::new(6, 6);
        for i in 0..3 {
            r.set(2 * i, 2 * i, co);
            r.set(2 * i, 2 * i + 1, -s);
            r.set(2 * i + 1, 2 * i, s);
            r.set(2 * i + 1, 2 * i + 1, co);
        }
        close(&kt, &r.mul(&k).mul(&r.t()), 10.0, "turned")?;
    }
    // the element is accepted by an assemblage
    let (mut elas, nids) = elas_of(&c.pts, &c.ids, c.cond, c.mat);
    elas.add_element(ElementDescriptor::new(nids));
    let tag = if area(&c.pts) < 0.0 { "clockwise" } else { "counterclockwise" };
    let shape = if sliver(&c.pts) > 30.0 { "sliver" } else { "ordinary" };
    ok_tags(c.mat.nu != 0.0 && area(&c.pts) != 0.5, vec![tag, shape, match c.cond { Cond::Stress(_) => "plane stress", Cond::Strain(_) => "plane strain", Cond::Axi => "axisymmetric" }])
}

// ------------------------------------------------------------ degenerate elements

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Flat {
    pts: [P2; 3],
    cond: Cond,
    ids: [usize; 3],
}

fn strat_flat() -> BoxedStrategy<Flat> {
    let i = || -40i32..40;
    // on a line with whole coordinates, so that rounding does not decide; points may coincide
    ((i(), i()), (-5i32..=5, -5i32..=5), prop::collection::vec(-5i32..=5, 3), condition(), ids(), prop_oneof![Just(1.0), Just(0.25), Just(8.0)])
        .prop_map(|(a, d, t, cond, ids, s)| {
            let p = |k: usize| [s * (100 + a.0 + d.0 * t[k]) as f64, s * (a.1 + d.1 * t[k]) as f64];
            Flat { pts: [p(0), p(1), p(2)], cond, ids }
        })
        .boxed()
}

fn check_flat(c: &Flat) -> Result<Info, Fail> {
    let mat = Mat { e: 1.0, nu: 0.25, rho: 1.0 };
    for o in &ORDERS {
        let p = [c.pts[o[0]], c.pts[o[1]], c.pts[o[2]]];
        let (mut elas, nids) = elas_of(&p, &c.ids, c.cond, mat);
        ensure!(refuses(|| elas.add_element(ElementDescriptor::new(nids))), "an element of zero area was accepted: {:?}", p);
    }
    let distinct = c.pts[0] != c.pts[1] && c.pts[1] != c.pts[2] && c.pts[0] != c.pts[2];
    ok_tags(distinct, vec![if distinct { "collinear" } else { "coincident" }])
}

pub fn property() -> Property {
    Property {
        id: "C12",
        families: vec![
            Box::new(Family {
                name: "stiffness",
                rule: "triangles of every shape, orientation and place under random materials and conditions. Non-trivial: a material that contracts sideways and an area other than one half",
                quick: 240_000,
                thorough: 7_200_000,
                strategy: strat,
                check,
            }),
            Box::new(Family {
                name: "degenerate",
                rule: "three collinear or coincident nodes with coordinates that are exact. Non-trivial: three distinct nodes",
                quick: 80_000,
                thorough: 2_400_000,
                strategy: strat_flat,
                check: check_flat,
            }),
        ],
        assumptions: vec!["axisymmetric elements are integrated with the three interior points the method documents, and lie off the axis"],
    }
}
