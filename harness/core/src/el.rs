//! Single elements: triangle generators and access to element matrices (C12, C13).

use crate::fem::*;
use crate::pbt::*;
use crate::tab::*;
use bugi::element::element::Element;
use bugi::element::{ElementAssemblage, NodeDof, NodeId};
use proptest::prelude::*;

/// triangles of every shape, slivers included, placed anywhere
pub fn triangle(axi: bool) -> BoxedStrategy<[P2; 3]> {
    (prop_oneof![
        3 => prop::collection::vec((-1.0f64..1.0, -1.0f64..1.0), 3).prop_map(|v| [[v[0].0, v[0].1], [v[1].0, v[1].1], [v[2].0, v[2].1]]),
        1 => (0.001f64..0.1, -1.0f64..1.0, any::<bool>()).prop_map(|(h, x, s)| if s { [[0.0, 0.0], [1.0, 0.0], [x, h]] } else { [[0.0, 0.0], [x, h], [1.0, 0.0]] }),
        1 => prop::collection::vec((-3i32..=3, -3i32..=3), 3).prop_map(|v| [[v[0].0 as f64, v[0].1 as f64], [v[1].0 as f64, v[1].1 as f64], [v[2].0 as f64, v[2].1 as f64]]),
    ], place())
        .prop_map(move |(mut p, pl)| {
            placed(&mut p, pl, axi);
            p
        })
        .prop_filter("not a triangle", |p| rounding(p) < 1e5)
        .boxed()
}

/// the same, now and then much flatter
pub fn triangle_or_hair(axi: bool) -> BoxedStrategy<[P2; 3]> {
    let hair = (7i32..30, -1.0f64..1.0, 0usize..6, place())
        .prop_map(move |(h, x, o, mut pl)| {
            let mut p = [0, 1, 2].map(|k| [[0.0, 0.0], [1.0, 0.0], [x, pow2(-h)]][ORDERS[o][k]]);
            pl.turn = 0.0;
            pl.shift = [pl.shift[0].round(), pl.shift[1].round()];
            placed(&mut p, pl, axi);
            p
        })
        .prop_filter("not a triangle", |p| rounding(p) < 1e9);
    prop_oneof![7 => triangle(axi), 1 => hair].boxed()
}

pub fn ids() -> BoxedStrategy<[usize; 3]> {
    Just((0..6usize).collect::<Vec<_>>()).prop_shuffle().prop_map(|v| [v[0], v[1], v[2]]).boxed()
}

/// an assemblage with the three corners at the given ids and other nodes in between
pub fn elas_of(pts: &[P2; 3], ids: &[usize; 3], cond: Cond, mat: Mat) -> (ElementAssemblage, [NodeId; 3]) {
    let mut elas = ElementAssemblage::new(mat.of(), cond.of());
    let n = ids.iter().max().unwrap() + 2;
    let mut all: Vec<(f64, f64)> = (0..n).map(|i| (17.0 + i as f64, -31.0 * i as f64)).collect();
    for k in 0..3 {
        all[ids[k]] = (pts[k][0], pts[k][1]);
    }
    let mut got = vec![];
    // in two batches
    got.extend(elas.add_nodes(&all[..n / 2]));
    got.extend(elas.add_nodes(&all[n / 2..]));
    let r = [got[ids[0]], got[ids[1]], got[ids[2]]];
    (elas, r)
}

/// (node, direction) out of the only public view of a degree of freedom
pub fn dof(d: &NodeDof) -> (usize, usize) {
    let text = format!("{:?}", d);
    let v: Vec<usize> = text.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    (v[0], v[1])
}

/// the triplets of an element matrix as a table in the corner order of `ids`
pub fn collect(triplets: &[(NodeDof, NodeDof, f64)], ids: &[usize; 3]) -> Result<Tab, Fail> {
    let mut t = Tab::new(6, 6);
    let place = |d: &NodeDof| -> Result<usize, Fail> {
        let (n, k) = dof(d);
        match ids.iter().position(|&i| i == n) {
            Some(p) if k < 2 => Ok(2 * p + k),
            _ => Err(format!("a coefficient for {:?}, which is no unknown of the element on {:?}", d, ids).into()),
        }
    };
    for (i, j, x) in triplets {
        t.add(place(i)?, place(j)?, *x);
    }
    Ok(t)
}

pub fn stiffness(pts: &[P2; 3], ids: &[usize; 3], cond: Cond, mat: Mat) -> Result<Tab, Fail> {
    let (elas, nids) = elas_of(pts, ids, cond, mat);
    collect(&Element::new(&elas, nids).calc_k(), ids)
}

/// the same element listed with its nodes in another order
pub fn relabelled(t: &Tab, o: &[usize; 3]) -> Tab {
    let mut r = Tab::new(6, 6);
    for i in 0..6 {
        for j in 0..6 {
            r.set(i, j, t.at(2 * o[i / 2] + i % 2, 2 * o[j / 2] + j % 2));
        }
    }
    r
}

pub const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]];
