//! C22: saved models read back as the same model.

use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use bugi::file;
use bugi::matrix::solve::direct::DenseGaussSolver;
use proptest::prelude::*;


fn cycle(m: &Model) -> Result<(), Fail> {
    let (p, q) = (scratch("c22.bmsh"), scratch("c22-again.bmsh"));
    file::save_elas(&p, m.build());
    let read = match file::read_to_elas(&p) {
        Ok(e) => e,
        Err(e) => return Err(format!("the saved model cannot be read: {}", e).into()),
    };
    m.same(&read)?;
    // saving what was read gives the same lines
    file::save_elas(&q, read);
    let sorted = |p| {
        let mut l: Vec<String> = std::fs::read_to_string(p).unwrap().lines().map(String::from).collect();
        l.sort();
        l
    };
    let (a, b) = (sorted(&p), sorted(&q));
    ensure!(a == b, "saving again gives other lines");
    Ok(())
}

fn tags(m: &Model) -> Vec<&'static str> {
    let mut t = vec![];
    if m.cons.iter().any(|c| matches!(c.1, Con::Angle(_))) {
        t.push("angled");
    }
    if !m.forces.is_empty() {
        t.push("forces");
    }
    if !m.dist.is_empty() {
        t.push("line loads");
    }
    if m.nodes.len() > 100 {
        t.push("over 100 nodes");
    }
    t
}

fn models() -> BoxedStrategy<Model> {
    model(5)
}
fn large_models() -> BoxedStrategy<Model> {
    model(30)
}
fn check(m: &Model) -> Result<Info, Fail> {
    cycle(m)?;
    ok_tags(!m.elems.is_empty() && m.cons.len() + m.forces.len() + m.dist.len() > 0, tags(m))
}

// models that can be solved: the saved one gives the same displacements

fn check_solved(c: &Solved) -> Result<Info, Fail> {
    let m = solved_model(c);
    let p = scratch("c22s.bmsh");
    file::save_elas(&p, m.build());
    let mut read = file::read_to_elas(&p).map_err(|e| Fail::from(format!("the saved model cannot be read: {}", e)))?;
    m.same(&read)?;
    let mut own = m.build();
    let a = own.calc_displacements::<DenseGaussSolver>();
    let b = read.calc_displacements::<DenseGaussSolver>();
    // sums of loads may be rounded in another order
    let top = a.displacement_norms().into_iter().fold(0.0f64, f64::max);
    for (x, y) in a.displacement_norms().iter().zip(b.displacement_norms()) {
        ensure!((x - y).abs() <= 1e-8 * top, "displacement {} before saving, {} after", x, y);
    }
    if top > 0.0 {
        let size = (c.size as f64).exp2();
        let (u, v) = (a.displaced_nodes(size / top), b.displaced_nodes(size / top));
        ensure!(u.len() == v.len(), "{} nodes for {}", v.len(), u.len());
        for (p, q) in u.iter().zip(&v) {
            ensure!((p[0] - q[0]).abs().max((p[1] - q[1]).abs()) <= 1e-8 * size, "displaced node {:?} before saving, {:?} after", p, q);
        }
    }
    ok(top > 0.0)
}

fn check_vast(c: &Vast) -> Result<Info, Fail> {
    let m = c.model();
    cycle(&m)?;
    ok_tags(c.counts.iter().any(|n| *n > 65536), tags(&m))
}

pub fn property() -> Property {
    Property {
        id: "C22",
        families: vec![
            Box::new(Family { name: "models", rule: "a model with elements and a constraint or load", quick: 150_000, thorough: 6_000_000, strategy: models, check }),
            Box::new(Family { name: "models-large", rule: "as models, up to about a thousand nodes", quick: 4_000, thorough: 120_000, strategy: large_models, check }),
            Box::new(Family { name: "models-vast", rule: "a model with over 65536 nodes, elements, constraints or loads", quick: 160, thorough: 6_000, strategy: vast, check: check_vast }),
            Box::new(Family { name: "solved", rule: "a stably held model with a load", quick: 40_000, thorough: 1_500_000, strategy: solved, check: check_solved }),
        ],
        assumptions: vec!["the two materials the file format knows", "one concentrated force per node and one line load per pair of nodes"],
    }
}
