//! C08: connection graphs, the reverse Cuthill-McKee ordering and permutations.

use crate::ensure;
use crate::pbt::*;
use crate::tab::large;
use crate::tab::permutation;
use bugi::matrix::graph::{Graph, Permutation};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    n: usize,
    edges: Vec<(usize, usize)>,
    mask: Vec<bool>,
    order: Vec<usize>,
}

fn edges(n: usize) -> BoxedStrategy<Vec<(usize, usize)>> {
    let e = || (0..n, 0..n);
    let shuffled = move || Just((0..n).collect::<Vec<_>>()).prop_shuffle();
    prop_oneof![
        3 => prop::collection::vec(e(), 0..n),
        3 => prop::collection::vec(e(), 0..3 * n),
        1 => prop::collection::vec(e(), 2 * n..5 * n),
        // a path, a cycle, a star, a tree and a grid under random labels
        1 => shuffled().prop_map(|p| p.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>()),
        1 => shuffled().prop_map(|p| (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect::<Vec<_>>()),
        1 => shuffled().prop_map(|p| (1..p.len()).map(|i| (p[0], p[i])).collect::<Vec<_>>()),
        1 => (shuffled(), prop::collection::vec(any::<prop::sample::Index>(), n)).prop_map(|(p, k)| (1..p.len()).map(|i| (p[i], p[k[i].index(i)])).collect::<Vec<_>>()),
        1 => (shuffled(), 1..=n).prop_map(|(p, w)| {
            let mut v = vec![];
            for i in 0..p.len() {
                if (i + 1) % w != 0 && i + 1 < p.len() { v.push((p[i], p[i + 1])); }
                if i + w < p.len() { v.push((p[i + w], p[i])); }
            }
            v
        }),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    cases(prop_oneof![1 => 1usize..4, 4 => 4usize..14, 1 => 14usize..30].boxed())
}

fn strat_large() -> BoxedStrategy<Case> {
    cases(large(30, 120))
}

fn cases(n: BoxedStrategy<usize>) -> BoxedStrategy<Case> {
    n.prop_flat_map(|n| (Just(n), edges(n), prop::collection::vec(any::<bool>(), n), Just((0..n).collect::<Vec<_>>()).prop_shuffle()))
        .prop_map(|(n, edges, mask, order)| Case { n, edges, mask, order })
        .boxed()
}

type Adj = Vec<BTreeSet<usize>>;

fn adjacency(n: usize, edges: &[(usize, usize)]) -> Adj {
    let mut a = vec![BTreeSet::new(); n];
    for &(x, y) in edges {
        if x != y {
            a[x].insert(y);
            a[y].insert(x);
        }
    }
    a
}

fn distances(a: &Adj, root: usize) -> Vec<Option<usize>> {
    let mut d = vec![None; a.len()];
    d[root] = Some(0);
    let mut todo = std::collections::VecDeque::from([root]);
    while let Some(v) = todo.pop_front() {
        for &w in &a[v] {
            if d[w].is_none() {
                d[w] = Some(d[v].unwrap() + 1);
                todo.push_back(w);
            }
        }
    }
    d
}

fn faithful(g: &mut Graph, a: &Adj, c: &Case, what: &str) -> Result<(), Fail> {
    let n = a.len();
    ensure!(g.vertex_count() == n, "{}: {} vertices, expected {}", what, g.vertex_count(), n);
    for v in 0..n {
        let mut got = g.adjacent(v).to_vec();
        got.sort();
        let want: Vec<usize> = a[v].iter().cloned().collect();
        ensure!(got == want, "{}: neighbours of {} are {:?}, expected {:?}", what, v, got, want);
        ensure!(g.degree(v) == want.len(), "{}: degree of {} is {}, expected {}", what, v, g.degree(v), want.len());
        let want: Vec<usize> = want.into_iter().filter(|&w| c.mask[w]).collect();
        let mut got = g.adjacent_masked(v, &c.mask).to_vec();
        got.sort();
        ensure!(got == want, "{}: masked neighbours of {} are {:?}, expected {:?}", what, v, got, want);
        ensure!(g.degree_masked(v, &c.mask) == want.len(), "{}: masked degree of {} is {}", what, v, g.degree_masked(v, &c.mask));
        let d = distances(a, v);
        let ecc = d.iter().flatten().max().cloned().unwrap();
        let (far, len) = g.far_node(v);
        ensure!(len == ecc, "{}: greatest distance from {} is {}, expected {}", what, v, len, ecc);
        let least = (0..n).filter(|&w| d[w] == Some(ecc)).map(|w| a[w].len()).min().unwrap();
        ensure!(far < n && d[far] == Some(ecc), "{}: farthest vertex from {} is {}, at {:?} rather than {}", what, v, far, d.get(far), ecc);
        ensure!(a[far].len() == least, "{}: of the farthest vertices from {} the one found has the degree {}, another {}", what, v, a[far].len(), least);
    }
    ensure!(refuses(|| g.adjacent(n).len()), "{}: neighbours of a vertex that is not there", what);
    ensure!(refuses(|| g.clone().far_node(n)), "{}: distances from a vertex that is not there", what);
    Ok(())
}

fn bijection(p: &Permutation, n: usize, what: &str) -> Result<(), Fail> {
    let mut seen = vec![false; n];
    for i in 0..n {
        let k = p.permute(i);
        ensure!(k < n && !seen[k], "{}: {} goes to {}", what, i, k);
        seen[k] = true;
        ensure!(p.unpermute(k) == i, "{}: {} goes to {} and back to {}", what, i, k, p.unpermute(k));
    }
    let mut v: Vec<usize> = (100..100 + n).collect();
    p.permute_slice(&mut v);
    for i in 0..n {
        ensure!(v[p.permute(i)] == 100 + i, "{}: the value at {} did not move to {}: {:?}", what, i, p.permute(i), v);
    }
    ensure!(refuses(|| p.permute_slice(&mut vec![0; n + 1])), "{}: a longer list was permuted", what);
    let inv = p.clone().invert();
    for i in 0..n {
        ensure!(inv.permute(i) == p.unpermute(i) && inv.unpermute(i) == p.permute(i), "{}: the inverse disagrees at {}", what, i);
    }
    inv.permute_slice(&mut v);
    ensure!(v == (100..100 + n).collect::<Vec<_>>(), "{}: permuting there and back gives {:?}", what, v);
    ensure!(inv.invert() == *p, "{}: inverting twice gives another permutation", what);
    Ok(())
}

fn check(c: &Case) -> Result<Info, Fail> {
    let n = c.n;
    let a = adjacency(n, &c.edges);
    let mut g = Graph::from_edges(n, c.edges.clone());
    faithful(&mut g, &a, c, "from_edges")?;
    let mut h = Graph::from_lol(a.iter().map(|s| s.iter().cloned().collect::<Vec<_>>()));
    faithful(&mut h, &a, c, "from_lol")?;
    let back: Vec<(usize, usize)> = c.edges.iter().rev().map(|&(x, y)| (y, x)).collect();
    let g2 = Graph::from_edges(n, back);
    ensure!(g == g2, "the same edges in another order give another graph");
    ensure!(refuses(|| Graph::from_edges(n, vec![(0, n)])) && refuses(|| Graph::from_edges(n, vec![(n, 0)])), "an edge to a vertex that is not there");

    // another edge set is another graph
    for &(x, y) in c.edges.iter().take(2) {
        if x != y {
            let fewer: Vec<_> = c.edges.iter().cloned().filter(|&e| e != (x, y) && e != (y, x)).collect();
            ensure!(g != Graph::from_edges(n, fewer), "the graph without the edge {} to {} is the same", x, y);
        }
    }
    ensure!(g != Graph::from_edges(n + 1, c.edges.clone()), "the graph with one more vertex is the same");

    // a vertex as far out as any the search passed, so as the first one
    let far = g.pseudo_peripheral();
    let out = |v: usize| distances(&a, v).into_iter().flatten().max().unwrap();
    ensure!(far < n && distances(&a, 0)[far].is_some(), "the peripheral vertex {} is not of the component of 0", far);
    ensure!(out(far) >= out(0), "the peripheral vertex {} is {} steps from the farthest, and 0 is {}", far, out(far), out(0));
    faithful(&mut g, &a, c, "after the search for a peripheral vertex")?;

    // ordering
    let p = g.reverse_cuthill_mckee();
    bijection(&p, n, "ordering")?;
    faithful(&mut g, &a, c, "after ordering")?;
    let comp: Vec<usize> = {
        let mut comp = vec![usize::MAX; n];
        for v in 0..n {
            if comp[v] == usize::MAX {
                for (w, d) in distances(&a, v).iter().enumerate() {
                    if d.is_some() {
                        comp[w] = v;
                    }
                }
            }
        }
        comp
    };
    let parts: BTreeSet<usize> = comp.iter().cloned().collect();
    for &part in &parts {
        // the last number of a component is its root; going down, levels never decrease
        let mut members: Vec<usize> = (0..n).filter(|&v| comp[v] == part).collect();
        members.sort_by_key(|&v| std::cmp::Reverse(p.permute(v)));
        let d = distances(&a, members[0]);
        for w in members.windows(2) {
            ensure!(d[w[0]] <= d[w[1]], "ordering: vertex {} at distance {:?} from root {} is numbered after {} at {:?}", w[1], d[w[1]], members[0], w[0], d[w[0]]);
        }
    }

    // arbitrary permutations
    bijection(&Permutation::identity(n), n, "identity")?;
    ensure!((0..n).all(|i| Permutation::identity(n).permute(i) == i), "the identity moves something");
    bijection(&permutation(&c.order), n, "shuffle")?;
    let isolated = a.iter().filter(|s| s.is_empty()).count();
    ok_tags(n > 3 && a.iter().any(|s| !s.is_empty()), vec![if parts.len() > 1 { "disconnected" } else { "connected" }, if isolated > 0 { "isolated vertices" } else { "no isolated vertex" }])
}

fn strat_hundreds() -> BoxedStrategy<Case> {
    cases((257usize..=600).boxed())
}

pub fn property() -> Property {
    Property {
        id: "C08",
        families: vec![
            Box::new(Family {
                name: "graphs-hundreds",
                rule: "as graphs, of 257..600 vertices. Non-trivial: at least one edge",
                quick: 60,
                thorough: 1800,
                strategy: strat_hundreds,
                check: check,
            }),
            Box::new(Family {
                name: "graphs-large",
                rule: "as graphs, on 30..120 vertices. Non-trivial: at least one edge",
                quick: 4000,
                thorough: 120000,
                strategy: strat_large,
                check: check,
            }),
            Box::new(Family {
            name: "graphs",
            rule: "edge lists with repeats, reversals and self-loops on 1..29 vertices (random, path, cycle, star, tree, grid under random labels), a vertex mask and a shuffle. Non-trivial: more than 3 vertices and at least one edge",
            quick: 480_000,
            thorough: 14_400_000,
            strategy: strat,
            check,
        })],
        assumptions: vec![],
    }
}
