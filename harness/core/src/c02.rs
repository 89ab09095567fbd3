//! C02: every storage scheme against a plain table: construction, reads, writes and conversions.

use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::{BiEnvelope, CompressedRow, Diagonal, Dictionary, LinearMatrix, LowerRowEnvelope, LowerTriangular, MatrixLike, UpperTriangular};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type Put = (usize, usize, f64);

fn puts(n: usize, count: usize) -> BoxedStrategy<Vec<Put>> {
    prop::collection::vec((0..n + 2, 0..n + 2, wide()), 0..count).boxed()
}

/// a write through an index, which may refuse but must change nothing else when it does
fn index_write<M: MatrixLike>(m: &mut M, loc: (usize, usize), x: f64) -> bool {
    !refuses(|| m[loc] = x)
}

// ------------------------------------------------------------ triangular and diagonal

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TriCase {
    n: usize,
    puts: Vec<Put>,
}

fn strat_tri() -> BoxedStrategy<TriCase> {
    tri_cases(dims(8), 40)
}

fn strat_tri_large() -> BoxedStrategy<TriCase> {
    tri_cases(large(9, 30), 8)
}

fn tri_cases(dim: BoxedStrategy<usize>, writes: usize) -> BoxedStrategy<TriCase> {
    dim.prop_flat_map(move |n| puts(n, writes).prop_map(move |puts| TriCase { n, puts })).boxed()
}

fn writes<M: MatrixLike>(m: &mut M, n: usize, puts: &[Put], stored: fn(usize, usize) -> bool, what: &str) -> Result<Tab, Fail> {
    let mut t = Tab::new(n, n);
    reads_agree(m, &t, false)?;
    for (k, &(i, j, x)) in puts.iter().enumerate() {
        let keeps = i < n && j < n && stored(i, j);
        match k % 3 {
            0 => m.put((i, j), x),
            1 => {
                let done = index_write(m, (i, j), x);
                ensure!(done == keeps, "{}: index write at ({},{}) {} (dimension {})", what, i, j, if done { "accepted" } else { "refused" }, n);
            }
            _ => m.mutate((i, j), |y| *y = x),
        }
        if keeps {
            t.set(i, j, x);
        }
        reads_agree(m, &t, false).map_err(|f| Fail { msg: format!("{}: after writing {} at ({},{}): {}", what, x, i, j, f.msg), sig: None })?;
    }
    Ok(t)
}

fn check_tri(c: &TriCase) -> Result<Info, Fail> {
    let n = c.n;
    let mut lo = LowerTriangular::zeros(n);
    let tl = writes(&mut lo, n, &c.puts, |i, j| j <= i, "lower")?;
    let mut up = UpperTriangular::zeros((n, n));
    let tu = writes(&mut up, n, &c.puts, |i, j| j >= i, "upper")?;
    let mut dg = Diagonal::zeros(n);
    let td = writes(&mut dg, n, &c.puts, |i, j| j == i, "diagonal")?;

    // equal to one rebuilt in another order, unequal to one that differs
    let mut lo2 = LowerTriangular::zeros(n);
    let mut up2 = UpperTriangular::zeros(n);
    for i in (0..n).rev() {
        for j in 0..n {
            lo2.put((i, j), tl.at(i, j));
            up2.put((i, j), tu.at(i, j));
        }
    }
    ensure!(lo == lo2 && up == up2, "equal triangular matrices compare unequal");
    let k = c.puts.len() % n;
    lo2[(n - 1, k)] = other_than(lo2[(n - 1, k)]);
    up2[(k, n - 1)] = other_than(up2[(k, n - 1)]);
    ensure!(lo != lo2 && up != up2, "different triangular matrices compare equal");

    let d: Vec<f64> = (0..n).map(|i| td.at(i, i)).collect();
    let dv = Diagonal::from(d.clone());
    reads_agree(&dv, &td, false)?;
    ensure!(dv == dg, "equal diagonal matrices compare unequal");
    ensure!((0..n).all(|i| dv[i] == d[i]), "diagonal entries read by single index differ");
    ensure!(refuses(|| dv[n]), "diagonal entry past the end");
    ensure!(dg.num_neg() == d.iter().filter(|x| **x < 0.0).count(), "num_neg = {} for {:?}", dg.num_neg(), d);
    let p: f64 = d.iter().product();
    ensure!((dg.product() - p).abs() <= 1e-12 * p.abs(), "product = {} for {:?}", dg.product(), d);
    let p: f64 = d.iter().map(|x| x * 0.5).product();
    ensure!((dg.product_scaled(0.5) - p).abs() <= 1e-12 * p.abs(), "product_scaled = {} for {:?}", dg.product_scaled(0.5), d);
    let m = d.iter().sum::<f64>() / n as f64;
    let s = d.iter().map(|x| x.abs()).sum::<f64>();
    ensure!((dg.mean() - m).abs() <= 1e-12 * s, "mean = {} for {:?}", dg.mean(), d);
    let mut dt = dg.clone();
    dt.transpose();
    reads_agree(&dt, &td, false)?;
    let mut dw = dg.clone();
    dw[k] = 77.0;
    let mut tw = td.clone();
    tw.set(k, k, 77.0);
    reads_agree(&dw, &tw, false)?;
    ensure!(dw != dg || td == tw, "different diagonal matrices compare equal");
    ok(c.puts.len() >= 3 && n > 1)
}

// ------------------------------------------------------------ dictionary and compressed row

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SparseCase {
    t: Tab,
    /// positions holding an explicit zero
    zeros: Vec<(usize, usize)>,
    /// order in which labelled values are supplied
    keys: Vec<u32>,
    puts: Vec<Put>,
}

fn strat_sparse() -> BoxedStrategy<SparseCase> {
    sparse_cases(dims(7), dims(7))
}

fn strat_sparse_large() -> BoxedStrategy<SparseCase> {
    sparse_cases(large(1, 30), large(8, 30))
}

fn sparse_cases(r: BoxedStrategy<usize>, c: BoxedStrategy<usize>) -> BoxedStrategy<SparseCase> {
    (r, c, prop::sample::select(vec![0u32, 30, 60, 85, 95, 99]))
        .prop_flat_map(|(r, c, z)| {
            (sparse_table(r, c, z, wide()), prop::collection::vec((0..r, 0..c), 0..3), prop::collection::vec(any::<u32>(), r * c), prop::collection::vec((0..r + 2, 0..c + 2, wide()), 0..12))
        })
        .prop_map(|(t, zeros, keys, puts)| SparseCase { t, zeros, keys, puts })
        .boxed()
}

fn labelled(c: &SparseCase) -> Vec<((usize, usize), f64)> {
    let t = &c.t;
    let mut v: Vec<(u32, ((usize, usize), f64))> = vec![];
    for i in 0..t.r {
        for j in 0..t.c {
            if t.at(i, j) != 0.0 || c.zeros.contains(&(i, j)) {
                v.push((c.keys[i * t.c + j], ((i, j), t.at(i, j))));
            }
        }
    }
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

fn dictionary(t: &Tab, vals: &[((usize, usize), f64)]) -> Dictionary {
    let mut d = Dictionary::zeros((t.r, t.c));
    for (loc, x) in vals {
        d.put(*loc, *x);
    }
    d
}

fn rows_of(m: &CompressedRow, t: &Tab, stored: usize) -> Result<(), Fail> {
    let nz = t.v.iter().filter(|x| **x != 0.0).count();
    let n = m.non_zero_count();
    ensure!(n >= nz && n <= stored.max(nz), "non_zero_count = {} with {} non-zeros and {} stored", n, nz, stored);
    let mut seen = 0;
    for i in 0..t.r {
        let mut row: Vec<(usize, f64)> = m.row_nzs(i).collect();
        seen += row.len();
        row.retain(|x| x.1 != 0.0);
        row.sort_by_key(|x| x.0);
        let want: Vec<(usize, f64)> = (0..t.c).map(|j| (j, t.at(i, j))).filter(|x| x.1 != 0.0).collect();
        ensure!(row == want, "stored row {} = {:?}, expected {:?}", i, row, want);
    }
    ensure!(seen == n, "rows hold {} entries, non_zero_count = {}", seen, n);
    Ok(())
}

fn check_sparse(c: &SparseCase) -> Result<Info, Fail> {
    let t = &c.t;
    let (r, cc) = (t.r, t.c);
    let vals = labelled(c);

    // dictionary, by puts and by rows
    let d = dictionary(t, &vals);
    reads_agree(&d, t, false)?;
    let df = Dictionary::from_flat((r, cc), t.v.clone());
    reads_agree(&df, t, false)?;
    let mut edges: Vec<(usize, usize)> = d.edges().filter(|l| t.at(l.0, l.1) != 0.0).collect();
    edges.sort();
    let want: Vec<(usize, usize)> = d.nzs().filter(|x| x.1 != 0.0).map(|x| x.0).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    ensure!(edges == want, "edges {:?}, expected {:?}", edges, want);

    // envelope and row bounds from the non-zeros
    let (env, bnd) = (df.envelope(), df.row_bounds());
    ensure!(env.len() == r && bnd.len() == r, "envelope of {} rows, bounds of {} rows for {}", env.len(), bnd.len(), r);
    for i in 0..r {
        let nz: Vec<usize> = (0..cc).filter(|&j| t.at(i, j) != 0.0).collect();
        let e = nz.iter().filter(|&&j| j <= i).min().map_or(0, |&j| i - j + 1);
        ensure!(env[i] == e, "envelope of row {} = {}, expected {}", i, env[i], e);
        if let (Some(&a), Some(&b)) = (nz.first(), nz.last()) {
            ensure!(bnd[i] == (a, b + 1), "bounds of row {} = {:?}, expected {:?}", i, bnd[i], (a, b + 1));
        }
    }
    let dense = LinearMatrix::from(d.clone());
    reads_agree(&dense, t, true)?;

    // compressed rows, by three routes
    let mut csrs = vec![
        ("from_labeled_vals", CompressedRow::from_labeled_vals((r, cc), vals.clone()), vals.len()),
        ("from dictionary", CompressedRow::from(d.clone()), vals.len()),
        ("from_flat", CompressedRow::from_flat((r, cc), t.v.clone()), vals.len()),
    ];
    if t.v.iter().all(|x| *x == 0.0) {
        csrs.push(("zeros", CompressedRow::zeros((r, cc)), 0));
    }
    for (how, m, stored) in csrs.iter() {
        let ctx = |f: Fail| Fail { msg: format!("compressed row {}: {}", how, f.msg), sig: None };
        reads_agree(m, t, false).map_err(ctx)?;
        rows_of(m, t, *stored).map_err(ctx)?;
        // writes: stored entries change, others refuse or ignore and change nothing
        let mut w = m.clone();
        let mut tw = t.clone();
        for (k, &(i, j, x)) in c.puts.iter().enumerate() {
            let before = w.get((i, j)).cloned();
            if k % 2 == 0 {
                w.put((i, j), x);
            } else {
                index_write(&mut w, (i, j), x);
            }
            let after = w.get((i, j)).cloned();
            ensure!(after == before || after == Some(x), "compressed row {}: writing {} at ({},{}) gave {:?}", how, x, i, j, after);
            if i < r && j < cc {
                if t.at(i, j) != 0.0 {
                    ensure!(after == Some(x), "compressed row {}: a stored entry was not written", how);
                }
                tw.set(i, j, after.unwrap());
            }
            reads_agree(&w, &tw, false).map_err(|f| Fail { msg: format!("compressed row {} after writing at ({},{}): {}", how, i, j, f.msg), sig: None })?;
        }
        ensure!(refuses(|| m[(r, 0)]) && refuses(|| m[(0, cc)]), "compressed row read outside");
    }
    if c.zeros.is_empty() {
        ensure!(csrs[0].1 == csrs[1].1 && csrs[0].1 == csrs[2].1, "the same compressed matrix by three routes compares unequal");
    }

    // dictionary writes
    let mut w = d.clone();
    let mut tw = t.clone();
    for (k, &(i, j, x)) in c.puts.iter().enumerate() {
        let inside = i < r && j < cc;
        match k % 3 {
            0 => w.put((i, j), x),
            1 => {
                let done = index_write(&mut w, (i, j), x);
                ensure!(done == inside, "dictionary index write at ({},{})", i, j);
            }
            _ => {
                w.mutate((i, j), |y| *y += x);
                if inside {
                    let y = tw.at(i, j);
                    tw.set(i, j, y + x);
                }
            }
        }
        if inside && k % 3 != 2 {
            tw.set(i, j, x);
        }
        reads_agree(&w, &tw, false).map_err(|f| Fail { msg: format!("dictionary after writing at ({},{}): {}", i, j, f.msg), sig: None })?;
    }
    reads_agree(&d, t, false)?;
    ensure!(refuses(|| d[(r, 0)]) && refuses(|| d[(0, cc)]), "dictionary read outside");
    let id = CompressedRow::eye(r.max(2));
    reads_agree(&id, &Tab::eye(r.max(2)), false).map_err(|f| Fail { msg: format!("CompressedRow::eye: {}", f.msg), sig: None })?;
    let empty_rows = (0..r).filter(|&i| (0..cc).all(|j| t.at(i, j) == 0.0)).count();
    ok_tags(vals.len() >= 2 && r * cc > 2, if empty_rows > 0 { vec!["has empty rows"] } else { vec!["no empty row"] })
}

// ------------------------------------------------------------ envelopes

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EnvCase {
    /// (first column, one past the last column) stored in each row, containing the diagonal
    bounds: Vec<(usize, usize)>,
    t: Tab,
    keys: Vec<u32>,
    puts: Vec<Put>,
}

fn strat_env() -> BoxedStrategy<EnvCase> {
    env_cases(dims(9), 12)
}

fn strat_env_large() -> BoxedStrategy<EnvCase> {
    env_cases(large(10, 30), 4)
}

fn env_cases(dim: BoxedStrategy<usize>, writes: usize) -> BoxedStrategy<EnvCase> {
    dim
        .prop_flat_map(move |n| (bounds(n).prop_flat_map(|b| in_bounds_table(b, wide())), prop::collection::vec(any::<u32>(), n * n), puts(n, writes)))
        .prop_map(|((bounds, t), keys, puts)| EnvCase { bounds, t, keys, puts })
        .boxed()
}

fn lower_of(t: &Tab) -> Tab {
    let mut l = t.clone();
    for i in 0..t.r {
        for j in i + 1..t.c {
            l.set(i, j, 0.0);
        }
    }
    l
}

fn lower_reads(m: &LowerRowEnvelope, t: &Tab, env: &[usize]) -> Result<(), Fail> {
    reads_agree(m, t, false)?;
    ensure!(m.envelope() == env, "envelope {:?}, expected {:?}", m.envelope(), env);
    ensure!(m.non_zero_count() == env.iter().sum::<usize>(), "non_zero_count {} for envelope {:?}", m.non_zero_count(), env);
    for i in 0..t.r {
        let first = i + 1 - env[i];
        let want: Vec<f64> = (first..=i).map(|j| t.at(i, j)).collect();
        let (s, row) = m.row_stored(i);
        ensure!(s == first && row == &want[..], "stored row {} = {:?} from {}, expected {:?} from {}", i, row, s, want, first);
        let (s, row) = m.row_stored_nodiag(i);
        ensure!(s == first && row == &want[..want.len() - 1], "stored row {} without diagonal = {:?} from {}", i, row, s);
    }
    Ok(())
}

fn check_env(c: &EnvCase) -> Result<Info, Fail> {
    let n = c.t.r;
    let env: Vec<usize> = (0..n).map(|i| i + 1 - c.bounds[i].0).collect();
    let lower = lower_of(&c.t);

    // by hand, in a scrambled order
    let mut order: Vec<(u32, usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| (c.keys[i * n + j], i, j)).collect();
    order.sort();
    let mut a = LowerRowEnvelope::from_envelope(env.clone());
    lower_reads(&a, &Tab::new(n, n), &env)?;
    for (k, &(_, i, j)) in order.iter().enumerate() {
        let keeps = j <= i && j >= c.bounds[i].0;
        if k % 2 == 0 {
            a.put((i, j), c.t.at(i, j));
        } else {
            let done = index_write(&mut a, (i, j), c.t.at(i, j));
            ensure!(done == keeps, "lower envelope: index write at ({},{}) {}", i, j, if done { "accepted" } else { "refused" });
        }
    }
    lower_reads(&a, &lower, &env)?;
    for i in 0..n {
        let mut w = a.clone();
        let (s, row) = w.row_stored_mut(i);
        ensure!(s == c.bounds[i].0 && row.len() == env[i], "row_stored_mut({}) starts at {} with {} values", i, s, row.len());
        row[0] = 99.0;
        let mut tw = lower.clone();
        tw.set(i, s, 99.0);
        lower_reads(&w, &tw, &env)?;
    }

    // conversions: the dictionary's upper part is ignored by the lower envelope
    let d = {
        let mut d = Dictionary::zeros((n, n));
        for &(_, i, j) in &order {
            if c.t.at(i, j) != 0.0 {
                d.put((i, j), c.t.at(i, j));
            }
        }
        d
    };
    let b = LowerRowEnvelope::from(d.clone());
    lower_reads(&b, &lower, &env).map_err(|f| Fail { msg: format!("lower envelope from dictionary: {}", f.msg), sig: None })?;
    let f = LowerRowEnvelope::from_flat((n, n), lower.v.clone());
    lower_reads(&f, &lower, &env).map_err(|f| Fail { msg: format!("lower envelope from_flat: {}", f.msg), sig: None })?;
    if lower != c.t {
        ensure!(refuses(|| LowerRowEnvelope::from_flat((n, n), c.t.v.clone())), "a value above the diagonal was accepted");
    }

    let bi = BiEnvelope::from(d.clone());
    reads_agree(&bi, &c.t, false).map_err(|f| Fail { msg: format!("full envelope from dictionary: {}", f.msg), sig: None })?;
    for i in 0..n {
        let (s, row) = bi.row_stored(i);
        let want: Vec<f64> = (c.bounds[i].0..c.bounds[i].1).map(|j| c.t.at(i, j)).collect();
        ensure!(s == c.bounds[i].0 && row == &want[..], "stored row {} = {:?} from {}, expected {:?} from {}", i, row, s, want, c.bounds[i].0);
    }
    let g = LowerRowEnvelope::from_bienv(&bi);
    lower_reads(&g, &lower, &env).map_err(|f| Fail { msg: format!("lower envelope from full envelope: {}", f.msg), sig: None })?;
    ensure!(a == b && b == f && f == g, "the same lower envelope by four routes compares unequal");

    // a dictionary that also holds zeros, entered as such or left by entries that cancelled, is still the same matrix
    let mut dz = d.clone();
    for (k, &(i, j, x)) in c.puts.iter().enumerate() {
        if i < n && j < n && c.t.at(i, j) == 0.0 {
            dz[(i, j)] += if k % 2 == 0 { x } else { 0.0 };
            dz[(i, j)] = 0.0;
        }
    }
    reads_agree(&LowerRowEnvelope::from(dz.clone()), &lower, false).map_err(|f| Fail { msg: format!("lower envelope from a dictionary with zeros: {}", f.msg), sig: None })?;
    reads_agree(&BiEnvelope::from(dz.clone()), &c.t, false).map_err(|f| Fail { msg: format!("full envelope from a dictionary with zeros: {}", f.msg), sig: None })?;
    reads_agree(&LowerRowEnvelope::from_bienv(&BiEnvelope::from(dz)), &lower, false).map_err(|f| Fail { msg: format!("lower from full envelope of a dictionary with zeros: {}", f.msg), sig: None })?;

    // writes into both envelopes
    let mut w = a.clone();
    let mut tw = lower.clone();
    let mut wb = bi.clone();
    let mut tb = c.t.clone();
    for (k, &(i, j, x)) in c.puts.iter().enumerate() {
        let inside = i < n && j < n;
        let keeps_l = inside && j <= i && j >= c.bounds[i].0;
        let keeps_b = inside && j >= c.bounds[i].0 && j < c.bounds[i].1;
        if k % 2 == 0 {
            w.put((i, j), x);
            wb.put((i, j), x);
        } else {
            ensure!(index_write(&mut w, (i, j), x) == keeps_l, "lower envelope: index write at ({},{})", i, j);
            ensure!(index_write(&mut wb, (i, j), x) == keeps_b, "full envelope: index write at ({},{})", i, j);
        }
        if keeps_l {
            tw.set(i, j, x);
        }
        if keeps_b {
            tb.set(i, j, x);
        }
        lower_reads(&w, &tw, &env).map_err(|f| Fail { msg: format!("lower envelope after writing at ({},{}): {}", i, j, f.msg), sig: None })?;
        reads_agree(&wb, &tb, false).map_err(|f| Fail { msg: format!("full envelope after writing at ({},{}): {}", i, j, f.msg), sig: None })?;
    }
    ensure!(refuses(|| a[(n, 0)]) && refuses(|| a[(0, n)]) && refuses(|| bi[(n, 0)]) && refuses(|| bi[(0, n)]), "envelope read outside");
    let k = c.puts.len() % n;
    let mut bad = env.clone();
    bad[k] = 0;
    ensure!(refuses(|| LowerRowEnvelope::from_envelope(bad.clone())), "an empty envelope row was accepted");
    bad[k] = k + 2;
    ensure!(refuses(|| LowerRowEnvelope::from_envelope(bad.clone())), "an oversized envelope row was accepted");
    ok(n >= 3 && env.iter().any(|&e| e > 1))
}

// ------------------------------------------------------------ hundreds of rows

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct HugeCase {
    r: usize,
    c: usize,
    /// (row, column, value), the last one counts
    vals: Vec<Put>,
}

fn strat_huge() -> BoxedStrategy<HugeCase> {
    (1usize..700, 250usize..700, any::<bool>(), prop_oneof![0usize..30, 0usize..600])
        .prop_flat_map(|(a, b, wide_, n)| {
            let (r, c) = if wide_ { (a, b) } else { (b, a) };
            (Just(r), Just(c), prop::collection::vec((0..r, 0..c, wide()), n))
        })
        .prop_map(|(r, c, vals)| HugeCase { r, c, vals })
        .boxed()
}

/// the stored values of a large sparse matrix, and zero wherever else one looks
fn holds<M: MatrixLike>(m: &M, shape: (usize, usize), want: &std::collections::BTreeMap<(usize, usize), f64>, what: &str) -> Result<(), Fail> {
    ensure!(m.shape() == shape, "{}: shape {:?}, expected {:?}", what, m.shape(), shape);
    let near = want.keys().flat_map(|&(i, j)| vec![(i, j), (i + 1, j), (i, j + 1), (i ^ 256, j), (i, j ^ 256), (j, i)]).chain(vec![(0, 0), (shape.0 - 1, shape.1 - 1), shape]);
    for loc in near {
        let inside = loc.0 < shape.0 && loc.1 < shape.1;
        let w = if inside { Some(want.get(&loc).copied().unwrap_or(0.0)) } else { None };
        let g = m.get(loc).copied();
        ensure!(g == w, "{}: {:?} reads {:?}, expected {:?}", what, loc, g, w);
    }
    let mut nz: Vec<((usize, usize), f64)> = m.nzs().filter(|x| x.1 != 0.0).collect();
    nz.sort_by_key(|x| x.0);
    let w: Vec<((usize, usize), f64)> = want.iter().map(|(l, x)| (*l, *x)).filter(|x| x.1 != 0.0).collect();
    ensure!(nz == w, "{}: {} non-zero entries, expected {}", what, nz.len(), w.len());
    Ok(())
}

fn check_huge(c: &HugeCase) -> Result<Info, Fail> {
    let shape = (c.r, c.c);
    let mut want = std::collections::BTreeMap::new();
    let mut d = Dictionary::zeros(shape);
    for &(i, j, x) in &c.vals {
        d.put((i, j), x);
        want.insert((i, j), x);
    }
    holds(&d, shape, &want, "dictionary")?;
    holds(&CompressedRow::from(d.clone()), shape, &want, "compressed row from dictionary")?;
    let mut order: Vec<((usize, usize), f64)> = want.iter().map(|(l, x)| (*l, *x)).collect();
    order.sort_by_key(|x| (x.0 .1, std::cmp::Reverse(x.0 .0)));
    holds(&CompressedRow::from_labeled_vals(shape, order), shape, &want, "compressed row from values")?;
    holds(&LinearMatrix::from(d.clone()), shape, &want, "dense from dictionary")?;
    let (env, n) = (d.envelope(), c.r.min(c.c));
    for i in 0..c.r {
        let first = want.range((i, 0)..=(i, i)).find(|x| *x.1 != 0.0).map(|x| x.0 .1);
        let least = first.map_or(0, |j| i + 1 - j);
        let most = want.range((i, 0)..=(i, i)).next().map_or(0, |x| i + 1 - x.0 .1);
        ensure!(env[i] >= least && env[i] <= most, "envelope of row {} is {}, expected {}", i, env[i], least);
    }
    // square, with a diagonal: the envelope schemes
    let mut sq: std::collections::BTreeMap<(usize, usize), f64> = want.into_iter().filter(|x| x.0 .0 < n && x.0 .1 < n).collect();
    for i in 0..n {
        sq.insert((i, i), 1.0 + i as f64);
    }
    let mut d = Dictionary::zeros(n);
    for (l, x) in &sq {
        d.put(*l, *x);
    }
    holds(&BiEnvelope::from(d.clone()), (n, n), &sq, "full envelope")?;
    let low = sq.into_iter().filter(|x| x.0 .1 <= x.0 .0).collect();
    holds(&LowerRowEnvelope::from(d.clone()), (n, n), &low, "lower envelope")?;
    holds(&LowerRowEnvelope::from_bienv(&BiEnvelope::from(d)), (n, n), &low, "lower envelope from full envelope")?;
    ok(c.vals.len() > 3)
}

pub fn property() -> Property {
    Property {
        id: "C02",
        families: vec![
            Box::new(Family {
                name: "triangular-diagonal-large",
                rule: "as triangular-diagonal, of 9..30, up to 7 writes. Non-trivial: at least 3 writes",
                quick: 600,
                thorough: 18000,
                strategy: strat_tri_large,
                check: check_tri,
            }),
            Box::new(Family {
                name: "dictionary-compressed-large",
                rule: "as dictionary-compressed, up to 30x30. Non-trivial: two stored entries or more",
                quick: 1200,
                thorough: 36000,
                strategy: strat_sparse_large,
                check: check_sparse,
            }),
            Box::new(Family {
                name: "envelopes-large",
                rule: "as envelopes, of 10..30, up to 3 writes. Non-trivial: an off-diagonal envelope",
                quick: 800,
                thorough: 24000,
                strategy: strat_env_large,
                check: check_env,
            }),
            Box::new(Family {
                name: "hundreds",
                rule: "up to 600 values in a matrix of up to 700x700, as dictionary, compressed rows, dense and both envelopes. Non-trivial: more than three values",
                quick: 2000,
                thorough: 60000,
                strategy: strat_huge,
                check: check_huge,
            }),
            Box::new(Family {
                name: "triangular-diagonal",
                rule: "lower, upper and diagonal matrices of dimension 1..8 under up to 39 writes, in and out of the stored part. Non-trivial: dimension above 1 and at least 3 writes",
                quick: 45_000,
                thorough: 1_350_000,
                strategy: strat_tri,
                check: check_tri,
            }),
            Box::new(Family {
                name: "dictionary-compressed",
                rule: "a sparse table up to 7x7 held as dictionary and compressed rows by every route, values supplied in random order with some explicit zeros, then writes. Non-trivial: two stored entries or more",
                quick: 75_000,
                thorough: 2_250_000,
                strategy: strat_sparse,
                check: check_sparse,
            }),
            Box::new(Family {
                name: "envelopes",
                rule: "random row bounds around the diagonal up to 9x9, held as lower and full envelope by every route, then writes. Non-trivial: dimension 3 or more with an off-diagonal envelope",
                quick: 75_000,
                thorough: 2_250_000,
                strategy: strat_env,
                check: check_env,
            }),
        ],
        assumptions: vec![
            "envelope schemes are built only from matrices whose every row stores something (others are refused by design)",
            "schemes without an in-place transpose, from_flat or zeros (unimplemented in the code) are not asked for it",
        ],
    }
}
