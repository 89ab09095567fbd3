//! C03: products across storage schemes and structural transforms, against dense arithmetic.

use crate::ensure;
use crate::pbt::*;
use crate::tab::*;
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::{BiEnvelope, CompressedRow, ConstMatrix, Diagonal, Dictionary, LinearMatrix, LowerRowEnvelope, LowerTriangular, MatrixLike, UpperTriangular};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Linear,
    LinearT,
    Const,
    Lower,
    Upper,
    Diag,
    Dict,
    Csr,
    LowerEnv,
    BiEnv,
}
use Kind::*;

const KINDS: [Kind; 10] = [Linear, LinearT, Const, Lower, Upper, Diag, Dict, Csr, LowerEnv, BiEnv];

impl Kind {
    fn square(self) -> bool {
        matches!(self, Lower | Upper | Diag | LowerEnv | BiEnv)
    }
    /// adapts a table to what the scheme can hold
    fn restrict(self, t: &Tab) -> Tab {
        let mut t = t.clone();
        for i in 0..t.r {
            for j in 0..t.c {
                let keep = match self {
                    Lower | LowerEnv => j <= i,
                    Upper => j >= i,
                    Diag => i == j,
                    _ => true,
                };
                if !keep {
                    t.set(i, j, 0.0);
                }
            }
            // the envelope schemes need something in every row, up to the diagonal
            if matches!(self, LowerEnv | BiEnv) && (0..=i).all(|j| t.at(i, j) == 0.0) {
                t.set(i, i, 0.75);
            }
        }
        t
    }
}

trait Visit {
    type Out;
    fn see<M: MatrixLike>(self, m: &M) -> Self::Out;
}

fn held<V: Visit>(k: Kind, t: &Tab, v: V) -> V::Out {
    let shape = (t.r, t.c);
    match k {
        Linear => v.see(&t.linear()),
        LinearT => {
            let mut m = t.t().linear();
            m.transpose();
            v.see(&m)
        }
        Const => match t.v.len() {
            1 => v.see(&ConstMatrix::<1>::from_flat(shape, t.v.clone())),
            2 => v.see(&ConstMatrix::<2>::from_flat(shape, t.v.clone())),
            3 => v.see(&ConstMatrix::<3>::from_flat(shape, t.v.clone())),
            4 => v.see(&ConstMatrix::<4>::from_flat(shape, t.v.clone())),
            6 => v.see(&ConstMatrix::<6>::from_flat(shape, t.v.clone())),
            8 => v.see(&ConstMatrix::<8>::from_flat(shape, t.v.clone())),
            9 => v.see(&ConstMatrix::<9>::from_flat(shape, t.v.clone())),
            12 => v.see(&ConstMatrix::<12>::from_flat(shape, t.v.clone())),
            16 => v.see(&ConstMatrix::<16>::from_flat(shape, t.v.clone())),
            _ => v.see(&t.linear()),
        },
        Lower => {
            let mut m = LowerTriangular::zeros(t.r);
            (0..t.r).for_each(|i| (0..=i).for_each(|j| m[(i, j)] = t.at(i, j)));
            v.see(&m)
        }
        Upper => {
            let mut m = UpperTriangular::zeros(t.r);
            (0..t.r).for_each(|i| (i..t.r).for_each(|j| m[(i, j)] = t.at(i, j)));
            v.see(&m)
        }
        Diag => v.see(&Diagonal::from((0..t.r).map(|i| t.at(i, i)).collect::<Vec<_>>())),
        Dict => v.see(&dict_of(t)),
        Csr => v.see(&CompressedRow::from_flat(shape, t.v.clone())),
        LowerEnv => v.see(&LowerRowEnvelope::from(dict_of(t))),
        BiEnv => v.see(&BiEnvelope::from(dict_of(t))),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MulCase {
    ka: Kind,
    kb: Kind,
    a: Tab,
    b: Tab,
}

fn strat_mul() -> BoxedStrategy<MulCase> {
    mul_cases(dims(5))
}

fn strat_mul_large() -> BoxedStrategy<MulCase> {
    mul_cases(large(2, 26))
}

fn mul_cases(d: BoxedStrategy<usize>) -> BoxedStrategy<MulCase> {
    (prop::sample::select(KINDS.to_vec()), prop::sample::select(KINDS.to_vec()), d.clone(), d.clone(), d, prop::sample::select(vec![10u32, 50, 80]))
        .prop_flat_map(|(ka, kb, m, k, n, z)| {
            let m = if ka.square() { k } else { m };
            let n = if kb.square() { k } else { n };
            (Just(ka), Just(kb), sparse_table(m, k, z, quarter()), sparse_table(k, n, z, quarter()), exponent(120), exponent(120))
        })
        .prop_map(|(ka, kb, a, b, e, f)| MulCase { a: ka.restrict(&a).scale(pow2(e)), b: kb.restrict(&b).scale(pow2(f)), ka, kb })
        .boxed()
}

struct Left<'a>(&'a MulCase, &'a Tab);
struct Right<'a, A>(&'a A, &'a MulCase, &'a Tab);

impl<'a> Visit for Left<'a> {
    type Out = Result<(), Fail>;
    fn see<M: MatrixLike>(self, m: &M) -> Self::Out {
        held(self.0.kb, &self.0.b, Right(m, self.0, self.1))
    }
}

fn product_is<M: MatrixLike>(got: &M, want: &Tab, what: &str) -> Result<(), Fail> {
    ensure!(got.shape() == (want.r, want.c), "{}: product of shape {:?}, expected {}x{}", what, got.shape(), want.r, want.c);
    let d = Tab::of(got).sub(want).maxabs();
    ensure!(d <= 1e-12 * want.maxabs(), "{}: product {:?}, expected {:?}", what, Tab::of(got).v, want.v);
    Ok(())
}

impl<'a, A: MatrixLike> Visit for Right<'a, A> {
    type Out = Result<(), Fail>;
    fn see<B: MatrixLike>(self, b: &B) -> Self::Out {
        let (a, c, want) = (self.0, self.1, self.2);
        let what = format!("{:?} {}x{} times {:?} {}x{}", c.ka, c.a.r, c.a.c, c.kb, c.b.r, c.b.c);
        product_is(&a.mul::<B, LinearMatrix>(b), want, &what)?;
        product_is(&a.mul::<B, Dictionary>(b), want, &what)?;
        product_is(&a.mul::<B, CompressedRow>(b), want, &what)?;
        match want.v.len() {
            1 => product_is(&a.mul::<B, ConstMatrix<1>>(b), want, &what)?,
            4 => product_is(&a.mul::<B, ConstMatrix<4>>(b), want, &what)?,
            6 => product_is(&a.mul::<B, ConstMatrix<6>>(b), want, &what)?,
            9 => product_is(&a.mul::<B, ConstMatrix<9>>(b), want, &what)?,
            _ => (),
        }
        let lower = want.r == want.c && (0..want.r).all(|i| want.at(i, i) != 0.0 && (i + 1..want.c).all(|j| want.at(i, j) == 0.0));
        if lower {
            product_is(&a.mul::<B, LowerRowEnvelope>(b), want, &what)?;
        }
        // the other way round, unless the shapes happen to fit
        if c.b.c != c.a.r {
            ensure!(refuses(|| b.mul::<A, LinearMatrix>(a)), "{}: shapes that do not fit were multiplied", what);
        }
        Ok(())
    }
}

fn check_mul(c: &MulCase) -> Result<Info, Fail> {
    let want = c.a.mul(&c.b);
    held(c.ka, &c.a, Left(c, &want))?;
    ok(c.a.c > 1 && want.v.iter().any(|x| *x != 0.0))
}

// ------------------------------------------------------------ dictionary algebra

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DictCase {
    a: Tab,
    b: Tab,
    sq: Tab,
    /// stored zeros of sq
    zeros: Vec<(usize, usize)>,
    mask: Vec<bool>,
    order: Vec<usize>,
}

fn strat_dict() -> BoxedStrategy<DictCase> {
    dict_cases(dims(6), (2usize..8).boxed())
}

fn strat_dict_large() -> BoxedStrategy<DictCase> {
    dict_cases(large(2, 30), large(8, 40))
}

fn dict_cases(d: BoxedStrategy<usize>, s: BoxedStrategy<usize>) -> BoxedStrategy<DictCase> {
    (d.clone(), d.clone(), d, s, prop::sample::select(vec![20u32, 50, 80]))
        .prop_flat_map(|(m, k, n, s, z)| {
            (
                sparse_table(m, k, z, quarter()),
                sparse_table(k, n, z, quarter()),
                sparse_table(s, s, z, quarter()),
                prop::collection::vec((0..s, 0..s), 0..3),
                prop::collection::vec(any::<bool>(), s),
                Just((0..s).collect::<Vec<_>>()).prop_shuffle(),
                (exponent(400), exponent(400), exponent(400)),
            )
        })
        .prop_map(|(a, b, sq, zeros, mask, order, (e, f, g))| DictCase { a: a.scale(pow2(e)), b: b.scale(pow2(f)), sq: sq.scale(pow2(g)), zeros, mask, order })
        .boxed()
}

fn check_dict(c: &DictCase) -> Result<Info, Fail> {
    let (da, db) = (dict_of(&c.a), dict_of(&c.b));
    product_is(&da.mul_dict(&db), &c.a.mul(&c.b), "mul_dict")?;
    if c.b.c != c.a.r {
        ensure!(refuses(|| db.mul_dict(&da)), "mul_dict of shapes that do not fit");
    }

    let t = da.transposed();
    let want = c.a.t();
    ensure!(t.shape() == (want.r, want.c), "transposing a {}x{} dictionary gives shape {:?}", c.a.r, c.a.c, t.shape());
    product_is(&t, &want, "transposed")?;
    product_is(&t.transposed(), &c.a, "transposed twice")?;
    let mut nz: Vec<((usize, usize), f64)> = t.nzs().filter(|x| x.1 != 0.0).collect();
    nz.sort_by_key(|x| x.0);
    let wnz: Vec<((usize, usize), f64)> = (0..want.r).flat_map(|i| (0..want.c).map(move |j| (i, j))).map(|l| (l, want.at(l.0, l.1))).filter(|x| x.1 != 0.0).collect();
    ensure!(nz == wnz, "transposed lists {:?}, expected {:?}", nz, wnz);
    product_is(&da, &c.a, "the transposed original")?;

    let n = c.sq.r;
    let mut d = dict_of(&c.sq);
    for &(i, j) in &c.zeros {
        if c.sq.at(i, j) == 0.0 {
            d.put((i, j), 0.0);
        }
    }
    let keep: Vec<usize> = (0..n).filter(|&i| c.mask[i]).collect();
    let m = d.clone().mask(&c.mask);
    ensure!(m.shape() == (keep.len(), keep.len()), "masking keeps shape {:?}, expected {}", m.shape(), keep.len());
    product_is(&m, &c.sq.select(&keep), "masked")?;
    ensure!(refuses(|| d.clone().mask(&vec![true; n + 1])), "a mask of another length was accepted");
    if c.a.r != c.a.c {
        ensure!(refuses(|| da.clone().mask(&vec![true; c.a.r])), "a non-square matrix was masked");
    }

    let p = permutation(&c.order);
    let mut q = d.clone();
    q.permute(&p);
    let mut want = Tab::new(n, n);
    for i in 0..n {
        for j in 0..n {
            want.set(p.permute(i), p.permute(j), c.sq.at(i, j));
        }
    }
    product_is(&q, &want, "renumbered")?;
    q.permute(&p.invert());
    product_is(&q, &c.sq, "renumbered and back")?;
    ok(c.a.c > 1 && c.a.r != c.a.c && keep.len() > 1)
}

// ------------------------------------------------------------ envelope products

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EnvMul {
    big: (Vec<(usize, usize)>, Tab),
    small: Tab,
    x: Vec<f64>,
    y: Vec<f64>,
    scale: f64,
}

fn strat_env() -> BoxedStrategy<EnvMul> {
    env_cases(dims(9))
}

fn strat_env_large() -> BoxedStrategy<EnvMul> {
    env_cases(large(10, 40))
}

fn env_cases(dim: BoxedStrategy<usize>) -> BoxedStrategy<EnvMul> {
    dim
        .prop_flat_map(|n| {
            (
                bounds(n).prop_flat_map(|b| in_bounds_table(b, quarter())),
                prop_oneof![bounds(n).boxed(), loose_bounds(n)].prop_flat_map(|b| loose_table(b)),
                prop::collection::vec(quarter(), n),
                prop::collection::vec(quarter(), n),
                (quarter(), sizes()),
            )
        })
        .prop_map(sized)
        .boxed()
}

type Sizes = (i32, i32, i32);

/// binary exponents of the added matrix, the vector and the factor
fn sizes() -> BoxedStrategy<Sizes> {
    (exponent(300), exponent(300), exponent(300)).boxed()
}

fn sized((big, small, x, y, (scale, (e, f, g))): ((Vec<(usize, usize)>, Tab), Tab, Vec<f64>, Vec<f64>, (f64, Sizes))) -> EnvMul {
    // the sum with what is there already stays exact
    let big = (big.0, big.1.scale(pow2(e + g)));
    EnvMul { big, small: small.scale(pow2(e)), x: x.iter().map(|v| v * pow2(f)).collect(), y, scale: scale * pow2(g) }
}

/// row bounds that need not contain the diagonal
fn loose_bounds(n: usize) -> BoxedStrategy<Vec<(usize, usize)>> {
    (0..n).map(|_| (0..n).prop_flat_map(move |a| (Just(a), a + 1..=n)).boxed()).collect::<Vec<_>>().boxed()
}

fn loose_table(b: Vec<(usize, usize)>) -> BoxedStrategy<Tab> {
    let n = b.len();
    table(n, n, quarter())
        .prop_map(move |mut t| {
            for i in 0..n {
                for j in 0..n {
                    if j < b[i].0 || j >= b[i].1 {
                        t.set(i, j, 0.0);
                    } else if (j == b[i].0 || j + 1 == b[i].1) && t.at(i, j) == 0.0 {
                        t.set(i, j, 2.25);
                    }
                }
            }
            t
        })
        .boxed()
}

fn check_env(c: &EnvMul) -> Result<Info, Fail> {
    let n = c.small.r;
    let bi = BiEnvelope::from(dict_of(&c.small));
    // the output buffer's old content must not matter
    let mut y = c.y.clone();
    bi.mul_vec(&c.x, &mut y);
    let want = c.small.mulv(&c.x);
    ensure!(vdist(&y, &want) <= 1e-12 * vnorm(&want), "mul_vec = {:?}, expected {:?}", y, want);
    // rows that hold nothing but stored zeros
    let mut empty = c.small.clone();
    let mut d = Dictionary::zeros(n);
    for i in 0..n {
        for j in 0..n {
            if c.small.at(i, j) != 0.0 {
                if c.y[i] > 0.25 {
                    empty.set(i, j, 0.0);
                }
                d.put((i, j), empty.at(i, j));
            }
        }
    }
    let mut y = c.y.clone();
    BiEnvelope::from(d).mul_vec(&c.x, &mut y);
    let want = empty.mulv(&c.x);
    ensure!(vdist(&y, &want) <= 1e-12 * vnorm(&want), "with rows of stored zeros, mul_vec = {:?}, expected {:?}", y, want);
    ensure!(refuses(|| bi.mul_vec(&vec![0.0; n + 1], &mut vec![0.0; n + 1])), "mul_vec of a longer vector");
    ensure!(refuses(|| bi.mul_vec(&vec![0.0; n + 1], &mut vec![0.0; n])), "mul_vec with vectors of two lengths");

    let mut lo = LowerRowEnvelope::from(dict_of(&c.big.1));
    let env = lo.envelope();
    let before = Tab::of(&lo);
    let first = |i: usize| (0..n).find(|&j| c.small.at(i, j) != 0.0).unwrap();
    let fits = (0..n).all(|i| first(i) >= c.big.0[i].0);
    if fits {
        lo.add_scaled_bienv(&bi, c.scale);
        let mut want = before.clone();
        for i in 0..n {
            for j in 0..=i {
                want.add(i, j, c.scale * c.small.at(i, j));
            }
        }
        product_is(&lo, &want, "add_scaled_bienv")?;
        ensure!(lo.envelope() == env, "add_scaled_bienv changed the envelope");
        product_is(&bi, &c.small, "the added matrix")?;
    } else if (0..n).any(|i| first(i) < c.big.0[i].0) {
        ensure!(refuses(|| lo.clone().add_scaled_bienv(&bi, c.scale)), "an addition past the envelope was accepted");
    }
    if n > 1 {
        let other = BiEnvelope::from(dict_of(&Tab::eye(n - 1)));
        ensure!(refuses(|| lo.clone().add_scaled_bienv(&other, 1.0)), "an addition of another shape was accepted");
    }
    ok_tags(n > 2, vec![if fits { "fits" } else { "past the envelope" }])
}

/// the same, with the added matrix always inside the envelope
fn strat_env_in() -> BoxedStrategy<EnvMul> {
    env_in_cases(dims(9))
}

fn strat_env_in_large() -> BoxedStrategy<EnvMul> {
    env_in_cases(large(10, 40))
}

fn env_in_cases(dim: BoxedStrategy<usize>) -> BoxedStrategy<EnvMul> {
    dim
        .prop_flat_map(|n| bounds(n).prop_flat_map(|b| in_bounds_table(b, quarter())))
        .prop_flat_map(|(b, t)| {
            let n = t.r;
            let inner = b.iter().enumerate().map(|(i, &(lo, _))| (lo..n.max(lo + 1)).prop_flat_map(move |a| (Just(a), a + 1..=n.max(a + 1))).prop_map(move |x| { let _ = i; x }).boxed()).collect::<Vec<_>>();
            (Just((b, t)), inner.prop_flat_map(loose_table), prop::collection::vec(quarter(), n), prop::collection::vec(quarter(), n), (quarter(), sizes()))
        })
        .prop_map(sized)
        .boxed()
}

// ------------------------------------------------------------ hundreds of rows

type Map = BTreeMap<(usize, usize), f64>;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Huge {
    dims: (usize, usize, usize),
    a: Vec<(usize, usize, f64)>,
    b: Vec<(usize, usize, f64)>,
    /// a renumbering i -> (i * step + shift) mod the dimension, and every how many rows are masked out
    step: usize,
    shift: usize,
    out: usize,
}

fn wide_quarter() -> BoxedStrategy<f64> {
    prop_oneof![2 => quarter(), 1 => (quarter(), -60i32..60).prop_map(|(x, e)| x * pow2(e))].boxed()
}

fn strat_huge() -> BoxedStrategy<Huge> {
    (250usize..600, 250usize..600, 250usize..600, 1usize..600)
        .prop_flat_map(|(m, k, n, count)| {
            let a = prop_oneof![(0..m, 0..k, wide_quarter()).boxed(), (0..m.min(k), quarter()).prop_map(|(i, x)| (i, i, x)).boxed()];
            let b = prop_oneof![(0..k, 0..n, wide_quarter()).boxed(), (0..n.min(k), quarter()).prop_map(|(i, x)| (i, i, x)).boxed()];
            (Just((m, k, n)), prop::collection::vec(a, count), prop::collection::vec(b, count), 1usize..1000, 0usize..1000, 2usize..9)
        })
        .prop_map(|(dims, a, b, step, shift, out)| Huge { dims, a, b, step, shift, out })
        .boxed()
}

fn entries(v: &[(usize, usize, f64)]) -> Map {
    v.iter().map(|&(i, j, x)| ((i, j), x)).collect()
}

fn of_map(shape: (usize, usize), m: &Map) -> Dictionary {
    let mut d = Dictionary::zeros(shape);
    m.iter().for_each(|(l, x)| d.put(*l, *x));
    d
}

/// entries moved, not computed
fn moved<M: MatrixLike>(got: &M, shape: (usize, usize), want: &Map, what: &str) -> Result<(), Fail> {
    map_is(got, shape, want, want, what)?;
    ensure!(want.iter().all(|(l, x)| got.get(*l).copied().unwrap_or(0.0) == *x), "{}: an entry has changed", what);
    Ok(())
}

fn map_is<M: MatrixLike>(got: &M, shape: (usize, usize), want: &Map, sizes: &Map, what: &str) -> Result<(), Fail> {
    ensure!(got.shape() == shape, "{}: shape {:?}, expected {:?}", what, got.shape(), shape);
    for (l, x) in want {
        let g = got.get(*l).copied();
        ensure!((g.unwrap_or(0.0) - x).abs() <= 1e-12 * sizes[l].abs(), "{}: {:?} is {:?}, expected {}", what, l, g, x);
    }
    for (l, x) in got.nzs() {
        ensure!(want.contains_key(&l) || x == 0.0, "{}: {:?} is {}, expected nothing", what, l, x);
    }
    Ok(())
}

fn check_huge(c: &Huge) -> Result<Info, Fail> {
    let (m, k, n) = c.dims;
    let (a, b) = (entries(&c.a), entries(&c.b));
    let (da, db) = (of_map((m, k), &a), of_map((k, n), &b));
    let mut want = Map::new();
    let mut sizes = Map::new();
    for (&(i, j), x) in &a {
        for (&(_, l), y) in b.range((j, 0)..(j + 1, 0)) {
            *want.entry((i, l)).or_insert(0.0) += x * y;
            *sizes.entry((i, l)).or_insert(0.0) += (x * y).abs();
        }
    }
    map_is(&da.mul_dict(&db), (m, n), &want, &sizes, "mul_dict")?;
    moved(&da.transposed(), (k, m), &a.iter().map(|(l, x)| ((l.1, l.0), *x)).collect(), "transposed")?;
    // square ones
    let sq: Map = a.into_iter().filter(|x| x.0 .0 < k && x.0 .1 < k).collect();
    let d = of_map((k, k), &sq);
    let mask: Vec<bool> = (0..k).map(|i| (i + c.shift) % c.out != 0).collect();
    let at: Vec<usize> = (0..k).map(|i| (0..i).filter(|&j| mask[j]).count()).collect();
    let kept = mask.iter().filter(|x| **x).count();
    moved(&d.clone().mask(&mask), (kept, kept), &sq.iter().filter(|x| mask[x.0 .0] && mask[x.0 .1]).map(|(l, x)| ((at[l.0], at[l.1]), *x)).collect(), "masked")?;
    let mut order: Vec<usize> = (0..k).map(|i| (i * c.step + c.shift) % k).collect();
    let mut seen = vec![false; k];
    if order.iter().any(|&i| std::mem::replace(&mut seen[i], true)) {
        order = (0..k).rev().collect();
    }
    let p = permutation(&order);
    let mut q = d.clone();
    q.permute(&p);
    moved(&q, (k, k), &sq.iter().map(|(l, x)| ((p.permute(l.0), p.permute(l.1)), *x)).collect(), "renumbered")?;
    // the envelope with something in every row
    let mut full = sq;
    (0..k).for_each(|i| *full.entry((i, i)).or_insert(0.0) += 1000.0);
    let bi = BiEnvelope::from(of_map((k, k), &full));
    let x: Vec<f64> = (0..k).map(|i| ((i * 7 + c.shift) % 13) as f64 - 6.0).collect();
    let mut y = vec![9.0; k];
    bi.mul_vec(&x, &mut y);
    let mut z = vec![0.0; k];
    let mut size = vec![0.0; k];
    full.iter().for_each(|(l, v)| {
        z[l.0] += v * x[l.1];
        size[l.0] += (v * x[l.1]).abs();
    });
    ensure!((0..k).all(|i| (y[i] - z[i]).abs() <= 1e-12 * size[i]), "mul_vec of {} rows is off by {}", k, vdist(&y, &z));
    let mut lo = LowerRowEnvelope::from(of_map((k, k), &full));
    lo.add_scaled_bienv(&bi, 0.5);
    let want_lo: Map = full.iter().filter(|x| x.0 .1 <= x.0 .0).map(|(l, x)| (*l, 1.5 * x)).collect();
    map_is(&lo, (k, k), &want_lo, &want_lo, "add_scaled_bienv")?;
    ok(want.len() > 3)
}

pub fn property() -> Property {
    Property {
        id: "C03",
        families: vec![
            Box::new(Family {
                name: "products-large",
                rule: "as products, of 2..26. Non-trivial: a non-zero product",
                quick: 1200,
                thorough: 36000,
                strategy: strat_mul_large,
                check: check_mul,
            }),
            Box::new(Family {
                name: "dictionaries-large",
                rule: "as dictionaries, up to 30, masks and renumberings of 8..40. Non-trivial as for the small ones",
                quick: 2000,
                thorough: 60000,
                strategy: strat_dict_large,
                check: check_dict,
            }),
            Box::new(Family {
                name: "envelopes-large",
                rule: "as envelopes, of 10..40. Non-trivial: all",
                quick: 2000,
                thorough: 60000,
                strategy: strat_env_large,
                check: check_env,
            }),
            Box::new(Family {
                name: "envelope-additions-large",
                rule: "as envelope-additions, of 10..40. Non-trivial: all",
                quick: 2000,
                thorough: 60000,
                strategy: strat_env_in_large,
                check: check_env,
            }),
            Box::new(Family {
                name: "hundreds",
                rule: "up to 600 values in matrices of 250..600 rows: sparse product, transpose, mask, renumbering and envelope products. Non-trivial: a product of more than three entries",
                quick: 2000,
                thorough: 60000,
                strategy: strat_huge,
                check: check_huge,
            }),
            Box::new(Family {
                name: "products",
                rule: "two matrices of 1..5 in any pair of the ten storage schemes, product taken into every result scheme that can hold it. Non-trivial: inner dimension above 1 and a non-zero product",
                quick: 600_000,
                thorough: 18_000_000,
                strategy: strat_mul,
                check: check_mul,
            }),
            Box::new(Family {
                name: "dictionaries",
                rule: "sparse product, transpose, mask and renumbering of dictionaries. Non-trivial: non-square first operand and at least two rows kept by the mask",
                quick: 400_000,
                thorough: 12_000_000,
                strategy: strat_dict,
                check: check_dict,
            }),
            Box::new(Family {
                name: "envelopes",
                rule: "envelope matrix times vector into a dirty buffer, and scaled addition into a lower envelope that may not have room. Non-trivial: dimension above 2",
                quick: 200_000,
                thorough: 6_000_000,
                strategy: strat_env,
                check: check_env,
            }),
            Box::new(Family {
                name: "envelope-additions",
                rule: "scaled addition of an envelope matrix that fits, its rows anywhere from the first stored column on. Non-trivial: dimension above 2",
                quick: 200_000,
                thorough: 6_000_000,
                strategy: strat_env_in,
                check: check_env,
            }),
        ],
        assumptions: vec!["entries are multiples of 1/4 so that products are exact"],
    }
}
