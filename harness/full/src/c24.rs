//! C24: boundary files are read as written, and malformed ones are refused with an error.

use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use crate::poly::*;
use bugi::element::constraint::Constraint;
use bugi::file::{self, FileError};
use bugi::mesher::bounds::PlaneBoundary;
use bugi::mesher::Vertex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Outline {
    body: Body,
    /// labels of some corners, by number of the corner over all rings
    labels: Vec<Option<String>>,
    cond: Option<Cond>,
    mat: Option<bool>,
    /// between labelled corners
    forces: Vec<(usize, usize, V)>,
    cons: Vec<(usize, usize, Con)>,
    order: u64,
    style: Style,
}

fn angle_or_plain() -> BoxedStrategy<Con> {
    prop_oneof![2 => Just(Con::X), 2 => Just(Con::Y), 2 => Just(Con::XY), 2 => number().prop_map(Con::Angle), 1 => Just(Con::Free)].boxed()
}

fn outline() -> BoxedStrategy<Outline> {
    outline_of(body(), 5)
}

fn wide_outline() -> BoxedStrategy<Outline> {
    outline_of(wide_body(), 150)
}

fn outline_of(body: BoxedStrategy<Body>, most: usize) -> BoxedStrategy<Outline> {
    (body, -60i32..60)
        .prop_flat_map(move |(body, k)| {
            // (rounding puts nothing else on the sides: the scale is a power of two)
            let body = body.map(|p| (p.0 * (k as f64).exp2(), p.1 * (k as f64).exp2()));
            let n: usize = body.rings.iter().map(|r| r.len()).sum();
            (
                Just(body),
                prop::collection::vec(prop::option::weighted(0.7, "[A-Za-z0-9]{1,6}"), n),
                prop::option::weighted(0.9, cond()),
                prop::option::weighted(0.9, any::<bool>()),
                prop::collection::vec((0..n, prop::bool::weighted(0.8), any::<bool>(), 0..n, number(), number()), 0..most),
                prop::collection::vec((0..n, prop::bool::weighted(0.8), any::<bool>(), 0..n, angle_or_plain()), 0..most),
                any::<u64>(),
                style(),
            )
        })
        .prop_map(|(body, mut labels, cond, mat, forces, cons, order, style)| {
            // labels are unique
            let mut seen = std::collections::HashSet::new();
            for (i, l) in labels.iter_mut().enumerate() {
                if let Some(t) = l.clone() {
                    if !seen.insert(t.clone()) {
                        let t = format!("{}v{}", t, i);
                        seen.insert(t.clone());
                        *l = Some(t);
                    }
                }
            }
            // the next corner of the ring, for sides
            let mut next = vec![];
            for r in &body.rings {
                let s = next.len();
                next.extend((0..r.len()).map(|i| s + (i + 1) % r.len()));
            }
            let ends = |a: usize, side: bool, turned: bool, b: usize| {
                let b = if side { next[a] } else { b };
                if a == b || labels[a].is_none() || labels[b].is_none() {
                    return None;
                }
                Some(if turned { (b, a) } else { (a, b) })
            };
            let mut f: Vec<(usize, usize, V)> = vec![];
            for (a, side, turned, b, x, y) in forces {
                if let Some((a, b)) = ends(a, side, turned, b) {
                    if !f.iter().any(|e| (e.0, e.1) == (a, b) || (e.1, e.0) == (a, b)) {
                        f.push((a, b, (x, y)));
                    }
                }
            }
            let mut c: Vec<(usize, usize, Con)> = vec![];
            for (a, side, turned, b, con) in cons {
                if let Some((a, b)) = ends(a, side, turned, b) {
                    if !c.iter().any(|e| (e.0, e.1) == (a, b) || (e.1, e.0) == (a, b)) {
                        c.push((a, b, con));
                    }
                }
            }
            Outline { body, labels, cond, mat, forces: f, cons: c, order, style }
        })
        .boxed()
}

fn items(o: &Outline, w: &Writer) -> Vec<String> {
    let mut res = vec![];
    let mut at = 0;
    for r in &o.body.rings {
        let mut l = vec!["polygon".to_string()];
        for p in r {
            let label = o.labels[at].as_ref().map_or(String::new(), |t| format!(" {}", t));
            l.push(format!("{} {}{}", w.num(p.0), w.num(p.1), label));
            at += 1;
        }
        l.push("end".into());
        res.push(l.join("\n"));
    }
    match o.cond {
        Some(Cond::Strain(t)) => res.push(format!("condition planestrain {}", w.num(t))),
        Some(Cond::Stress(t)) => res.push(format!("condition planestress {}", w.num(t))),
        Some(Cond::Axi) => res.push("condition axisymmetric".into()),
        None => {}
    }
    if let Some(t) = o.mat {
        res.push(format!("material {}", if t { "TEST" } else { "AL6061" }));
    }
    let name = |i: usize| o.labels[i].as_ref().unwrap();
    for (a, b, f) in &o.forces {
        res.push(format!("distributed_force {} {} {} {}", name(*a), name(*b), w.num(f.0), w.num(f.1)));
    }
    for (a, b, c) in &o.cons {
        res.push(format!("distributed_constraint {} {} {}", name(*a), name(*b), con_text(*c, w)));
    }
    res
}

/// the polygons keep their order among each other, everything else may come anywhere
fn shuffled(items: Vec<String>, seed: u64) -> Vec<String> {
    let rng = fastrand::Rng::with_seed(seed);
    let n = items.len();
    let mut at: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut at);
    let polygons: Vec<String> = items.iter().filter(|t| t.starts_with("polygon")).cloned().collect();
    let mut polygons = polygons.into_iter();
    at.into_iter().map(|i| if items[i].starts_with("polygon") { polygons.next().unwrap() } else { items[i].clone() }).collect()
}

fn read(text: &[u8], name: &str) -> Result<Result<PlaneBoundary, FileError>, Fail> {
    let p = scratch(name);
    std::fs::write(&p, text).unwrap();
    attempt(|| file::read_to_bound(&p)).map_err(|e| Fail::from(format!("reading ended in a panic: {}", e)))
}

/// What the file says, compared with what was made of it.
fn same(o: &Outline, b: &PlaneBoundary) -> Result<(), Fail> {
    match (o.cond, b.condition()) {
        (None, None) => {}
        (Some(c), Some(d)) if c.is(d) => {}
        (c, d) => return Err(format!("condition {:?} for {:?}", d, c).into()),
    }
    let as_asked = match (b.material(), o.mat) {
        (Some(m), Some(t)) => is_material(&m, t),
        (m, t) => m.is_none() && t.is_none(),
    };
    ensure!(as_asked, "material {:?}", b.material());
    // every ring, in order, from its first corner
    let walls: Vec<_> = b.all_walls().collect();
    let sides = o.body.sides();
    ensure!(walls.len() == sides.len(), "{} sides for {}", walls.len(), sides.len());
    let mut corner: HashMap<Vertex, usize> = HashMap::new();
    for (i, (s, (p, q))) in walls.iter().zip(&sides).enumerate() {
        let (a, z) = s.get();
        let (a, z): (V, V) = (a.into(), z.into());
        let eq = |x: V, y: &V| x.0.value_bits() == y.0.value_bits() && x.1.value_bits() == y.1.value_bits();
        ensure!(eq(a, p) && eq(z, q), "side {} runs from {:?} to {:?} for {:?} to {:?}", i, a, z, p, q);
        ensure!(corner.insert(s.0, i).is_none(), "corner {} twice", i);
        ensure!(b.is_segment(*s), "side {} is not a segment", i);
    }
    ensure!(b.all_base_walls().collect::<Vec<_>>() == walls, "base walls");
    ensure!(b.all_vertices().count() == corner.len(), "{} corners", b.all_vertices().count());
    let mut f: Vec<_> = vec![];
    for (s, p) in b.all_distributed_forces() {
        let p: V = p.into();
        f.push((corner.get(&s.0).copied(), corner.get(&s.1).copied(), p.0.value_bits(), p.1.value_bits()));
    }
    let mut g: Vec<_> = o.forces.iter().map(|(a, b, p)| (Some(*a), Some(*b), p.0.value_bits(), p.1.value_bits())).collect();
    f.sort();
    g.sort();
    ensure!(f == g, "forces {:?} for {:?}", b.all_distributed_forces(), o.forces);
    // both ends of a constraint are held by it
    let mut held: Vec<(Option<usize>, String)> = b.all_constraints().into_iter().map(|(v, c)| (corner.get(&v).copied(), con_value(c))).collect();
    let mut want: Vec<(Option<usize>, String)> = o.cons.iter().flat_map(|(a, b, c)| [(Some(*a), con_value(c.get())), (Some(*b), con_value(c.get()))]).collect();
    for l in [&mut held, &mut want] {
        l.sort();
        l.dedup();
    }
    ensure!(held == want, "constraints {:?} for {:?}", held, want);
    Ok(())
}

fn check_written(o: &Outline) -> Result<Info, Fail> {
    let w = Writer::new(&o.style);
    let mut text = shuffled(items(o, &w), o.order).join("\n");
    if o.style.end {
        text.push('\n');
    }
    match read(text.as_bytes(), "c24.bbnd")? {
        Ok(b) => same(o, &b)?,
        Err(e) => return Err(format!("refused: {}\n{}", e, text).into()),
    }
    let mut t = vec![];
    if o.body.rings.len() > 1 {
        t.push("with holes");
    }
    if !o.cons.is_empty() {
        t.push("constraints");
    }
    ok_tags(!o.forces.is_empty() || !o.cons.is_empty(), t)
}

// one mistake

const KINDS: u8 = 12;
const NAMES: [&str; KINDS as usize] = [
    "unknown material", "bad condition", "too few corners", "crossing sides", "no end", "unknown label", "bad corner", "bad force", "bad constraint", "unknown item", "cut off", "wrong file name",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Broken {
    outline: Outline,
    kind: u8,
    at: usize,
    pick: usize,
}

fn broken() -> BoxedStrategy<Broken> {
    (outline(), 0u8..KINDS, 0usize..10_000, 0usize..10_000)
        .prop_map(|(mut outline, kind, at, pick)| {
            outline.labels[0] = Some("Aq0".into());
            outline.labels[1] = Some("Bq1".into());
            Broken { outline, kind, at, pick }
        })
        .boxed()
}

fn check_broken(c: &Broken) -> Result<Info, Fail> {
    let o = &c.outline;
    let w = Writer::new(&o.style);
    let mut t = items(o, &w);
    let (at, pick) = (c.at, c.pick);
    let rings = o.body.rings.len();
    match c.kind {
        0 => t.push(format!("material {}", ["AL6062", "al6061", "", "AL606", "TESTS", "AL6061 x", "AL6061-T6"][pick % 7])),
        1 => t.push(format!(
            "condition {}",
            ["planestress", "planestrain ", "planestress nan", "planestrain inf", "planestress 1e999", "axi", "axisymmetric 1", "", "plane", "Planestress 1", "planestress 1 2"][pick % 11]
        )),
        2 => t.push(["polygon\nend", "polygon\n100 100\nend", "polygon\n100 100\n101 100\nend", "polygon\n\nend"][pick % 4].into()),
        3 => {
            // an outline that crosses itself, or one that crosses the body
            let (p, q) = o.body.sides()[at % o.body.sides().len()];
            let (m, d) = (((p.0 + q.0) / 2.0, (p.1 + q.1) / 2.0), (q.0 - p.0, q.1 - p.1));
            let (k, far) = (0.2 + 0.1 * (pick % 3) as f64, 10.0 * o.body.extent());
            let ring: Vec<P> = match pick % 2 {
                0 => [(0.0, 0.0), (1.0, 1.0), (1.0, 0.0), (0.0, 1.0)].map(|r: P| (far + r.0 * o.body.extent(), far + r.1 * o.body.extent())).to_vec(),
                _ => vec![(m.0 - k * d.1, m.1 + k * d.0), (m.0 + k * d.1 + 0.1 * d.0, m.1 - k * d.0 + 0.1 * d.1), (m.0 + k * d.1 - 0.1 * d.0, m.1 - k * d.0 - 0.1 * d.1)],
            };
            t.push(format!("polygon\n{}\nend", ring.iter().map(|p| format!("{} {}", p.0, p.1)).collect::<Vec<_>>().join("\n")));
        }
        4 => {
            let i = at % rings;
            t[i] = match pick % 3 {
                0 => t[i].trim_end_matches("\nend").to_string(),
                1 => t[i].replace("\nend", "end"),
                _ => t[i].replace("\nend", "\nEnd"),
            };
        }
        5 => t.push(match pick % 4 {
            0 => "distributed_force Aq0 nowhere9 1 2".into(),
            1 => "distributed_force nowhere9 Bq1 1 2".into(),
            2 => "distributed_constraint nowhere9 Bq1 xy".into(),
            _ => "distributed_constraint Aq0 nowhere9 xy".into(),
        }),
        6 => {
            let i = at % rings;
            let mut l: Vec<String> = t[i].lines().map(String::from).collect();
            let k = 1 + pick % (l.len() - 2);
            l[k] = ["1", "nan 1", "1 nan", "inf 2", "3 -inf", "1e999 0", "a b", "1 2 a-b", "1 2 a b", "1,2", "", "1  2", " 1 2", "1 2 ", "1/2"][at / rings % 15].into();
            t[i] = l.join("\n");
        }
        7 => t.push(format!("distributed_force Aq0 Bq1{}", ["", " 1", " nan 1", " 1 inf", " a b", " 1 2 3", " 1/2", " 1e999 0", "  1 2"][pick % 9])),
        8 => t.push(format!("distributed_constraint Aq0 Bq1{}", ["", " z", " yx", " XY", " angle:", " angle:nan", " angle:inf", " xyz", " angle 1", "  x", " x y"][pick % 11])),
        9 => t.push(["polygons", "force Aq0 Bq1 1 2", "Material AL6061", "hello", "1 2", "end", "# text", "distributed Aq0 Bq1 x"][pick % 8].into()),
        10 => {
            // inside the last polygon
            let i = at % rings;
            let p = t.remove(i);
            let cut = 1 + pick * 7919 % (p.len() - 1);
            t.push(p[..cut].to_string());
            let mut text = t.join("\n");
            if o.style.end {
                text.push('\n');
            }
            // labels that went missing are mistakes too
            let r = read(text.as_bytes(), "c24.bbnd")?;
            ensure!(r.is_err(), "accepted with {}:\n{}", NAMES[10], text);
            return ok_tags(true, vec![NAMES[10]]);
        }
        _ => {
            let name = ["c24", "c24.txt", "c24.BBND", "c24.bmsh", "c24.bbnd.gz", "c24.", "c24.bbnd2"][pick % 7];
            ensure!(read(t.join("\n").as_bytes(), name)?.is_err(), "accepted as {}", name);
            let gone = scratch("c24-not-there.bbnd");
            let r = attempt(|| file::read_to_bound(&gone)).map_err(|e| Fail::from(format!("a missing file ended in a panic: {}", e)))?;
            ensure!(matches!(r, Err(FileError::NoOpen)), "a missing file was read");
            return ok_tags(true, vec![NAMES[11]]);
        }
    }
    let mut text = shuffled(t, o.order).join("\n");
    if o.style.end {
        text.push('\n');
    }
    match read(text.as_bytes(), "c24.bbnd")? {
        Err(e) => {
            ensure!(!e.to_string().is_empty(), "the error says nothing");
            ok_tags(true, vec![NAMES[c.kind as usize]])
        }
        Ok(_) => Err(format!("accepted with {}:\n{}", NAMES[c.kind as usize], text).into()),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Noise {
    outline: Outline,
    edits: Vec<(u8, usize, usize)>,
}

fn noise() -> BoxedStrategy<Noise> {
    (outline(), prop::collection::vec((0u8..6, 0usize..100_000, 0usize..100_000), 1..5)).prop_map(|(outline, edits)| Noise { outline, edits }).boxed()
}

fn check_noise(c: &Noise) -> Result<Info, Fail> {
    let w = Writer::new(&c.outline.style);
    let mut b = shuffled(items(&c.outline, &w), c.outline.order).join("\n").into_bytes();
    for (kind, i, j) in &c.edits {
        if b.is_empty() {
            break;
        }
        let i = i % b.len();
        match kind {
            0 => b[i] = (j % 256) as u8,
            1 => b[i] = b"0123456789/ -.e\nx"[j % 17],
            2 => {
                b.remove(i);
            }
            3 => {
                let mut l: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                let (p, q) = (i % l.len(), j % l.len());
                match j % 3 {
                    0 => {
                        l.remove(p);
                    }
                    1 => {
                        let x = l[q].clone();
                        l.insert(p, x);
                    }
                    _ => l.swap(p, q),
                }
                b = l.join(&b'\n');
            }
            4 => b.truncate(i),
            _ => {
                let t: &[u8] = [&b"nan"[..], b"inf", b"1e400", b"end\n", b"polygon\n", b"\r\n", b"\xff", b"\xef\xbb\xbf", b"\n", b" ", b"0"][j % 11];
                b.splice(i..i, t.iter().copied());
            }
        }
    }
    let r = read(&b, "c24.bbnd")?;
    if let (Ok(bound), Ok(text)) = (&r, std::str::from_utf8(&b)) {
        // what was accepted says what the boundary holds, every line of it
        match said(text) {
            Err(why) => return Err(format!("accepted with a mistake ({}):\n{}", why, text).into()),
            Ok(Some(o)) => {
                same(&o, bound).map_err(|f| Fail { msg: format!("{}\n{}", f.msg, text), sig: None })?;
                return ok_tags(true, vec!["still readable, compared"]);
            }
            Ok(None) => {}
        }
    }
    ok_tags(true, vec![if r.is_ok() { "still readable" } else { "refused" }])
}

/// The boundary the lines of a file describe, read more leniently than the format asks for (white space around words,
/// blank lines, any notation of numbers); what even this cannot read has to be refused. None where lines repeat
/// what others said, which is not specified.
fn said(text: &str) -> Result<Option<Outline>, String> {
    let num = |s: &str| -> Result<f64, String> { s.parse::<f64>().ok().filter(|x| x.is_finite()).ok_or(format!("the number {:?}", s)) };
    let mut o = Outline { body: Body { rings: vec![] }, labels: vec![], cond: None, mat: None, forces: vec![], cons: vec![], order: 0, style: Style { seed: 0, plain: true, end: true } };
    let mut inside = false;
    let mut clear = text.lines().any(|l| l.trim() == "polygon");
    let (mut forces, mut cons) = (vec![], vec![]);
    for l in text.split('\n') {
        let w: Vec<&str> = l.split_whitespace().collect();
        let bad = || format!("the line {:?}", l);
        match &w[..] {
            [] => {}
            ["polygon"] if !inside => {
                inside = true;
                o.body.rings.push(vec![]);
            }
            ["end"] if inside => inside = false,
            [x, y, label @ ..] if inside && label.len() < 2 => {
                o.body.rings.last_mut().unwrap().push((num(x)?, num(y)?));
                clear &= label.is_empty() || !o.labels.iter().any(|l| l.as_deref() == Some(label[0]));
                o.labels.push(label.first().map(|l| l.to_string()));
            }
            _ if inside => return Err(bad()),
            ["material", m] => {
                clear &= o.mat.is_none();
                o.mat = Some(match *m {
                    "TEST" => true,
                    "AL6061" => false,
                    _ => return Err(bad()),
                });
            }
            ["condition", c, t @ ..] => {
                clear &= o.cond.is_none();
                o.cond = Some(match (*c, t) {
                    ("axisymmetric", []) => Cond::Axi,
                    ("planestrain", [t]) => Cond::Strain(num(t)?),
                    ("planestress", [t]) => Cond::Stress(num(t)?),
                    _ => return Err(bad()),
                });
            }
            ["distributed_force", a, b, x, y] => forces.push((a.to_string(), b.to_string(), (num(x)?, num(y)?))),
            ["distributed_constraint", a, b, c] => cons.push((a.to_string(), b.to_string(), match *c {
                "x" => Con::X,
                "y" => Con::Y,
                "xy" => Con::XY,
                "free" => Con::Free,
                c => Con::Angle(num(c.strip_prefix("angle:").ok_or_else(bad)?)?),
            })),
            _ => return Err(bad()),
        }
    }
    if inside {
        return Err("a polygon without an end".into());
    }
    if o.body.rings.iter().any(|r| r.len() < 3) {
        return Err("a polygon of too few corners".into());
    }
    let corner = |l: &str| o.labels.iter().position(|m| m.as_deref() == Some(l)).ok_or(format!("the label {:?}", l));
    let mut pairs = std::collections::HashSet::new();
    for (a, b, f) in forces {
        let (a, b) = (corner(&a)?, corner(&b)?);
        clear &= a != b && pairs.insert((0, a.min(b), a.max(b)));
        o.forces.push((a, b, f));
    }
    for (a, b, c) in cons {
        let (a, b) = (corner(&a)?, corner(&b)?);
        clear &= a != b && pairs.insert((1, a.min(b), a.max(b)));
        o.cons.push((a, b, c));
    }
    Ok(if clear { Some(o) } else { None })
}

pub fn property() -> Property {
    Property {
        id: "C24",
        families: vec![
            Box::new(Family { name: "written", rule: "a boundary with a force or constraint, in some notation and order", quick: 300_000, thorough: 10_000_000, strategy: outline, check: check_written }),
            Box::new(Family { name: "written-wide", rule: "as written, up to hundreds of sides and loads, tens of holes", quick: 20_000, thorough: 600_000, strategy: wide_outline, check: check_written }),
            Box::new(Family { name: "broken", rule: "a boundary file with one mistake", quick: 500_000, thorough: 16_000_000, strategy: broken, check: check_broken }),
            Box::new(Family { name: "noise", rule: "a boundary file with random edits", quick: 400_000, thorough: 16_000_000, strategy: noise, check: check_noise }),
        ],
        assumptions: vec!["the stand-in for spacemath decides which segments intersect", "labels are unique, and a pair of corners has one force and one constraint"],
    }
}
