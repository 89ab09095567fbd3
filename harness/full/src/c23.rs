//! C23: mesh files are read as written, and malformed ones are refused with an error.

use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use bugi::file::{self, FileError};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn read(text: &[u8], name: &str) -> Result<Result<bugi::element::ElementAssemblage, FileError>, Fail> {
    let p = scratch(name);
    std::fs::write(&p, text).unwrap();
    attempt(|| file::read_to_elas(&p)).map_err(|e| Fail::from(format!("reading ended in a panic: {}", e)))
}

// files in every notation the format allows

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Written {
    model: Model,
    style: Style,
}

fn written() -> BoxedStrategy<Written> {
    (model(4), style(), prop::option::of((0usize..8, prop_oneof![Just(Con::X), Just(Con::Y), Just(Con::XY), Just(Con::Free)])))
        .prop_map(|(mut model, style, again)| {
            // a second constraint line for a node that has one
            let again = again.filter(|_| !model.cons.is_empty());
            if let Some((i, c)) = again {
                let n = model.cons[i % model.cons.len()];
                if !matches!(n.1, Con::Angle(_)) {
                    model.cons.push((n.0, c));
                }
            }
            Written { model, style }
        })
        .boxed()
}

fn check_written(c: &Written) -> Result<Info, Fail> {
    let w = Writer::new(&c.style);
    let text = w.dressed(&lines(&sections(&c.model, &w)), c.style.end);
    match read(text.as_bytes(), "c23.bmsh")? {
        Ok(e) => c.model.same(&e)?,
        Err(e) => return Err(format!("refused: {}\n{}", e, text).into()),
    }
    let mut t = vec![];
    if c.style.plain {
        t.push("plain");
    }
    if !c.style.end {
        t.push("no final newline");
    }
    ok_tags(!c.model.elems.is_empty(), t)
}

fn check_vast(c: &Vast) -> Result<Info, Fail> {
    let m = c.model();
    let w = Writer::new(&c.style);
    let text = w.dressed(&lines(&sections(&m, &w)), c.style.end);
    match read(text.as_bytes(), "c23v.bmsh")? {
        Ok(e) => m.same(&e)?,
        Err(e) => return Err(format!("refused: {}", e.to_string().chars().take(300).collect::<String>()).into()),
    }
    ok(c.counts.iter().any(|n| *n > 65536))
}

// files with one mistake

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Broken {
    model: Model,
    style: Style,
    kind: u8,
    at: usize,
    pick: usize,
    text: String,
}

fn broken() -> BoxedStrategy<Broken> {
    (model(2), style(), 0u8..KINDS, 0usize..10_000, 0usize..10_000, "[A-Za-z0-9]{0,8}")
        .prop_map(|(mut model, style, kind, at, pick, text)| {
            // every section has something to break
            if model.elems.is_empty() {
                model.nodes.extend([(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]);
                let n = model.nodes.len();
                model.elems.push([n - 3, n - 2, n - 1]);
            }
            if model.cons.is_empty() {
                model.cons.push((0, Con::XY));
            }
            if model.forces.is_empty() {
                model.forces.push((1, (0.5, -1.0)));
            }
            if model.dist.is_empty() {
                model.dist.push((0, 1, (0.5, -1.0)));
            }
            Broken { model, style, kind, at, pick, text }
        })
        .boxed()
}

const KINDS: u8 = 16;
const KIND_NAMES: [&str; KINDS as usize] = [
    "unknown material", "unsupported version", "bad condition", "bad position", "bad node reference of an element",
    "wrong number of nodes in an element", "no element", "bad constraint", "bad force", "bad line load", "wrong count",
    "wrong running number", "missing or misplaced section", "cut off", "wrong file name", "bad number",
];

fn nodes_like(n: usize, pick: usize) -> String {
    // references to nodes that are not there
    match pick % 5 {
        0 => n.to_string(),
        1 => (n + 1 + pick).to_string(),
        2 => "18446744073709551615".into(),
        3 => "-1".into(),
        _ => "18446744073709551616".into(),
    }
}
/// what stands for a vector but is not one in the plane
fn not_vector(pick: usize) -> &'static str {
    ["1", "1/2/3", "", "1/", "/1", "1 2", "1//2", "nan/1", "1/nan", "inf/0", "0/-inf", "1e400/0", "0/-1e999", "a/b", "1/2/", "1,2", "1/2 3", "0x10/1", "1/2#"][pick % 19]
}

/// the text with its mistake; None where the mistake has no effect on this model
fn spoiled(c: &Broken) -> Option<String> {
    let w = Writer::new(&c.style);
    let m = &c.model;
    let mut s = sections(m, &w);
    let n = m.nodes.len();
    let (at, pick) = (c.at, c.pick);
    let pick_in = |len: usize| 1 + at % len;
    match c.kind {
        0 => {
            let name = match pick % 4 {
                0 => c.text.clone(),
                1 => ["AL6062", "al6061", "test", "AL606", "AL60611", "TESTS", "EST", ""][at % 8].into(),
                2 => format!("AL6061 {}", c.text),
                _ => format!(" TEST{}", c.text),
            };
            if name == "AL6061" || name == "TEST" {
                return None;
            }
            s[0].1[1] = format!("material {}", name);
        }
        1 => {
            let v = ["0", "2", "10", "255", "256", "257", "-1", "1.0", "one", "", "1 1", "18446744073709551617"][pick % 12];
            s[0].1[0] = format!("version {}", v);
        }
        2 => {
            let v = [
                "planestress", "planestrain", "planestress ", "planestrain nan", "planestress inf", "planestress -inf", "planestrain 1e999", "plane", "axisymmetric 1", "axi", "planestress 1 2", "Planestress 1",
                "planestress x", "", "planestrain1", "axisymmetric1",
            ][pick % 16];
            s[0].1[2] = format!("condition {}", v);
        }
        3 => {
            let i = pick_in(n);
            s[1].1[i] = format!("{} {}", i - 1, not_vector(pick));
        }
        4 => {
            let i = pick_in(m.elems.len());
            let mut t: Vec<String> = m.elems[i - 1].iter().map(|x| x.to_string()).collect();
            t[pick % 3] = nodes_like(n, pick / 3);
            s[2].1[i] = format!("{} {}", i - 1, t.join("/"));
        }
        5 => {
            let i = pick_in(m.elems.len());
            let t = m.elems[i - 1];
            let text = match pick % 6 {
                0 => format!("{}/{}", t[0], t[1]),
                1 => format!("{}/{}/{}/{}", t[0], t[1], t[2], (t[2] + 1) % n),
                2 => format!("{}", t[0]),
                3 => String::new(),
                4 => format!("{}/{}/{}/", t[0], t[1], t[2]),
                _ => format!("{} {} {}", t[0], t[1], t[2]),
            };
            s[2].1[i] = format!("{} {}", i - 1, text);
        }
        6 => {
            // nothing between its corners: a repeated node, or nodes on one line
            let i = pick_in(m.elems.len());
            let t = m.elems[i - 1];
            if pick % 2 == 0 {
                let mut t = t;
                t[pick / 2 % 3] = t[(pick / 2 + 1) % 3];
                s[2].1[i] = format!("{} {}/{}/{}", i - 1, t[0], t[1], t[2]);
            } else {
                let (x, y) = ((pick % 7) as f64 - 3.0, (pick % 5) as f64 - 2.0);
                for (k, v) in t.iter().enumerate() {
                    s[1].1[v + 1] = format!("{} {}/{}", v, x * [0.0, 1.0, -2.0][k], y * [0.0, 1.0, -2.0][k]);
                }
            }
        }
        7 => {
            let i = pick_in(m.cons.len());
            s[3].1[i] = if pick % 2 == 0 {
                format!("{} x", nodes_like(n, at))
            } else {
                let t = [
                    "z", "yx", "X", "Y", "XY", "xyz", "angle:", "angle:nan", "angle:inf", "angle:-inf", "angle:1e999", "angle", "angle 1", "angle:1 ", "angle:a", "fre", "free ", "", "fixed", "xx", "x y", "Angle:1", "angle: 1",
                ][at % 23];
                format!("{} {}", m.cons[i - 1].0, t)
            };
        }
        8 => {
            let i = pick_in(m.forces.len());
            s[4].1[i] = if pick % 2 == 0 { format!("{} 1/2", nodes_like(n, at)) } else { format!("{} {}", m.forces[i - 1].0, not_vector(at)) };
        }
        9 => {
            let i = pick_in(m.dist.len());
            let (a, b, _) = m.dist[i - 1];
            s[5].1[i] = match pick % 4 {
                0 => format!("{} {} 1/2", nodes_like(n, at), b),
                1 => format!("{} {} 1/2", a, nodes_like(n, at)),
                2 => format!("{} {} {}", a, b, not_vector(at)),
                _ => format!("{} {}", a, ["1/2", "", " 1/2", "/ 1/2"][at % 4]),
            };
        }
        10 => {
            let k = 1 + at % 5;
            let len = s[k].1.len() - 1;
            s[k].1[0] = match pick % 8 {
                0 => format!("count {}", len + 1),
                1 => format!("count {}", len - 1),
                2 => "count".into(),
                3 => format!("count -{}", len),
                4 => format!("count {}", len + 2 + pick),
                5 => format!("{}", len),
                6 => format!("Count {}", len),
                _ => format!("count {} {}", len, len),
            };
        }
        11 => {
            let k = 1 + at % 2;
            let len = s[k].1.len() - 1;
            let i = 1 + pick % len;
            let rest = s[k].1[i].split_once(' ').unwrap().1.to_string();
            s[k].1[i] = match pick / len % 5 {
                0 => format!("{} {}", i, rest),
                1 => format!("{} {}", i + 7, rest),
                2 => rest,
                3 => format!("{}", i - 1),
                _ => format!("x{} {}", i - 1, rest),
            };
        }
        12 => {
            let k = at % 6;
            match pick % 6 {
                0 => {
                    s.remove(k);
                }
                1 => s.swap(k, (k + 1) % 6),
                2 => s[k].0 = s[k].0.to_lowercase(),
                3 => {
                    let mut l = lines(&s);
                    let end = format!("$End{}", s[k].0);
                    l.retain(|x| *x != end);
                    return Some(w.dressed(&l, c.style.end));
                }
                4 => {
                    let mut l = lines(&s);
                    let start = format!("${}", s[k].0);
                    l.retain(|x| *x != start);
                    return Some(w.dressed(&l, c.style.end));
                }
                _ => {
                    // a section twice is not the next one
                    let x = s[k].clone();
                    s.insert(k, x);
                }
            }
        }
        13 => {
            let plain = Writer::new(&Style { seed: 0, plain: true, end: false });
            let text = plain.dressed(&lines(&s), false);
            let cut = at * 7919 % text.len();
            return Some(text.chars().take(cut).collect());
        }
        15 => {
            // one number replaced, in any section
            let k = [1, 4, 5][at % 3];
            let i = 1 + pick % (s[k].1.len() - 1);
            let (head, tail) = s[k].1[i].rsplit_once('/').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
            let bad = ["", "nan", "inf", "-", "1.2.3", "1e", "--1", "1_000", "0x1", "1f", "e5", "1 ", " 1", "infinity", "NaN"][pick % 15];
            let _ = tail;
            s[k].1[i] = format!("{}/{}", head, bad);
        }
        _ => {}
    }
    Some(w.dressed(&lines(&s), c.style.end))
}

fn check_broken(c: &Broken) -> Result<Info, Fail> {
    if c.kind == 14 {
        // a file that is in order under a name that is not
        let w = Writer::new(&c.style);
        let text = w.dressed(&lines(&sections(&c.model, &w)), c.style.end);
        let name = ["c23", "c23.txt", "c23.BMSH", "c23.bbnd", "c23.bmsh.gz", "c23.", ".bmsh", "c23.bmsh2"][c.pick % 8];
        let r = read(text.as_bytes(), name)?;
        // (.bmsh becomes t0-.bmsh, which is a mesh file)
        if name == ".bmsh" {
            ensure!(r.is_ok(), "refused under a proper name");
        } else {
            ensure!(r.is_err(), "accepted as {}", name);
        }
        let gone = scratch("c23-not-there.bmsh");
        let r = attempt(|| file::read_to_elas(&gone)).map_err(|e| Fail::from(format!("a missing file ended in a panic: {}", e)))?;
        ensure!(matches!(r, Err(FileError::NoOpen)), "a missing file was read");
        return ok_tags(true, vec![KIND_NAMES[14]]);
    }
    let Some(text) = spoiled(c) else { return ok_tags(false, vec!["no effect"]) };
    match read(text.as_bytes(), "c23.bmsh")? {
        Err(e) => {
            ensure!(!e.to_string().is_empty(), "the error says nothing");
            ok_tags(true, vec![KIND_NAMES[c.kind as usize]])
        }
        Ok(_) => Err(format!("accepted with {}:\n{}", KIND_NAMES[c.kind as usize], text).into()),
    }
}

// anything at all: read or refused, never a panic

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Noise {
    model: Model,
    style: Style,
    edits: Vec<(u8, usize, usize)>,
}

fn noise() -> BoxedStrategy<Noise> {
    (model(2), style(), prop::collection::vec((0u8..9, 0usize..100_000, 0usize..100_000), 1..6)).prop_map(|(model, style, edits)| Noise { model, style, edits }).boxed()
}

fn check_noise(c: &Noise) -> Result<Info, Fail> {
    let w = Writer::new(&c.style);
    let text = w.dressed(&lines(&sections(&c.model, &w)), c.style.end);
    let mut b: Vec<u8> = text.into_bytes();
    for (kind, i, j) in &c.edits {
        if b.is_empty() {
            break;
        }
        let i = i % b.len();
        let starts: Vec<usize> = std::iter::once(0).chain((0..b.len() - 1).filter(|k| b[*k] == b'\n').map(|k| k + 1)).collect();
        let line = |k: usize| {
            let s = starts[k % starts.len()];
            s..b[s..].iter().position(|c| *c == b'\n').map_or(b.len(), |e| s + e + 1)
        };
        match kind {
            0 => b[i] = (j % 256) as u8,
            1 => b[i] = b"0123456789/ -.e\n$#x"[j % 19],
            2 => {
                b.remove(i);
            }
            3 => b.insert(i, b"0123456789/ -.e\n$#x"[j % 19]),
            4 => {
                let l = line(*j);
                b.drain(l);
            }
            5 => {
                let l = b[line(*j)].to_vec();
                let at = line(i).start;
                b.splice(at..at, l);
            }
            6 => {
                b.truncate(i);
            }
            7 => {
                let t: &[u8] = [&b"nan"[..], b"inf", b"1e400", b"-1", b"18446744073709551615", b"99999999999", b"$EndNodes\n", b"count 0\n", b"angle:", b"\r\n", b"\xff", b"\xef\xbb\xbf", b"/", b"0"][j % 14];
                b.splice(i..i, t.iter().copied());
            }
            _ => {
                let (x, y) = (line(i), line(*j));
                if x.end <= y.start {
                    let (p, q) = (b[x.clone()].to_vec(), b[y.clone()].to_vec());
                    b.splice(y, p);
                    b.splice(x, q);
                }
            }
        }
    }
    let r = read(&b, "c23.bmsh")?;
    let mut judged = false;
    if let Ok(e) = &r {
        // what was accepted says what the model holds, every line of it
        if let Ok(text) = std::str::from_utf8(&b) {
            match said(text) {
                Err(why) => return Err(format!("accepted with a mistake ({}):\n{}", why, text).into()),
                Ok(m) if clear(&m) => {
                    judged = true;
                    m.same(e).map_err(|f| Fail { msg: format!("{}\n{}", f.msg, text), sig: None })?;
                }
                Ok(_) => {}
            }
        }

        // whatever was accepted is a model: finite, with references that exist
        let n = e.node_count();
        ensure!(e.nodes().iter().all(|p| p.dim() == 2 && p[0].is_finite() && p[1].is_finite()), "a position is not finite");
        ensure!(e.element_descriptors().into_iter().all(|d| d.into_parts().iter().all(|x| x.into_idx() < n)), "an element has a node that is not there");
        ensure!(e.conc_forces().iter().all(|(k, _)| k.into_idx() < n), "a force is on no node");
    }
    ok_tags(true, vec![if judged { "still readable, compared" } else if r.is_ok() { "still readable" } else { "refused" }])
}

/// no two lines about the same load, and none that combines with an angle
fn clear(m: &Model) -> bool {
    let once = |v: Vec<(usize, usize)>| v.iter().collect::<std::collections::HashSet<_>>().len() == v.len();
    let angle = |n: usize| m.cons.iter().filter(|c| c.0 == n).count() > 1 && m.cons.iter().any(|c| c.0 == n && matches!(c.1, Con::Angle(_)));
    once(m.forces.iter().map(|f| (f.0, 0)).collect()) && once(m.dist.iter().map(|f| (f.0, f.1)).collect()) && !m.cons.iter().any(|c| angle(c.0))
}

/// The model the lines of a mesh file describe, read more leniently than the format asks for (white space at the
/// ends of lines, any notation of numbers); what even this cannot read has to be refused.
fn said(text: &str) -> Result<Model, String> {
    let mut lines = text.split('\n').filter(|l| !l.starts_with('#')).map(|l| l.trim()).filter(|l| !l.is_empty());
    let num = |s: &str| -> Result<f64, String> { s.trim().parse::<f64>().ok().filter(|x| x.is_finite()).ok_or(format!("the number {:?}", s)) };
    let int = |s: &str| -> Result<usize, String> { s.trim().parse::<usize>().map_err(|_| format!("the number {:?}", s)) };
    let mut next = || lines.next().ok_or(String::from("the end is missing"));
    fn want(l: &str, w: &str) -> Result<(), String> {
        if l == w { Ok(()) } else { Err(format!("{:?} instead of {:?}", l, w)) }
    }
    fn after<'a>(l: &'a str, name: &str) -> Result<&'a str, String> {
        l.strip_prefix(name).map(|r| r.trim()).ok_or(format!("{:?} instead of {:?}", l, name))
    }
    want(next()?, "$Header")?;
    if int(after(next()?, "version ")?)? != 1 {
        return Err("the version".into());
    }
    let test = match after(next()?, "material ")? {
        "TEST" => true,
        "AL6061" => false,
        m => return Err(format!("the material {:?}", m)),
    };
    let cond = {
        let c = after(next()?, "condition ")?;
        if c == "axisymmetric" {
            Cond::Axi
        } else if let Some(t) = c.strip_prefix("planestrain ") {
            Cond::Strain(num(t)?)
        } else if let Some(t) = c.strip_prefix("planestress ") {
            Cond::Stress(num(t)?)
        } else {
            return Err(format!("the condition {:?}", c));
        }
    };
    want(next()?, "$EndHeader")?;
    let mut lists: Vec<Vec<&str>> = vec![];
    for name in ["Nodes", "Elements", "Constraints", "Forces", "DistForces"] {
        want(next()?, &format!("${}", name))?;
        let count = int(after(next()?, "count ")?)?;
        let mut l = vec![];
        for _ in 0..count {
            l.push(next()?);
        }
        want(next()?, &format!("$End{}", name))?;
        lists.push(l);
    }
    if let Ok(l) = next() {
        return Err(format!("{:?} after the end", l));
    }
    let split = |l: &str| -> (String, String) { l.split_once(' ').map_or((l.to_string(), String::new()), |(a, b)| (a.to_string(), b.trim().to_string())) };
    let vector = |s: &str| -> Result<V, String> {
        match s.split_once('/') {
            Some((a, b)) => Ok((num(a)?, num(b)?)),
            None => Err(format!("the vector {:?}", s)),
        }
    };
    let (mut nodes, mut elems, mut cons, mut forces, mut dist) = (vec![], vec![], vec![], vec![], vec![]);
    for (i, l) in lists[0].iter().enumerate() {
        let (k, v) = split(l);
        if int(&k)? != i {
            return Err(format!("node {} instead of {}", k, i));
        }
        nodes.push(vector(&v)?);
    }
    let node = |s: &str| int(s).and_then(|i| if i < nodes.len() { Ok(i) } else { Err(format!("node {} of {}", i, nodes.len())) });
    for (i, l) in lists[1].iter().enumerate() {
        let (k, v) = split(l);
        if int(&k)? != i {
            return Err(format!("element {} instead of {}", k, i));
        }
        let c = v.split('/').map(node).collect::<Result<Vec<usize>, String>>()?;
        if c.len() != 3 || c[0] == c[1] || c[1] == c[2] || c[2] == c[0] {
            return Err(format!("the element {:?}", v));
        }
        elems.push([c[0], c[1], c[2]]);
    }
    for l in &lists[2] {
        let (k, v) = split(l);
        let con = match &v[..] {
            "free" => Con::Free,
            "x" => Con::X,
            "y" => Con::Y,
            "xy" => Con::XY,
            v => Con::Angle(num(after(v, "angle:")?)?),
        };
        cons.push((node(&k)?, con));
    }
    for l in &lists[3] {
        let (k, v) = split(l);
        forces.push((node(&k)?, vector(&v)?));
    }
    for l in &lists[4] {
        let (k, v) = split(l);
        let (m, v) = split(&v);
        dist.push((node(&k)?, node(&m)?, vector(&v)?));
    }
    Ok(Model { test, cond, nodes, elems, cons, forces, dist })
}

pub fn property() -> Property {
    Property {
        id: "C23",
        families: vec![
            Box::new(Family { name: "written", rule: "a file with elements, in some notation", quick: 120_000, thorough: 4_000_000, strategy: written, check: check_written }),
            Box::new(Family { name: "written-vast", rule: "a file with a list of over 65536 lines", quick: 240, thorough: 8_000, strategy: vast, check: check_vast }),
            Box::new(Family { name: "broken", rule: "a file with one mistake", quick: 250_000, thorough: 8_000_000, strategy: broken, check: check_broken }),
            Box::new(Family { name: "noise", rule: "a file with random edits", quick: 250_000, thorough: 8_000_000, strategy: noise, check: check_noise }),
        ],
        assumptions: vec!["the format is that of the comment in src/file/bmsh.rs as far as it is implemented"],
    }
}
