//! C29: the command line gives the results of the library and refuses wrong arguments.

use crate::dress::*;
use crate::ensure;
use crate::model::*;
use crate::pbt::*;
use crate::poly::*;
use bugi::element::{Deformation, ElementAssemblage};
use bugi::file;
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::visual::{color, VisOptions, Visualizer};
use image::RgbImage;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// An empty directory of this thread, to run the program in.
fn place() -> PathBuf {
    let dir = scratch("c29");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

struct Ran {
    code: Option<i32>,
    out: String,
    /// the files that were not there before or held something else
    new: BTreeSet<String>,
}

fn holds(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(dir).unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap())).collect()
}

/// leaves files of another program where the results go
fn leave(dir: &Path, names: &[String]) {
    let text = "$Nodes\n0 / 0.125 / -7.5\n$EndNodes\n".repeat(6000);
    for (i, n) in names.iter().enumerate() {
        std::fs::write(dir.join(n), &text[..text.len() >> (8 * (i % 2))]).unwrap();
    }
}

fn bugi(dir: &Path, args: &[String]) -> Result<Ran, Fail> {
    let before = holds(dir);
    let program = std::env::var_os("BUGI_CLI").expect("BUGI_CLI");
    // (a command that runs away must not take the memory of the others)
    let mut child = Command::new("sh").args(["-c", "ulimit -v 3000000; exec \"$0\" \"$@\""]).arg(program).args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("RUST_BACKTRACE").spawn().expect("the program starts");
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if start.elapsed() > Duration::from_secs(25) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("bugi {} does not end", args.join(" ")).into());
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    let mut out = String::new();
    child.stdout.take().unwrap().read_to_string(&mut out).map_err(|_| Fail::from(String::from("the output is no text")))?;
    let after = holds(dir);
    if let Some(gone) = before.keys().find(|n| !after.contains_key(*n)) {
        return Err(format!("bugi {} removed {}", args.join(" "), gone).into());
    }
    let new = after.into_iter().filter(|(n, v)| before.get(n) != Some(v)).map(|(n, _)| n).collect();
    Ok(Ran { code: status.code(), out, new })
}

fn texts(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// options of the pictures, and in which notation they are given
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Looks {
    size: Option<u32>,
    map: u8,
    mesh: Option<bool>,
    out: bool,
    long: bool,
    first: bool,
    /// there are files where the results go
    #[serde(default)]
    stale: bool,
}

fn looks() -> BoxedStrategy<Looks> {
    (prop_oneof![1 => Just(None), 9 => prop_oneof![Just(1u32), 2u32..300].prop_map(Some)], 0u8..3, prop::option::of(any::<bool>()), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(|(size, map, mesh, out, long, first, stale)| Looks { size, map, mesh, out, long, first, stale })
        .boxed()
}

impl Looks {
    fn pixels(&self) -> u32 {
        self.size.unwrap_or(1024)
    }
    fn options(&self) -> VisOptions {
        let o = VisOptions::new().im_size(self.pixels()).show_mesh(self.mesh.unwrap_or(true));
        match self.map {
            0 => o,
            1 => o.color_map(Box::new(color::hot_map)),
            _ => o.color_map(Box::new(color::rgb_map)),
        }
    }
    fn opt(&self, short: &str, long: &str, val: impl ToString) -> Vec<String> {
        let val = val.to_string();
        // (what begins with a dash is not taken for a value where it stands alone)
        let apart = if val.starts_with('-') { 1 } else { val.len() % 2 };
        match (self.long, apart) {
            (true, 0) => vec![format!("--{}", long), val],
            (true, _) => vec![format!("--{}={}", long, val)],
            (false, 0) => vec![format!("-{}", short), val],
            (false, _) => vec![format!("-{}{}", short, val)],
        }
    }
    fn args(&self) -> Vec<Vec<String>> {
        let mut a = vec![];
        if let Some(s) = self.size {
            a.push(self.opt("i", "imsize", s));
        }
        if self.map > 0 {
            a.push(self.opt("c", "colormap", ["hot", "rgb"][self.map as usize - 1]));
        }
        if let Some(m) = self.mesh {
            a.push(vec!["--showmesh".into(), m.to_string()]);
        }
        a
    }
    /// the command with its options before or after the file
    fn command(&self, name: &str, files: &[&str], opts: Vec<Vec<String>>) -> Vec<String> {
        let mut a = vec![name.to_string()];
        if self.first {
            a.extend(texts(files));
        }
        a.extend(opts.into_iter().flatten());
        if !self.first {
            a.extend(texts(files));
        }
        a
    }
}

fn picture(p: &Path, pixels: u32) -> Result<RgbImage, Fail> {
    let img = image::open(p).map_err(|e| Fail::from(format!("{:?} holds no image: {}", p.file_name(), e)))?.to_rgb8();
    ensure!(img.width() == pixels && img.height() == pixels, "an image of {} by {}, asked for {}", img.width(), img.height(), pixels);
    Ok(img)
}

/// the picture the library draws, up to a few pixels
fn pictured(dir: &Path, name: &str, vis: &mut Visualizer, l: &Looks, slack: f64) -> Result<(), Fail> {
    let img = picture(&dir.join(name), l.pixels())?;
    let own = dir.join("own.png");
    vis.draw(own.to_str().unwrap(), l.options());
    let want = picture(&own, l.pixels())?;
    std::fs::remove_file(&own).unwrap();
    let other = img.pixels().zip(want.pixels()).filter(|(a, b)| a != b).count();
    let drawn = want.pixels().filter(|p| p.0 != want.get_pixel(0, 0).0).count();
    ensure!(other as f64 <= 3.0 + slack * drawn as f64, "{} shows another picture than the library draws: {} pixels of {}", name, other, drawn);
    Ok(())
}

/// by how much of the body's size its largest displacement is shown: sometimes far more than the body itself
fn shown() -> BoxedStrategy<Option<f64>> {
    prop::option::of(prop_oneof![2 => Just(0.0), 4 => 0.0f64..1.0, 2 => -1.0f64..0.0, 1 => (0i32..500).prop_map(|k| (k as f64).exp2())]).boxed()
}

fn largest(v: Vec<f64>) -> f64 {
    v.into_iter().fold(f64::MIN, f64::max)
}

fn close(text: Option<&str>, prefix: &str, want: f64) -> Result<(), Fail> {
    let got = text.and_then(|t| t.strip_prefix(prefix)).and_then(|t| t.parse::<f64>().ok());
    ensure!(got.map_or(false, |x| (x - want).abs() <= 1e-8 * want.abs()), "the output says {:?} for {}{}", text, prefix, want);
    Ok(())
}

/// writes a model and says what is read from it
fn written(dir: &Path, m: &Model, s: &Style) -> Result<ElementAssemblage, Fail> {
    let w = Writer::new(s);
    let p = dir.join("in.bmsh");
    std::fs::write(&p, w.dressed(&lines(&sections(m, &w)), s.end)).unwrap();
    file::read_to_elas(&p).map_err(|e| Fail::from(format!("the model cannot be read: {}", e)))
}

// static solutions

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Linear {
    on: Solved,
    style: Style,
    solver: u8,
    value: u8,
    /// by how much of its size the body is shown deformed
    shown: Option<f64>,
    looks: Looks,
}

fn linear() -> BoxedStrategy<Linear> {
    (solved(), style(), 0u8..4, 0u8..3, shown(), looks())
        .prop_map(|(on, style, solver, value, shown, looks)| Linear { on, style, solver, value, shown, looks })
        .boxed()
}

fn check_linear(c: &Linear) -> Result<Info, Fail> {
    let dir = place();
    let m = solved_model(&c.on);
    let mut e = written(&dir, &m, &c.style)?;
    let solution = attempt(|| -> Result<(f64, f64, Vec<f64>, Vec<f64>), Fail> {
        let d = solve(&mut e, c.solver);
        Ok((largest(d.von_mises()), largest(d.displacement_norms()), d.von_mises(), d.displacement_norms()))
    });
    // (iteration does not always converge)
    let Ok(Ok((mises, top, all_mises, norms))) = solution else {
        let r = bugi(&dir, &c.looks.command("linear", &["in.bmsh"], vec![c.looks.opt("s", "solver", "gaussseidel")]))?;
        ensure!(c.solver == 3, "no solution");
        ensure!(r.code != Some(0) && r.out.is_empty(), "a result without a solution: {}", r.out);
        return ok_tags(false, vec!["not converged"]);
    };
    if top == 0.0 {
        return ok_tags(false, vec!["no load"]);
    }
    let scale = c.shown.map(|s| s * (c.on.size as f64).exp2() / top);
    let l = &c.looks;
    let mut opts = l.args();
    if c.solver > 0 {
        opts.push(l.opt("s", "solver", ["densegauss", "cholesky", "gaussseidel"][c.solver as usize - 1]));
    }
    if c.value > 0 {
        opts.push(l.opt("n", "nodevalue", ["displacement", "vonmises"][c.value as usize - 1]));
    }
    if let Some(s) = scale {
        opts.push(l.opt("x", "scale", format!("{:e}", s)));
    }
    if l.out {
        opts.push(l.opt("o", "out", "shown.png"));
    }
    let cmd = l.command("linear", &["in.bmsh"], opts);
    let png = if l.out { "shown.png" } else { "out.png" };
    if l.stale {
        leave(&dir, &texts(&[png]));
    }
    let r = bugi(&dir, &cmd)?;
    let text = cmd.join(" ");
    ensure!(r.code == Some(0), "bugi {} ended with {:?}", text, r.code);
    let mut said = r.out.lines();
    close(said.next(), "max von mises: ", mises)?;
    close(said.next(), "max displacement: ", top)?;
    ensure!(said.next().is_none(), "more output: {}", r.out);
    ensure!(r.new.iter().eq([png]), "bugi {} wrote {:?}", text, r.new);
    let d = solve(&mut e, c.solver);
    let mut vis = d.visualize(scale.unwrap_or(50.0));
    vis.set_vals(if c.value == 2 { all_mises } else { norms });
    pictured(&dir, png, &mut vis, l, 0.01)?;
    ok_tags(true, vec![["default", "densegauss", "cholesky", "gaussseidel"][c.solver as usize]])
}

fn solve(e: &mut ElementAssemblage, solver: u8) -> Deformation<'_> {
    match solver {
        2 => e.calc_displacements::<CholeskyEnvelopeSolver>(),
        3 => e.calc_displacements::<GaussSeidelSolver>(),
        _ => e.calc_displacements::<DenseGaussSolver>(),
    }
}

// modes

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Modal {
    on: Solved,
    style: Style,
    num: usize,
    shown: Option<f64>,
    looks: Looks,
}

fn modal() -> BoxedStrategy<Modal> {
    (solved(), style(), prop_oneof![6 => 1usize..6, 1 => 6usize..20], shown(), looks()).prop_map(|(on, style, num, shown, looks)| Modal { on, style, num, shown, looks }).boxed()
}

/// more than a hundred modes
fn modal_many() -> BoxedStrategy<Modal> {
    (solved_of(9usize..14, 5usize..8), style(), 98usize..108, shown(), looks())
        .prop_map(|(on, style, num, shown, mut looks)| {
            looks.size = Some(1 + looks.size.unwrap_or(9) % 9);
            Modal { on, style, num, shown, looks }
        })
        .boxed()
}

fn check_modal(c: &Modal) -> Result<Info, Fail> {
    let dir = place();
    let m = solved_model(&c.on);
    let mut e = written(&dir, &m, &c.style)?;
    let num = c.num.min((2 * m.nodes.len() - 4) / 2);
    if num == 0 {
        return ok_tags(false, vec!["too small"]);
    }
    let modes = e.calc_modes(num);
    ensure!(modes.len() == num, "{} modes for {}", modes.len(), num);
    let top = modes.iter().map(|d| largest(d.displacement_norms())).fold(0.0, f64::max);
    let scale = c.shown.map(|s| s * (c.on.size as f64).exp2() / top);
    let l = &c.looks;
    let mut opts = l.args();
    if let Some(s) = scale {
        opts.push(l.opt("x", "scale", format!("{:e}", s)));
    }
    let count = num.to_string();
    let cmd = l.command("modal", &["in.bmsh", &count], opts);
    if l.stale {
        leave(&dir, &[0, num - 1, num].map(|i| format!("out_{:02}.png", i)));
    }
    let r = bugi(&dir, &cmd)?;
    let text = cmd.join(" ");
    ensure!(r.code == Some(0), "bugi {} ended with {:?}", text, r.code);
    ensure!(r.out.lines().count() == num, "{} lines of output for {} modes", r.out.lines().count(), num);
    let mut before = 0.0;
    for (i, line) in r.out.lines().enumerate() {
        let got = line.strip_prefix(&format!("mode {:02} frequency (rad/s): ", i)).and_then(|t| t.parse::<f64>().ok());
        let want = modes[i].frequency().unwrap();
        ensure!(got.map_or(false, |x| (x - want).abs() <= 6e-6 + 1e-8 * want), "the output says {:?} for mode {} of {}", line, i, want);
        ensure!(got.unwrap() >= before, "mode {} below the one before", i);
        before = got.unwrap();
    }
    let images: BTreeSet<String> = (0..num).map(|i| format!("out_{:02}.png", i)).collect();
    ensure!(r.new == images, "bugi {} wrote {:?}", text, r.new);
    for (i, d) in modes.iter().enumerate() {
        let name = &format!("out_{:02}.png", i);
        let mut vis = d.visualize(scale.unwrap_or(50.0));
        vis.set_vals(d.displacement_norms());
        pictured(&dir, name, &mut vis, l, 0.01)?;
    }
    ok(num > 1)
}

// meshes

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Meshed {
    on: Dressed,
    cond: Cond,
    mat: bool,
    rel: f64,
    /// 0 default, 1 Chew, 2 Ruppert
    mesher: u8,
    looks: Looks,
    /// the files are named
    named: bool,
    style: Style,
}

fn meshed() -> BoxedStrategy<Meshed> {
    (dressed(body()), cond(), any::<bool>(), 0.25f64..1.0, 0u8..3, looks(), any::<bool>(), style())
        .prop_map(|(mut on, cond, mat, rel, mesher, looks, named, style)| {
            // (the format has no constraints of single corners)
            on.corners.clear();
            Meshed { on, cond, mat, rel, mesher, looks, named, style }
        })
        .boxed()
}

fn outline(on: &Dressed, cond: Cond, mat: bool, s: &Style) -> String {
    let w = Writer::new(s);
    let mut t = vec![];
    let mut at = 0;
    let mut ends = vec![];
    for r in &on.body.rings {
        t.push("polygon".to_string());
        for (i, p) in r.iter().enumerate() {
            t.push(format!("{} {} v{}", w.num(p.0), w.num(p.1), at + i));
            ends.push((at + i, at + (i + 1) % r.len()));
        }
        at += r.len();
        t.push("end".into());
    }
    t.push(match cond {
        Cond::Strain(t) => format!("condition planestrain {}", w.num(t)),
        Cond::Stress(t) => format!("condition planestress {}", w.num(t)),
        Cond::Axi => "condition axisymmetric".into(),
    });
    t.push(format!("material {}", if mat { "TEST" } else { "AL6061" }));
    let pair = |side: usize, turned: bool| {
        let (a, b) = ends[side];
        if turned { (b, a) } else { (a, b) }
    };
    for (side, turned, f) in &on.forces {
        let (a, b) = pair(*side, *turned);
        t.push(format!("distributed_force v{} v{} {} {}", a, b, w.num(f.0), w.num(f.1)));
    }
    for (side, turned, c) in &on.cons {
        let (a, b) = pair(*side, *turned);
        t.push(format!("distributed_constraint v{} v{} {}", a, b, con_text(*c, &w)));
    }
    t.join("\n")
}

fn check_meshed(c: &Meshed) -> Result<Info, Fail> {
    let h = c.on.body.feature() * c.rel;
    if !suitable(&c.on.body, c.mesher.saturating_sub(1), h, 400.0) {
        return ok_tags(false, vec!["not for this mesher"]);
    }
    let dir = place();
    std::fs::write(dir.join("in.bbnd"), outline(&c.on, c.cond, c.mat, &c.style)).unwrap();
    let l = &c.looks;
    let size = if c.mesher == 2 { 3.0 * h } else { h };
    let mut opts = vec![l.opt("s", "elementsize", Writer::new(&c.style).num(size))];
    if c.mesher > 0 {
        opts.push(l.opt("m", "mesher", ["chew", "ruppert"][c.mesher as usize - 1]));
    }
    if let Some(s) = l.size {
        opts.push(l.opt("i", "imsize", s));
    }
    if c.named {
        opts.push(l.opt("M", "meshout", "made.bmsh"));
    }
    if l.out {
        opts.push(l.opt("I", "imageout", "made.png"));
    }
    let cmd = l.command("mesh", &["in.bbnd"], opts);
    let text = cmd.join(" ");
    let png = if l.out { "made.png" } else { "out.png" };
    let msh = if c.named { "made.bmsh" } else { "out.bmsh" };
    for _ in 0..tries() {
        if l.stale {
            leave(&dir, &texts(&[msh, png]));
        }
        let r = bugi(&dir, &cmd)?;
        ensure!(r.code == Some(0), "bugi {} ended with {:?}", text, r.code);
        ensure!(r.new.len() == 2 && r.new.contains(png) && r.new.contains(msh), "bugi {} wrote {:?}", text, r.new);
        ensure!(r.out.is_empty(), "bugi {} said {}", text, r.out);
        let e = file::read_to_elas(dir.join(msh)).map_err(|e| Fail::from(format!("the mesh cannot be read: {}", e)))?;
        let m = from_file(&e, &c.on.body)?;
        tiles(&m, &c.on.body)?;
        carries(&c.on, c.cond, c.mat, &m, &e)?;
        for (i, t) in m.tris.iter().enumerate() {
            let p = t.map(|n| m.nodes[n]);
            let r = circumradius(p[0], p[1], p[2]);
            ensure!(r <= size * (1.0 + 1e-9), "triangle {} at {:?} has the circumradius {} for the size {}", i, p, r, size);
        }
        let mut vis: Visualizer = e.nodes().into();
        vis.set_edges(e.edges());
        let plain = Looks { map: 0, mesh: None, ..l.clone() };
        // (lines are drawn from either end)
        pictured(&dir, png, &mut vis, &plain, 0.1)?;
        for f in r.new {
            std::fs::remove_file(dir.join(f)).unwrap();
        }
    }
    ok_tags(!c.on.forces.is_empty() || !c.on.cons.is_empty(), vec![["default", "chew", "ruppert"][c.mesher as usize]])
}

// from a boundary file to the result: a plate under uniform traction

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Chain {
    w: f64,
    h: f64,
    size: i32,
    rel: f64,
    mesher: u8,
    cond: Cond,
    mat: bool,
    traction: V,
    turned: Vec<bool>,
    solver: u8,
    style: Style,
}

fn chain() -> BoxedStrategy<Chain> {
    (
        (0.6f64..4.0, 0.6f64..4.0, -10i32..10, 0.25f64..0.9, 0u8..2),
        prop_oneof![(0.01f64..3.0).prop_map(Cond::Strain), (0.01f64..3.0).prop_map(Cond::Stress)],
        any::<bool>(),
        (-10.0f64..10.0, -10.0f64..10.0),
        prop::collection::vec(any::<bool>(), 4),
        1u8..3,
        style(),
    )
        .prop_map(|((w, h, size, rel, mesher), cond, mat, traction, turned, solver, style)| Chain { w, h, size, rel, mesher, cond, mat, traction, turned, solver, style })
        .boxed()
}

fn check_chain(c: &Chain) -> Result<Info, Fail> {
    let k = (c.size as f64).exp2();
    let (w, h) = (c.w * k, c.h * k);
    let body = Body { rings: vec![vec![(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)]] };
    let edge = c.rel * w.min(h);
    if !suitable(&body, c.mesher, edge, 200.0) {
        return ok_tags(false, vec!["not for this mesher"]);
    }
    let (fx, fy) = c.traction;
    let t = &c.turned;
    let on = Dressed { body, forces: vec![(1, t[1], (fx, 0.0)), (2, t[2], (0.0, fy))], cons: vec![(0, t[0], Con::Y), (3, t[3], Con::X)], corners: vec![] };
    let dir = place();
    std::fs::write(dir.join("in.bbnd"), outline(&on, c.cond, c.mat, &c.style)).unwrap();
    let r = bugi(&dir, &texts(&["mesh", "in.bbnd", "-s", &edge.to_string(), "-m", ["chew", "ruppert"][c.mesher as usize], "-i", "20"]))?;
    ensure!(r.code == Some(0), "meshing ended with {:?}", r.code);
    let r = bugi(&dir, &texts(&["linear", "out.bmsh", "-s", ["densegauss", "cholesky"][c.solver as usize - 1], "-i", "20", "-o", "res.png"]))?;
    ensure!(r.code == Some(0), "solving ended with {:?}", r.code);
    let mat = materials(c.mat);
    let (t, strain) = match c.cond {
        Cond::Strain(t) => (t, true),
        Cond::Stress(t) => (t, false),
        Cond::Axi => unreachable!(),
    };
    let (sx, sy) = (fx / t, fy / t);
    let (young, nu) = if strain { (mat.youngs / (1.0 - mat.poisson * mat.poisson), mat.poisson / (1.0 - mat.poisson)) } else { (mat.youngs, mat.poisson) };
    let (ex, ey) = ((sx - nu * sy) / young, (sy - nu * sx) / young);
    let sz = if strain { mat.poisson * (sx + sy) } else { 0.0 };
    let mises = (((sx - sy).powi(2) + (sy - sz).powi(2) + (sz - sx).powi(2)) / 2.0).sqrt();
    let want = [mises, (ex * w).hypot(ey * h)];
    let lines: Vec<&str> = r.out.lines().collect();
    ensure!(lines.len() == 2, "the output is {}", r.out);
    for i in 0..2 {
        let got = lines[i].strip_prefix(["max von mises: ", "max displacement: "][i]).and_then(|t| t.parse::<f64>().ok());
        let slack = [1e-5 * sx.abs().max(sy.abs()), 1e-6 * (ex * w).hypot(ey * h)][i];
        ensure!(got.map_or(false, |x| (x - want[i]).abs() <= slack), "the output says {:?}, elasticity {}", lines[i], want[i]);
    }
    ok_tags(true, vec![["chew", "ruppert"][c.mesher as usize]])
}

// wrong arguments

const BAD_MESH: &[&[&str]] = &[
    &["mesh", "in.bbnd"],
    &["mesh", "-s", "SIZE"],
    &["mesh", "in.bbnd", "-s", "abc"],
    &["mesh", "in.bbnd", "-s", "0"],
    &["mesh", "in.bbnd", "-s=-0.5"],
    &["mesh", "in.bbnd", "-s", "nan"],
    &["mesh", "in.bbnd", "-s", "0.5x"],
    &["mesh", "in.bbnd", "-s", "0,5"],
    &["mesh", "in.bbnd", "-s", "SIZE", "-m", "delaunay"],
    &["mesh", "in.bbnd", "-s", "SIZE", "-m", "Chew"],
    &["mesh", "in.bbnd", "-s", "SIZE", "-m", "chew "],
    &["mesh", "in.bbnd", "-s", "SIZE", "-i", "abc"],
    &["mesh", "in.bbnd", "-s", "SIZE", "-i", "1.5"],
    &["mesh", "in.bbnd", "-s", "SIZE", "-i=-3"],
    &["mesh", "in.bbnd", "-s", "SIZE", "-i", "99999999999"],
    &["mesh", "in.bbnd", "-s", "SIZE", "extra"],
    &["mesh", "in.bbnd", "-s", "SIZE", "--nothing"],
    &["mesh", "gone.bbnd", "-s", "SIZE"],
    &["mesh", "in.bmsh", "-s", "SIZE"],
    &["mesh", "in", "-s", "SIZE"],
    &["mesh", "bad.bbnd", "-s", "SIZE"],
    &["mesh", "empty.bmsh", "-s", "SIZE"],
];
const BAD_LINEAR: &[&[&str]] = &[
    &["linear"],
    &["linear", "in.bmsh", "-s", "gauss"],
    &["linear", "in.bmsh", "-s", "DenseGauss"],
    &["linear", "in.bmsh", "-c", "cold"],
    &["linear", "in.bmsh", "-c", "HOT"],
    &["linear", "in.bmsh", "-n", "stress"],
    &["linear", "in.bmsh", "-n", "displacements"],
    &["linear", "in.bmsh", "-x", "abc"],
    &["linear", "in.bmsh", "-x", "1,5"],
    &["linear", "in.bmsh", "-i", "abc"],
    &["linear", "in.bmsh", "-i", "10.5"],
    &["linear", "in.bmsh", "-i=-1"],
    &["linear", "in.bmsh", "--showmesh", "yes"],
    &["linear", "in.bmsh", "--showmesh", "True"],
    &["linear", "in.bmsh", "extra"],
    &["linear", "in.bmsh", "--mesh"],
    &["linear", "gone.bmsh"],
    &["linear", "in.bbnd"],
    &["linear", "in"],
    &["linear", "bad.bmsh"],
    &["linear", "empty.bmsh"],
];
const BAD_MODAL: &[&[&str]] = &[
    &["modal"],
    &["modal", "in.bmsh"],
    &["modal", "in.bmsh", "abc"],
    &["modal", "in.bmsh", "1.5"],
    &["modal", "in.bmsh", "1", "2"],
    &["modal", "in.bmsh", "1", "-c", "cold"],
    &["modal", "in.bmsh", "1", "-x", "abc"],
    &["modal", "in.bmsh", "1", "-i", "abc"],
    &["modal", "in.bmsh", "1", "--showmesh", "1"],
    &["modal", "in.bmsh", "1", "-s", "cholesky"],
    &["modal", "gone.bmsh", "1"],
    &["modal", "in.bbnd", "1"],
    &["modal", "bad.bmsh", "1"],
    &["modal", "empty.bmsh", "1"],
    &["modes", "in.bmsh", "1"],
    &["--linear", "in.bmsh"],
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wrong {
    kind: u8,
    at: usize,
    on: Solved,
    body: Meshed,
    cut: usize,
    style: Style,
}

fn wrong() -> BoxedStrategy<Wrong> {
    (0u8..3, 0usize..1000, solved(), meshed(), 0usize..10_000, style()).prop_map(|(kind, at, on, body, cut, style)| Wrong { kind, at, on, body, cut, style }).boxed()
}

fn check_wrong(c: &Wrong) -> Result<Info, Fail> {
    let size = c.body.on.body.feature() * c.body.rel;
    if !suitable(&c.body.on.body, 0, size, 400.0) {
        return ok_tags(false, vec!["not for this mesher"]);
    }
    let dir = place();
    let m = solved_model(&c.on);
    written(&dir, &m, &c.style)?;
    let b = outline(&c.body.on, c.body.cond, c.body.mat, &c.style);
    std::fs::write(dir.join("in.bbnd"), &b).unwrap();
    std::fs::copy(dir.join("in.bbnd"), dir.join("in")).unwrap();
    std::fs::write(dir.join("empty.bmsh"), "").unwrap();
    // files that miss their end
    let t = std::fs::read_to_string(dir.join("in.bmsh")).unwrap();
    let end = t.rfind("$End").unwrap();
    let cut = |n: usize| (0..=c.cut % n).rev().find(|i| t.is_char_boundary(*i)).unwrap();
    std::fs::write(dir.join("bad.bmsh"), &t[..cut(end)]).unwrap();
    let end = b.find("\nend").unwrap();
    std::fs::write(dir.join("bad.bbnd"), &b[..1 + c.cut % end]).unwrap();
    let table = [BAD_MESH, BAD_LINEAR, BAD_MODAL][c.kind as usize];
    let mut args = texts(table[c.at % table.len()]);
    args.iter_mut().filter(|a| *a == "SIZE").for_each(|a| *a = size.to_string());
    let text = args.join(" ");
    if c.body.looks.stale {
        leave(&dir, &texts(&["out.png", "out.bmsh", "out_00.png"]));
    }
    let r = bugi(&dir, &args)?;
    ensure!(r.code.map_or(false, |x| x != 0 && x != 101), "bugi {} ended with {:?}", text, r.code);
    ensure!(r.out.is_empty(), "bugi {} said {}", text, r.out);
    ensure!(r.new.is_empty(), "bugi {} wrote {:?}", text, r.new);
    ok_tags(true, vec![["mesh", "linear", "modal"][c.kind as usize]])
}

pub fn property() -> Property {
    Property {
        id: "C29",
        families: vec![
            Box::new(Family { name: "linear", rule: "a stably held and loaded model that the chosen solver solves", quick: 4_000, thorough: 200_000, strategy: linear, check: check_linear }),
            Box::new(Family { name: "modal", rule: "more than one mode", quick: 2_000, thorough: 100_000, strategy: modal, check: check_modal }),
            Box::new(Family { name: "modal-many", rule: "more than a hundred modes, in pictures of a few pixels", quick: 24, thorough: 600, strategy: modal_many, check: check_modal }),
            Box::new(Family { name: "mesh", rule: "a body with a load or constraint that suits the mesher", quick: 6_000, thorough: 300_000, strategy: meshed, check: check_meshed }),
            Box::new(Family { name: "plates", rule: "a rectangle under traction, meshed and solved", quick: 3_000, thorough: 150_000, strategy: chain, check: check_chain }),
            Box::new(Family { name: "wrong", rule: "a command with one mistake", quick: 6_000, thorough: 200_000, strategy: wrong, check: check_wrong }),
        ],
        assumptions: vec!["the stand-in for spacemath", "the library functions the commands call are judged by the other properties", "bodies suit the mesher as in C26 and C27"],
    }
}
