//! The picture a model of points, edges and triangles has to give.

use crate::ensure;
use crate::pbt::*;
use bugi::visual::color;
use image::Rgb;

pub struct Picture<'a> {
    pub dim: usize,
    pub pts: &'a [[f64; 3]],
    pub colors: &'a [usize],
    pub edges: &'a [(usize, usize)],
    pub tris: &'a [(usize, usize, usize)],
    pub vals: Option<&'a [f64]>,
}

const BACK: [u8; 3] = [50, 50, 50];
const LINE: [u8; 3] = [0, 255, 0];
const DOTS: [[u8; 3]; 4] = [[255, 0, 0], [255, 255, 0], [0, 0, 255], [255, 0, 255]];

fn flat(dim: usize, p: &[f64; 3]) -> [f64; 2] {
    match dim {
        1 => [p[0], 0.0],
        2 => [p[0], p[1]],
        _ => {
            // turned about the vertical, then tilted
            let (s, c) = 0.5f64.sin_cos();
            let (t, d) = 0.79f64.sin_cos();
            let (x, y, z) = (c * p[0] + s * p[2], p[1], -s * p[0] + c * p[2]);
            [x, d * y - t * z]
        }
    }
}

/// pixel of every point; None where rounding decides the pixel
fn pixels(c: &Picture, size: u32) -> Option<Vec<(i64, i64)>> {
    let pts = c.pts;
    let q: Vec<[f64; 2]> = pts.iter().map(|p| flat(c.dim, p)).collect();
    let lim = |d: usize| q.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |m, p| (m.0.min(p[d]), m.1.max(p[d])));
    let (x, y) = (lim(0), lim(1));
    let range = (x.1 - x.0).max(y.1 - y.0);
    let far = pts.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
    let n = size as f64;
    if range > 0.0 && far / range * 1e-15 * n > 1e-7 || range == 0.0 && c.dim == 3 && pts.iter().any(|p| p != &pts[0]) {
        return None;
    }
    let mut res = vec![];
    for p in &q {
        let mut at = [0i64; 2];
        for d in 0..2 {
            let (lo, hi) = if d == 0 { x } else { y };
            let off = if range > 0.0 { ((p[d] - lo) / range - (hi - lo) / range / 2.0) * 0.8 * n } else { 0.0 };
            let v = n / 2.0 + if d == 0 { off } else { -off };
            if hi > lo && (v - v.floor() - 0.5).abs() < 1e-6 {
                return None;
            }
            at[d] = ((v + 0.5).floor() as i64).clamp(0, size as i64 - 1);
        }
        res.push((at[0], at[1]));
    }
    Some(res)
}

pub fn own(v: f64) -> Rgb<u8> {
    let v = v.max(0.0).min(1.0);
    Rgb([(v * 200.0).round() as u8, (255.0 - v * 255.0).round() as u8, 17])
}

fn coloured(got: [u8; 3], map: fn(f64) -> Rgb<u8>, v: f64) -> bool {
    let near = [map(v - 1e-6).0, map(v).0, map(v + 1e-6).0];
    (0..3).all(|k| {
        let lo = near.iter().map(|c| c[k]).min().unwrap();
        let hi = near.iter().map(|c| c[k]).max().unwrap();
        got[k] >= lo.saturating_sub(1) && got[k] <= hi.saturating_add(1)
    })
}

/// how many pixels are explained by dots, lines, triangles and nothing; None where rounding decides
pub fn judge(c: &Picture, map: u8, show: bool, size: u32, img: &image::RgbImage) -> Result<Option<[usize; 4]>, Fail> {
    ensure!(img.width() == size && img.height() == size, "an image of {} by {}, asked for {}", img.width(), img.height(), size);
    let Some(px) = pixels(c, size) else { return Ok(None) };
    let n = size as usize;
    let map: fn(f64) -> Rgb<u8> = match map {
        2 => color::rgb_map,
        3 => own,
        _ => color::hot_map,
    };
    // fill: candidates of every pixel, the last triangle that surely covers it and later ones that touch it
    let mut fill: Vec<Vec<f64>> = vec![vec![]; n * n];
    if let Some(vals) = c.vals {
        let lo = vals.iter().cloned().fold(f64::INFINITY, f64::min);
        let hi = vals.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let norm = |v: f64| if hi > lo { (v - lo) / (hi - lo) } else { 0.0 };
        for &(a, b, e) in c.tris {
            let t = [px[a], px[b], px[e]];
            let v = [norm(vals[a]), norm(vals[b]), norm(vals[e])];
            let cross = |o: (i64, i64), p: (i64, i64), q: (i64, i64)| (p.0 - o.0) * (q.1 - o.1) - (p.1 - o.1) * (q.0 - o.0);
            let area = cross(t[0], t[1], t[2]);
            if area == 0 {
                continue;
            }
            let (x0, x1) = (t.iter().map(|p| p.0).min().unwrap(), t.iter().map(|p| p.0).max().unwrap());
            let (y0, y1) = (t.iter().map(|p| p.1).min().unwrap(), t.iter().map(|p| p.1).max().unwrap());
            for x in x0..=x1 {
                for y in y0..=y1 {
                    let p = (x, y);
                    let w = [cross(p, t[1], t[2]), cross(p, t[2], t[0]), cross(p, t[0], t[1])].map(|k| if area > 0 { k } else { -k });
                    if w.iter().any(|k| *k < 0) {
                        continue;
                    }
                    let val: f64 = (0..3).map(|k| w[k] as f64 / area.abs() as f64 * v[k]).sum();
                    let f = &mut fill[y as usize * n + x as usize];
                    if w.iter().all(|k| *k > 0) {
                        f.clear();
                    }
                    f.push(val);
                }
            }
        }
    }
    // lines: 2 surely, 1 one of a pair
    let mut line = vec![0u8; n * n];
    let mut pairs = vec![];
    let mut dot: Vec<Option<usize>> = vec![None; n * n];
    if show {
        for &(a, b) in c.edges {
            let (p, q) = (px[a], px[b]);
            let (dx, dy) = (q.0 - p.0, q.1 - p.1);
            let steps = dx.abs().max(dy.abs());
            let low = dx.abs() > dy.abs();
            for k in 0..=steps {
                // the ideal line crosses this row or column at minor + frac / steps
                let (major, minor) = if low { (p.0 + k * dx.signum(), dy * k) } else { (p.1 + k * dy.signum(), dx * k) };
                let base = if low { p.1 } else { p.0 };
                let m = steps.max(1);
                let (fl, rem) = (base + minor.div_euclid(m), minor.rem_euclid(m));
                let at = |v: i64| if low { v as usize * n + major as usize } else { major as usize * n + v as usize };
                if 2 * rem == m {
                    for v in [fl, fl + 1] {
                        line[at(v)] = line[at(v)].max(1);
                    }
                    pairs.push((at(fl), at(fl + 1)));
                } else {
                    line[at(if 2 * rem > m { fl + 1 } else { fl })] = 2;
                }
            }
        }
        for (i, p) in px.iter().enumerate() {
            for x in p.0 - 1..=p.0 + 1 {
                for y in p.1 - 1..=p.1 + 1 {
                    if x >= 0 && y >= 0 && x < size as i64 && y < size as i64 {
                        dot[y as usize * n + x as usize] = Some(c.colors[i]);
                    }
                }
            }
        }
    }
    let at = |i: usize| img.get_pixel((i % n) as u32, (i / n) as u32).0;
    let mut kinds = [0usize; 4];
    for i in 0..n * n {
        let got = at(i);
        let place = (i % n, i / n);
        if let Some(k) = dot[i] {
            ensure!(got == DOTS[k], "pixel {:?} is {:?}, part of a dot of colour {:?} (points at {:?})", place, got, DOTS[k], px);
            kinds[0] += 1;
        } else if line[i] == 2 || line[i] == 1 && got == LINE {
            ensure!(got == LINE, "pixel {:?} is {:?}, part of a line (points at {:?})", place, got, px);
            kinds[1] += 1;
        } else if !fill[i].is_empty() {
            ensure!(fill[i].iter().any(|v| coloured(got, map, *v)), "pixel {:?} is {:?}, in triangles of value {:?} there: {:?} (points at {:?})", place, got, fill[i], fill[i].iter().map(|v| map(*v)).collect::<Vec<_>>(), px);
            kinds[2] += 1;
        } else {
            ensure!(got == BACK, "pixel {:?} is {:?}, nothing is drawn there (points at {:?})", place, got, px);
            kinds[3] += 1;
        }
    }
    for (a, b) in pairs {
        ensure!([a, b].iter().any(|i| dot[*i].is_some() || at(*i) == LINE), "a line has a gap at {:?}", (a % n, a / n));
    }
    Ok(Some(kinds))
}
