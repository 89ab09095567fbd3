//! C21: the colour maps as functions of one number.

use crate::ensure;
use crate::pbt::*;
use bugi::visual::color::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    a: u64,
    b: u64,
}

fn number() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => -0.2f64..1.2,
        2 => -3.0f64..4.0,
        2 => (-8i32..=20, -3i32..=3).prop_map(|(k, d)| k as f64 / 12.0 + d as f64 * 1e-4),
        1 => any::<f64>(),
        1 => prop_oneof![Just(f64::INFINITY), Just(f64::NEG_INFINITY), Just(f64::NAN), Just(-0.0), Just(f64::MAX), Just(f64::MIN_POSITIVE)],
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    (number(), prop_oneof![2 => number().prop_map(|x| (x, false)), 3 => (-0.01f64..0.01).prop_map(|x| (x, true))])
        .prop_map(|(a, (b, near))| {
            let b = if near { a + b } else { b };
            Case { a: a.to_bits(), b: b.to_bits() }
        })
        .boxed()
}

fn check(c: &Case) -> Result<Info, Fail> {
    let (a, b) = (f64::from_bits(c.a), f64::from_bits(c.b));
    // a colour for every number, the same however the map is reached
    let (ha, hb, ra, rb) = (hot_map(a), hot_map(b), rgb_map(a), rgb_map(b));
    ensure!(hot_map_boxed()(a) == ha && rgb_map_boxed()(a) == ra, "the boxed maps differ at {}", a);
    if a.is_nan() || b.is_nan() {
        return ok_tags(false, vec!["not a number"]);
    }
    for k in 0..3 {
        // heat: never decreasing
        let (lo, hi) = if a <= b { (ha, hb) } else { (hb, ha) };
        ensure!(lo.0[k] <= hi.0[k], "heat: channel {} falls between {} and {}: {:?} {:?}", k, a.min(b), a.max(b), lo, hi);
        // no jumps: a level spans at least a thousandth of the range
        let gap = if a == b { 0.0 } else { (a - b).abs() };
        let most = (gap * 1100.0 + 1.0).floor();
        for (name, x, y) in [("heat", ha, hb), ("rainbow", ra, rb)] {
            let step = (x.0[k] as f64 - y.0[k] as f64).abs();
            ensure!(step <= most, "{}: channel {} jumps by {} between {} and {}", name, k, step, a, b);
        }
    }
    for (x, h) in [(a, ha), (b, hb)] {
        // red first, then green, then blue
        let [r, g, bl] = h.0;
        ensure!(r >= g && g >= bl, "heat: {:?} at {}", h, x);
        ensure!(g == 0 || r >= 254, "heat: green before red is full: {:?} at {}", h, x);
        ensure!(bl == 0 || g >= 254, "heat: blue before green is full: {:?} at {}", h, x);
        if x <= 0.0 {
            ensure!(h.0 == [0, 0, 0], "heat: {:?} at {}", h, x);
        }
        if x >= 1.0 {
            ensure!(h.0 == [255, 255, 255], "heat: {:?} at {}", h, x);
        }
        if x > 0.003 && x < 0.997 {
            ensure!(h.0 != [0, 0, 0] && h.0 != [255, 255, 255], "heat: {:?} at {}", h, x);
        }
    }
    ensure!(hot_map(1.0 / 3.0).0 == [255, 0, 0] && hot_map(2.0 / 3.0).0 == [255, 255, 0], "heat: {:?} and {:?} at a third and two", hot_map(1.0 / 3.0), hot_map(2.0 / 3.0));
    // rainbow: blue, green, red peak at one quarter, one half, three quarters
    for (k, top) in [(2usize, 0.25), (1, 0.5), (0, 0.75)] {
        ensure!(rgb_map(top).0[k] == 255, "rainbow: {:?} at {}", rgb_map(top), top);
        let off = a - 0.5;
        if off.abs() < 1e6 {
            let (x, y) = (rgb_map(top - off).0[k] as i32, rgb_map(top + off).0[k] as i32);
            ensure!((x - y).abs() <= 1, "rainbow: channel {} is {} at {} below its peak, {} above", k, x, off, y);
        }
        // and falls away from the peak
        let (da, db) = ((a - top).abs(), (b - top).abs());
        if da < db {
            ensure!(ra.0[k] >= rb.0[k], "rainbow: channel {} is {} at {}, {} at {}", k, ra.0[k], a, rb.0[k], b);
        }
    }
    // the peaking channel dominates near its peak
    for (x, c) in [(a, ra), (b, rb)] {
        let [r, g, bl] = c.0;
        if x <= 0.25 {
            ensure!(bl >= g && g >= r, "rainbow: {:?} at {}", c, x);
        }
        if x >= 0.75 {
            ensure!(r >= g && g >= bl, "rainbow: {:?} at {}", c, x);
        }
        if x <= -0.5 || x >= 1.5 {
            ensure!(c.0 == [0, 0, 0], "rainbow: {:?} at {}", c, x);
        }
        if x >= 0.2 && x <= 0.8 {
            ensure!(r == 255 || g == 255 || bl == 255, "rainbow: no full channel in {:?} at {}", c, x);
        }
    }
    let inside = |x: f64| x > -0.2 && x < 1.2;
    ok_tags(a != b && inside(a) && inside(b), vec![if (a - b).abs() < 0.01 { "near" } else { "apart" }])
}

pub fn property() -> Property {
    Property {
        id: "C21",
        families: vec![Box::new(Family {
            name: "pairs",
            rule: "pairs of numbers, near and far apart, at the corners of the maps, huge, infinite and not numbers included. Non-trivial: two different numbers around the range",
            quick: 10_000_000,
            thorough: 300_000_000,
            strategy: strat,
            check,
        })],
        assumptions: vec![],
    }
}
