//! C17 advancing front meshing of plane regions.
use super::Prop;
use crate::ctx::{Case, Ctx};
use crate::geo::{self, Region};
use crate::rng::Rng;
use geom3d::utils;
use geom3d::Point2;
use std::collections::HashMap;
use std::f64::consts::TAU;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        quick: 40000,
        thorough: 300000,
        rule: "advancing front meshes of plane regions: ellipses, rectangles, eccentric rings, lattice shapes, stars, combs, spirals, frames, random outlines and 0..5 holes with even, uneven and no resampling of the boundary, exact or shaken by 1e-9..2e-4, flattened up to 10:1, rotated, moved and scaled; boundary prefix compared, every triangle and edge judged and random points located; non-trivial: inner vertices created",
        assumptions: &["outer loop counter-clockwise, holes clockwise, simple and disjoint", "cut corners of at least 1e-5 of the size"],
        run: front,
    }]
}

/// split every edge of a loop into equal parts of about `h`
pub fn resample(l: &[Point2], h: f64) -> Vec<Point2> {
    let mut out = Vec::new();
    for i in 0..l.len() {
        let (a, b) = (l[i], l[(i + 1) % l.len()]);
        let k = ((b - a).length() / h).round().max(1.0) as usize;
        for j in 0..k {
            out.push(a + (b - a) * (j as f64 / k as f64));
        }
    }
    out
}

pub fn uneven(r: &mut Rng, l: &[Point2], h: f64, q: f64) -> Vec<Point2> {
    let mut out = Vec::new();
    for i in 0..l.len() {
        let (a, b) = (l[i], l[(i + 1) % l.len()]);
        let n = (b - a).length();
        let mut t = 0.0;
        while t < n {
            out.push(a + (b - a) * (t / n));
            t += h * r.range(1.0, q);
            if n - t < 0.5 * h {
                break;
            }
        }
    }
    out
}

/// every edge in equal spans, every span halved a few times, points off the edge by rounding of some
/// earlier computation, as adaptive sampling and projecting leave them
pub fn graded(r: &mut Rng, l: &[Point2], h: f64) -> Vec<Point2> {
    let mut out = Vec::new();
    for i in 0..l.len() {
        let (a, b) = (l[i], l[(i + 1) % l.len()]);
        let k = ((b - a).length() / h).round().max(1.0) as usize;
        for j in 0..k {
            let m = 1 << *r.pick(&[0, 0, 1, 1, 2, 3]);
            for s in 0..m {
                let mut p = a + (b - a) * ((j as f64 + s as f64 / m as f64) / k as f64);
                if j + s > 0 && r.chance(0.7) {
                    let e = 10f64.powf(r.range(-14.0, -5.0)) * h;
                    p += Point2::new(r.range(-e, e), r.range(-e, e));
                }
                out.push(p);
            }
        }
    }
    out
}

/// directed edges: each at most once, boundary edges exactly once, the rest in opposite pairs
pub fn judge_edges(cx: &mut Ctx, prefix: &str, tris: &[u32], loops: &[(usize, usize)], reversed: bool) {
    let mut count: HashMap<(u32, u32), u32> = HashMap::new();
    for t in tris.chunks(3) {
        for k in 0..3 {
            *count.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    let mut border = HashMap::new();
    for &(s, e) in loops {
        for i in s..e {
            let j = if i + 1 < e { i + 1 } else { s };
            if reversed {
                border.insert((j as u32, i as u32), ());
            } else {
                border.insert((i as u32, j as u32), ());
            }
        }
    }
    let mut bad = None;
    for (e, n) in &count {
        if *n != 1 {
            bad = Some(format!("edge {:?} belongs to {} triangles on the same side", e, n));
        }
        let rev = count.get(&(e.1, e.0)).cloned().unwrap_or(0);
        if border.contains_key(e) {
            if rev != 0 {
                bad = Some(format!("boundary edge {:?} has triangles on both sides", e));
            }
        } else if rev != 1 {
            bad = Some(format!("inner edge {:?} has {} neighbours", e, rev));
        }
    }
    for e in border.keys() {
        if !count.contains_key(e) {
            bad = Some(format!("boundary edge {:?} has no triangle", e));
        }
    }
    cx.check(bad.is_none(), &format!("{}.edges", prefix), || bad.unwrap());
}

fn outline(r: &mut Rng) -> Option<(Region, String)> {
    let kind = r.below(11);
    Some(match kind {
        0 => {
            let n = 5 + r.below(60);
            let (a, b) = (r.range(2.0, 8.0), r.range(2.0, 8.0));
            // ellipse with points at equal distances
            let dense: Vec<Point2> = (0..4000).map(|i| Point2::new(a * (TAU * i as f64 / 4000.0).cos(), b * (TAU * i as f64 / 4000.0).sin())).collect();
            let per: f64 = (0..4000).map(|i| (dense[(i + 1) % 4000] - dense[i]).length()).sum();
            let mut v = vec![dense[0]];
            let mut acc = 0.0;
            for i in 1..4000 {
                acc += (dense[i] - dense[i - 1]).length();
                if acc >= per / n as f64 * v.len() as f64 && v.len() < n {
                    v.push(dense[i]);
                }
            }
            (Region { outer: v, holes: vec![] }, "ellipse".into())
        }
        1 => {
            let (n, m) = (3 + r.below(30), 3 + r.below(20));
            let k = r.range(0.7, 1.4);
            let v = resample(&[Point2::new(0.0, 0.0), Point2::new(n as f64, 0.0), Point2::new(n as f64, m as f64 * k), Point2::new(0.0, m as f64 * k)], 1.0);
            (Region { outer: v, holes: vec![] }, "rectangle".into())
        }
        2 => {
            // ring: outer circle and concentric or shifted hole
            let ro = r.range(3.0, 9.0);
            let ri = ro * r.range(0.15, 0.7);
            let h = ro * r.range(0.15, 0.5);
            let off = Point2::new(r.range(-1.0, 1.0), r.range(-1.0, 1.0)) * ((ro - ri) * 0.2);
            let no = (TAU * ro / h).round() as usize;
            let ni = ((TAU * ri / h).round() as usize).max(5);
            let o = (0..no).map(|i| Point2::new((TAU * i as f64 / no as f64).cos(), (TAU * i as f64 / no as f64).sin()) * ro).collect();
            let i: Vec<Point2> = (0..ni).rev().map(|i| off + Point2::new((TAU * i as f64 / ni as f64).cos(), (TAU * i as f64 / ni as f64).sin()) * ri).collect();
            (Region { outer: o, holes: vec![i] }, "ring".into())
        }
        3 => {
            // L, U, T shapes on a unit lattice
            let s = *r.pick(&["staircase"]);
            let v = geo::polygon(r, s)?;
            let h = *r.pick(&[1.0, 0.5, 0.25]);
            let k = r.range(1.0, 3.0);
            let v = resample(&v, h).iter().map(|p| *p * k).collect();
            (Region { outer: v, holes: vec![] }, "staircase".into())
        }
        4 => {
            let v = geo::polygon(r, "star")?;
            let h = r.range(0.5, 1.5);
            (Region { outer: resample(&v, h), holes: vec![] }, "star".into())
        }
        5 => {
            // raw corners, no resampling at all
            let s = *r.pick(&geo::SHAPES);
            (Region { outer: geo::polygon(r, s)?, holes: vec![] }, format!("raw {}", s))
        }
        6 => {
            // uneven spacing
            let s = *r.pick(&geo::SHAPES);
            let v = geo::polygon(r, s)?;
            let q = r.range(1.5, 4.0);
            (Region { outer: uneven(r, &v, 0.6, q), holes: vec![] }, format!("uneven {}", s))
        }
        8 | 9 => {
            let s = *r.pick(&["rectangle", "rectangle", "staircase", "comb", "frame", "convex"]);
            let v = geo::polygon(r, s)?;
            let k = 10f64.powf(r.range(-1.3, 1.3));
            let h = *r.pick(&[1.0, 2.0, 0.7]);
            (Region { outer: graded(r, &v, h).iter().map(|p| Point2::new(p.x * k, p.y)).collect(), holes: vec![] }, format!("graded {}", s))
        }
        7 => {
            let s = *r.pick(&["convex", "rectangle", "star", "staircase", "frame"]);
            let v: Vec<Point2> = geo::polygon(r, s)?.iter().map(|p| *p * 2.0).collect();
            let want = 1 + r.below(5);
            let g = geo::punch(r, v, want, 0.6);
            let h = r.range(0.4, 1.0);
            let name = format!("{} holes", g.holes.len());
            (Region { outer: resample(&g.outer, h), holes: g.holes.iter().map(|l| resample(l, h)).collect() }, name)
        }
        _ => {
            let s = *r.pick(&["convex", "frame", "comb", "tangled", "spiral"]);
            let v = geo::polygon(r, s)?;
            let h = r.range(0.4, 1.0);
            (Region { outer: resample(&v, h), holes: vec![] }, s.into())
        }
    })
}

fn front(cx: &mut Ctx) -> Case {
    let (g, name) = match outline(&mut cx.rng) {
        Some(g) => g,
        None => return Ok(()),
    };
    if cx.idx == 0 {
        // an outline that once failed and is too rare to be drawn again
        let pts: Vec<Point2> = include_str!("../pinned/front-sliver.txt")
            .lines()
            .filter_map(|l| l.split_once(' '))
            .map(|(x, y)| Point2::new(x.parse().unwrap(), y.parse().unwrap()))
            .collect();
        return judge_front(cx, "pinned", &Region { outer: pts, holes: Vec::new() });
    }
    let mut g = g;
    if g.outer.len() < 40 && cx.rng.chance(0.2) {
        let n = geo::align(&mut cx.rng, &mut g, 0.05);
        cx.seen_n("edges pointing at another corner", n as u64);
    }
    if cx.rng.chance(0.5) {
        // flatten, and shake the points by amounts around the library's tolerances
        let k = *cx.rng.pick(&[1.0, 1.0, 0.3, 0.1]);
        for p in g.outer.iter_mut().chain(g.holes.iter_mut().flatten()) {
            p.y *= k;
            let j = 10f64.powf(cx.rng.range(-9.0, -3.7));
            *p += Point2::new(cx.rng.range(-j, j), cx.rng.range(-j, j));
        }
        cx.seen("shaken boundary");
    }
    if cx.rng.chance(0.5) {
        // rotate, move and scale all loops together
        let (sn, cs) = cx.rng.range(0.0, TAU).sin_cos();
        let d = Point2::new(cx.rng.range(-50.0, 50.0), cx.rng.range(-50.0, 50.0));
        let k = *cx.rng.pick(&[1.0, 1.0, 10.0, 0.5, 0.01, 0.001, 1e-4]);
        for p in g.outer.iter_mut().chain(g.holes.iter_mut().flatten()) {
            *p = (Point2::new(p.x * cs - p.y * sn, p.x * sn + p.y * cs) + d) * k;
        }
        // tiny edges: corners cut off by amounts down to 1e-5 of the size
        if cx.rng.chance(0.3) {
            let d = 10f64.powf(cx.rng.range(-5.0, -1.3)) * k;
            for l in std::iter::once(&mut g.outer).chain(g.holes.iter_mut()) {
                *l = geo::chamfer(&mut cx.rng, l, d, 0.3);
            }
            cx.seen("tiny edges");
        }
        // any start vertex
        let s = cx.rng.below(g.outer.len());
        g.outer.rotate_left(s);
    }
    judge_front(cx, &name, &g)
}

fn judge_front(cx: &mut Ctx, name: &str, g: &Region) -> Case {
    let mut pts = g.outer.clone();
    let mut marks = vec![0, pts.len()];
    for h in &g.holes {
        pts.extend(h);
        marks.push(pts.len());
    }
    cx.input = format!("{} {} points {:?}", name, pts.len(), pts);
    cx.seen(&format!("outline {}", name));
    let (v, t) = cx.sut("generate_triangular_mesh", || utils::generate_triangular_mesh(&pts, &marks))?;
    cx.check(v.len() >= pts.len() && v[..pts.len()] == pts[..], "front.boundary", || "boundary points were moved".into());
    if v.len() > pts.len() {
        cx.nontrivial();
    }
    geo::judge_cover(cx, "front", &v, &t, g, 0.0);
    let loops: Vec<(usize, usize)> = marks.windows(2).map(|w| (w[0], w[1])).collect();
    judge_edges(cx, "front", &t, &loops, false);
    cx.seen_n("inner vertices", (v.len() - pts.len()) as u64);
    Ok(())
}
