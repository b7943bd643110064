//! C18 trimmed cylinder faces.
use super::Prop;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::geo::{self, Region};
use geom3d::curve::{Circle, Curve, CurveSegment, Line};
use geom3d::surface::{Cylinder, EdgeLoop, Surface, TrimmedSurface};
use geom3d::{Face, Point2, Point3, TriangleMesh, Vec3};
use std::collections::HashMap;
use std::f64::consts::TAU;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        quick: 5000,
        thorough: 60000,
        rule: "cylinder faces bounded by generators, arcs and fine chains of chords: rectangles, staircases, combs, stars, random outlines, 0..4 holes, sleeves between two circles, both loop directions, axis origin anywhere along the axis; every vertex, triangle and edge judged and random points located; non-trivial: at least one inner vertex created",
        assumptions: &["outlines span less than 5.6 rad unless they are sleeves", "loops simple and disjoint with gaps of at least 0.1, corners wider than 30 degrees, sampling tolerance fine against the gaps"],
        run: trimmed,
    }]
}

pub struct Tube {
    pub o: Point3,
    pub x: Vec3,
    pub y: Vec3,
    pub z: Vec3,
    pub r: f64,
}

impl Tube {
    /// (angle, height) to space
    pub fn at(&self, p: Point2) -> Point3 {
        self.o + (self.x * p.x.cos() + self.y * p.x.sin()) * self.r + self.z * p.y
    }
    pub fn height(&self, p: Point3) -> f64 {
        (p - self.o).dot(self.z)
    }
    pub fn radial(&self, p: Point3) -> Vec3 {
        let v = p - self.o;
        v - self.z * v.dot(self.z)
    }
    /// central projection onto a plane across the axis, seen from above: heights grow outwards
    pub fn ring(&self, p: Point3, lo: f64, h: f64) -> Point2 {
        let ratio = 2.0 * h / (2.0 * h - (self.height(p) - lo));
        let v = p - self.o;
        Point2::new(v.dot(self.x), v.dot(self.y)) * ratio
    }
}

fn line(a: Point3, b: Point3) -> CurveSegment<Box<dyn Curve>> {
    CurveSegment { curve: Box::new(Line { origin: a, direction: b - a }), parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 }
}

/// edges along a loop of (angle, height) corners, plus the loop finely sampled and its corners in space
pub fn loop_edges(t: &Tube, l: &[Point2], tol: f64) -> (EdgeLoop, Vec<Point3>) {
    let mut edges = Vec::new();
    let mut dense = Vec::new();
    for i in 0..l.len() {
        let (a, b) = (l[i], l[(i + 1) % l.len()]);
        if (a.x - b.x).abs() < 1e-9 {
            edges.push(line(t.at(a), t.at(b)));
            for k in 0..20 {
                dense.push(t.at(a + (b - a) * (k as f64 / 20.0)));
            }
        } else if (a.y - b.y).abs() < 1e-9 {
            edges.push(CurveSegment {
                curve: Box::new(Circle { center: t.o + t.z * a.y, axis: t.z, ref_dir: t.x, radius: t.r }),
                parameter_range: (a.x, b.x),
                tolerance: tol,
                parameter_division: 16,
            });
            let n = 20 + ((b.x - a.x).abs() * 100.0) as usize;
            for k in 0..n {
                dense.push(t.at(a + (b - a) * (k as f64 / n as f64)));
            }
        } else {
            let n = ((b.x - a.x).abs() / (8.0 * tol / t.r).sqrt().min(0.15)).ceil() as usize;
            for k in 0..n {
                let (p, q) = (t.at(a + (b - a) * (k as f64 / n as f64)), t.at(a + (b - a) * ((k + 1) as f64 / n as f64)));
                edges.push(line(p, q));
                dense.push(p);
            }
        }
    }
    (EdgeLoop { edges }, dense)
}

/// directed edges at most once, unpaired ones returned
pub fn border(cx: &mut Ctx, prefix: &str, mesh: &TriangleMesh) -> Option<Vec<(u32, u32)>> {
    let n = mesh.vertices.len() as u32;
    if !cx.check(mesh.triangles.len() % 3 == 0 && mesh.triangles.iter().all(|i| *i < n), &format!("{}.index", prefix), || "bad index".into()) {
        return None;
    }
    let mut count: HashMap<(u32, u32), u32> = HashMap::new();
    for t in mesh.triangles.chunks(3) {
        for k in 0..3 {
            *count.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    let twice = count.iter().find(|(_, n)| **n != 1);
    if !cx.check(twice.is_none(), &format!("{}.edges", prefix), || format!("edge {:?} belongs to several triangles on the same side", twice)) {
        return None;
    }
    let mut b: Vec<(u32, u32)> = count.keys().filter(|e| !count.contains_key(&(e.1, e.0))).cloned().collect();
    b.sort();
    Some(b)
}

fn trimmed(cx: &mut Ctx) -> Case {
    let (x, y, z) = if cx.rng.chance(0.3) { (Vec3::X, Vec3::Y, Vec3::Z) } else { gen::frame(&mut cx.rng) };
    let o = if cx.rng.chance(0.3) { Point3::ZERO } else { gen::point3(&mut cx.rng, gen::Coords::Tens) };
    let sleeve = cx.rng.chance(0.15);
    // loops at the front that run all around
    let mut rings = 0;
    let n = 1 + cx.rng.below(3);
    let turn = cx.rng.range(0.0, TAU);
    let ring = |z: f64, s: f64| (0..n).map(|k| Point2::new(turn + s * TAU * k as f64 / n as f64, z)).collect::<Vec<_>>();
    let mut loops: Vec<Vec<Point2>>;
    let r;
    if sleeve {
        r = cx.rng.range(0.5, 10.0);
        let h = r * cx.rng.range(0.3, 4.0);
        rings = 2;
        loops = vec![ring(0.0, 1.0), ring(h, -1.0)];
        // the last arc closes on the first corner a turn later; drawn below
    } else {
        let shape = *cx.rng.pick(&["rectangle", "rectangle", "staircase", "frame", "comb", "star", "convex", "tangled", "triangle"]);
        let v = match geo::polygon(&mut cx.rng, shape) {
            Some(v) => v,
            None => return Ok(()),
        };
        let want = if cx.rng.chance(0.3) { 1 + cx.rng.below(4) } else { 0 };
        let g = if want > 0 { geo::punch(&mut cx.rng, v, want, 0.2) } else { Region { outer: v, holes: vec![] } };
        if !geo::is_clean(&g.outer, 0.15, 0.1) || g.loops().iter().any(|l| !geo::opens(l, 0.85)) {
            cx.seen("outline too narrow");
            return Ok(());
        }
        let (lo, hi) = g.bounds();
        r = ((hi - lo).x / 5.5).max(cx.rng.range(0.3, 20.0));
        let a0 = cx.rng.range(0.0, TAU);
        let mut g = g;
        if cx.rng.chance(0.4) {
            let d = 10f64.powf(cx.rng.range(-2.6, -1.3));
            g.outer = geo::chamfer(&mut cx.rng, &g.outer, d, 0.4);
            for h in g.holes.iter_mut() {
                *h = geo::chamfer(&mut cx.rng, h, d, 0.4);
            }
            cx.seen("small corner cuts");
        }
        loops = g.loops().iter().map(|l| l.iter().map(|p| Point2::new(a0 + (p.x - lo.x) / r, p.y - lo.y)).collect()).collect();
        cx.seen(&format!("outline {} with {} holes", shape, g.holes.len()));
        if shape == "rectangle" && cx.rng.chance(0.5) {
            // a sleeve with windows
            rings = 2;
            loops.splice(0..1, vec![ring(0.0, 1.0), ring((hi - lo).y, -1.0)]);
            cx.seen("sleeve with windows");
        }
    }
    let seam = rings > 0 && cx.rng.chance(0.5);
    let seam_parts = 1 + cx.rng.below(2);
    if seam {
        cx.seen("seam");
    }
    let z0 = match cx.rng.below(5) {
        0 => 0.0,
        1 => cx.rng.range(-3.0, 3.0),
        2 => cx.rng.range(-60.0, 60.0),
        3 => cx.rng.range(0.0, 10.0),
        _ => cx.rng.range(-10.0, 0.0),
    };
    loops.iter_mut().flatten().for_each(|p| p.y += z0);
    let t = Tube { o, x, y, z, r };
    let lo = loops.iter().flatten().map(|p| p.y).fold(f64::MAX, f64::min);
    let hi = loops.iter().flatten().map(|p| p.y).fold(f64::MIN, f64::max);
    let h = hi - lo;
    // the projection shrinks heights by up to 2h/r, gaps of 0.1 have to survive the tolerance
    let tol = if sleeve { *cx.rng.pick(&[0.01, 0.01, 0.05]) * r.min(1.0) } else { (0.1 * r / (2.0 * h) / 4.0).min(0.01) };
    let backwards = cx.rng.chance(0.5);
    let order = cx.rng.chance(0.5);
    cx.input = format!("radius {} origin {:?} axes {:?} {:?} loops {:?} tolerance {} backwards {}", r, o, x, z, loops, tol, backwards);

    let build = |backwards: bool| {
        let mut bounds = Vec::new();
        let mut dense = Vec::new();
        for (k, l) in loops.iter().enumerate() {
            let mut l = l.clone();
            if backwards {
                l.reverse();
            }
            let (mut e, d);
            if k < rings {
                // full circles
                let s = if (k == 0) != backwards { 1.0 } else { -1.0 };
                let n = l.len();
                let a0 = turn;
                let arcs = (0..n)
                    .map(|i| CurveSegment {
                        curve: Box::new(Circle { center: t.o + t.z * l[0].y, axis: t.z, ref_dir: t.x, radius: t.r }) as Box<dyn Curve>,
                        parameter_range: (a0 + s * TAU * i as f64 / n as f64, a0 + s * TAU * (i + 1) as f64 / n as f64),
                        tolerance: tol,
                        parameter_division: 16,
                    })
                    .collect();
                e = EdgeLoop { edges: arcs };
                d = (0..720).map(|i| t.at(Point2::new(a0 + s * TAU * i as f64 / 720.0, l[0].y))).collect::<Vec<_>>();
            } else {
                let q = loop_edges(&t, &l, tol);
                e = q.0;
                d = q.1;
            }
            if order && !(seam && k < 2) {
                // any start edge
                let s = l.len() / 2 % e.edges.len();
                e.edges.rotate_left(s);
            }
            bounds.push(e);
            dense.push(d);
        }
        if seam {
            // a single loop from one ring to the other and back
            let (a, b) = (t.at(loops[0][0]), t.at(Point2::new(turn, loops[1][0].y)));
            let way = |i: usize, j: usize| line(a + (b - a) * (i as f64 / seam_parts as f64), a + (b - a) * (j as f64 / seam_parts as f64));
            let top = bounds.remove(1);
            bounds[0].edges.extend((0..seam_parts).map(|i| way(i, i + 1)));
            bounds[0].edges.extend(top.edges);
            bounds[0].edges.extend((0..seam_parts).rev().map(|i| way(i + 1, i)));
        }
        if order {
            bounds.rotate_left(1);
            let s = bounds[0].edges.len() / 3;
            bounds[0].edges.rotate_left(s);
        }
        (bounds, dense)
    };
    let (bounds, dense) = build(backwards);
    let cyl = Cylinder { origin: o, axis: z, ref_dir: x, radius: r };
    let mesh = if cx.rng.chance(0.5) {
        let face = TrimmedSurface { surface: cyl, bounds };
        cx.sut("cylinder face mesh", || face.get_triangle_mesh())?
    } else {
        let face = TrimmedSurface { surface: Box::new(cyl) as Box<dyn Surface>, bounds };
        cx.sut("cylinder face mesh", || face.get_triangle_mesh())?
    };
    let scale = 1.0 + o.length() + hi.abs() + lo.abs() + r;
    // chords of the lower arcs dip below them
    let dip = 2.2 * tol * 2.0 * h / r;
    for p in &mesh.vertices {
        let d = (t.radial(*p).length() - r).abs();
        cx.within(d, 1e-9 * scale, "cylinder.surface", || format!("vertex {:?} is {} off the surface", p, d));
        let q = t.height(*p);
        cx.check(q > lo - 1e-6 - dip && q < hi + 1e-6 + dip, "cylinder.height", || format!("vertex {:?} at height {} outside {}..{}", p, q, lo, hi));
        if cx.fails.len() > 2 {
            return Ok(());
        }
    }
    let edges = match border(cx, "cylinder", &mesh) {
        Some(e) => e,
        None => return Ok(()),
    };
    if edges.len() < mesh.vertices.len() {
        cx.nontrivial();
    }
    // the border of the mesh runs along the loops
    let near = |p: Point3| {
        dense
            .iter()
            .map(|d| (0..d.len()).map(|i| crate::oracle::seg_distance(d[i], d[(i + 1) % d.len()], p)).fold(f64::MAX, f64::min))
            .fold(f64::MAX, f64::min)
    };
    let chord = r * 1e-4;
    let mut len = 0.0;
    for e in &edges {
        let (a, b) = (mesh.vertices[e.0 as usize], mesh.vertices[e.1 as usize]);
        let d = near(a).max(near((a + b) * 0.5));
        cx.within(d, 1.1 * tol + chord, "cylinder.border", || format!("border edge {:?}-{:?} is {} off the loops", a, b, d));
        len += (b - a).length();
        if cx.fails.len() > 2 {
            return Ok(());
        }
    }
    let per: f64 = dense.iter().map(|d| (0..d.len()).map(|i| (d[(i + 1) % d.len()] - d[i]).length()).sum::<f64>()).sum();
    cx.check(len < per * 1.001 && len > per * 0.9, "cylinder.perimeter", || format!("border of length {}, loops of length {}", len, per));
    {
        for p in loops[rings..].iter().flatten() {
            let p = t.at(*p);
            let ok = edges.iter().any(|e| (mesh.vertices[e.0 as usize] - p).length() < 1e-7 * scale);
            cx.check(ok, "cylinder.corner", || format!("corner {:?} is not on the border", p));
            if cx.fails.len() > 2 {
                return Ok(());
            }
        }
    }
    // cover, in the ring
    let flat: Vec<Point2> = mesh.vertices.iter().map(|p| t.ring(*p, lo, h)).collect();
    let mut rings: Vec<Vec<Point2>> = dense.iter().map(|d| d.iter().map(|p| t.ring(*p, lo, h)).collect()).collect();
    rings.sort_by(|a, b| geo::area(b).abs().partial_cmp(&geo::area(a).abs()).unwrap());
    for (i, l) in rings.iter_mut().enumerate() {
        if (geo::area(l) > 0.0) != (i == 0) {
            l.reverse();
        }
    }
    let g = Region { outer: rings.remove(0), holes: rings };
    let mut tris = mesh.triangles.clone();
    let sum: f64 = tris.chunks(3).map(|c| geo::area(&[flat[c[0] as usize], flat[c[1] as usize], flat[c[2] as usize]])).sum();
    // seen from outside the ring view turns things over
    cx.check((sum < 0.0) != backwards, "cylinder.winding", || format!("the triangles cover {} in the ring, loops backwards {}", sum, backwards));
    if sum < 0.0 {
        tris.chunks_mut(3).for_each(|c| c.swap(0, 1));
    }
    geo::judge_cover(cx, "cylinder", &flat, &tris, &g, 2.2 * tol);
    // the other direction of the loops turns the triangles over
    let (bounds, _) = build(!backwards);
    let face = TrimmedSurface { surface: Cylinder { origin: o, axis: z, ref_dir: x, radius: r }, bounds };
    let other = cx.sut("cylinder face mesh", || face.get_triangle_mesh())?;
    if other.triangles.iter().all(|i| (*i as usize) < other.vertices.len()) {
        let flat: Vec<Point2> = other.vertices.iter().map(|p| t.ring(*p, lo, h)).collect();
        let sum2: f64 = other.triangles.chunks(3).map(|c| geo::area(&[flat[c[0] as usize], flat[c[1] as usize], flat[c[2] as usize]])).sum();
        cx.check(sum * sum2 < 0.0, "cylinder.turned", || format!("loops reversed but triangles cover {} and {}", sum, sum2));
    }
    Ok(())
}
