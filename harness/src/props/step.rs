//! C25 faces read from STEP files, C26 composite curves, C27 solids.
use super::cylface::Tube;
use super::Prop;
use crate::ctx::{Case, Ctx, Stop};
use crate::gen;
use crate::geo::{self, Region};
use crate::oracle;
use crate::stepfile::{self as sf, Edge, Id, Piece, Step};
use geom3d::curve::{Curve, CurveSegment};
use geom3d::model::StepReader;
use geom3d::surface::{Surface, TrimmedSurface};
use geom3d::{Face, Model, Point2, Point3, Vec3};
use std::f64::consts::{PI, TAU};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        quick: 2400,
        thorough: 60000,
        rule: "STEP files with 1..4 faces on planes, cylinders, B-spline, Bezier, rational and revolved surfaces, bounded by lines, arcs, polylines and B-splines; random identifiers, entity order, layout, number format, edge, loop and face senses, default axes, directions of any length, some entities of kinds the reader does not know; every edge, loop and mesh compared with the geometry the file describes; non-trivial: a face with holes or curved edges",
        assumptions: &["well-formed AP214 files of the reader's entity kinds", "loops simple; edges down to a thousandth, gaps wide against the hundredth to which edges are sampled", "edges do not run over the seam of a closed spline", "angles in radians"],
        run: faces,
    },
    Prop {
        id: "C26",
        quick: 7000,
        thorough: 150000,
        rule: "STEP files with 1..3 composite curves of 1..8 segments: lines, arcs, whole circles, polylines and B-splines, trimmed by parameter, by point or by both, with and against the sense of the basis curve, used forwards and backwards, or whole curves used directly, segments and curves shared by several of them; every segment evaluated at 300 parameters and compared both ways with the curve the file describes; non-trivial: all",
        assumptions: &["well-formed AP214 files", "trims of circles less than a turn apart", "parts of closed splines do not run over the seam", "angles in radians"],
        run: curves,
    },
    Prop {
        id: "C27",
        quick: 1500,
        thorough: 20000,
        rule: "solids as STEP shells with shared edges: prisms over outlines of 9 shapes with holes and arcs, tilted tops, discs with round holes, boxes under B-spline height fields; every face judged as in C25, the skin exported as STL and its signed volume and total vector area compared with the exact volume and zero; non-trivial: all",
        assumptions: &["as for C25", "seam edges only on whole cylinders"],
        run: solids,
    }]
}

type Read = Model<TrimmedSurface<Box<dyn Surface>>>;

/// what a face of the file means
struct Want {
    name: String,
    loops: Vec<Vec<Piece>>,
    /// distance of a point from the surface
    off: Box<dyn Fn(Point3) -> f64>,
    /// area with sign of the mesh against the normal field here
    sided: Option<(Box<dyn Fn(Point3) -> Vec3>, f64, f64)>,
    meshed: bool,
    size: f64,
    /// parameters and the points of the surface there
    samples: Vec<(f64, f64, Point3)>,
}

/// a piece along a wavy spline between two corners, or straight, bent, kinked
fn side(cx: &mut Ctx, a: Point2, b: Point2, up: &dyn Fn(Point2) -> Point3, z: Vec3, bend: f64) -> Piece {
    let l = (b - a).length();
    let left = Point2::new(-(b - a).y, (b - a).x) / l;
    match cx.rng.below(6) {
        0 => {
            let h = cx.rng.range(0.2, 1.0) * bend;
            let s = if cx.rng.chance(0.5) { 1.0 } else { -1.0 };
            let r = (l * l / 4.0 + h * h) / (2.0 * h);
            // bulging to the right turns left
            let c = (a + b) * 0.5 + left * (r - h) * s;
            let w = 2.0 * (l / 2.0 / r).asin();
            let x = (up(a) - up(c)).normalize();
            Piece::Arc(up(c), z, x, r, 0.0, s * w)
        }
        1 => {
            let n = 2 + cx.rng.below(6);
            let mut p = vec![up(a)];
            for i in 1..n {
                let d = cx.rng.range(-1.0, 1.0) * bend / n as f64;
                p.push(up(a + (b - a) * (i as f64 / n as f64) + left * d));
            }
            p.push(up(b));
            Piece::Poly(p)
        }
        2 | 3 => {
            let d = 1 + cx.rng.below(3);
            let n = d + 1 + cx.rng.below(5);
            let k = clamped(cx, n, d);
            let local: Vec<Point2> = (0..n)
                .map(|i| {
                    let g = k[i + 1..=i + d].iter().sum::<f64>() / d as f64;
                    Point2::new(g, 0.0)
                })
                .collect();
            let (k0, k1) = (k[0], k[k.len() - 1]);
            // maybe only a part of it
            let part = cx.rng.chance(0.4);
            let (t0, t1) = if part { (k0 + (k1 - k0) * cx.rng.range(0.0, 0.3), k0 + (k1 - k0) * cx.rng.range(0.6, 1.0)) } else { (k0, k1) };
            let amp = (t1 - t0) / l * bend / n as f64;
            let local: Vec<Point2> = local.iter().map(|p| *p + Point2::new(0.0, cx.rng.range(-1.0, 1.0) * amp)).collect();
            let mut local = local;
            if !part && d >= 2 && n >= 4 && cx.rng.chance(0.2) {
                let i = 1 + cx.rng.below(n - 3);
                local[i + 1] = local[i];
                cx.seen("equal control points in a row");
            }
            let lift = |v: &[Point2]| v.iter().map(|p| Point3::new(p.x, p.y, 0.0)).collect::<Vec<_>>();
            let whole = Piece::Spline(k.clone(), d, lift(&local), t0, t1);
            let (s, e) = (whole.start().truncate(), whole.end().truncate());
            // similarity taking s to a and e to b
            let (p, q) = (e - s, b - a);
            let m = Point2::new(p.dot(q), p.perp_dot(q)) / p.length_squared();
            let to = |v: Point2| {
                let v = v - s;
                a + Point2::new(m.x * v.x - m.y * v.y, m.x * v.y + m.y * v.x)
            };
            Piece::Spline(k, d, local.iter().map(|v| up(to(*v))).collect(), t0, t1)
        }
        _ => Piece::Line(up(a), up(b)),
    }
}

/// clamped knots for n control points
fn clamped(cx: &mut Ctx, n: usize, d: usize) -> Vec<f64> {
    let spans = n - d;
    let start = *cx.rng.pick(&[0.0, 0.0, 2.802464183, -7.5]);
    let step = *cx.rng.pick(&[1.0, 0.1, 12.0]) / if cx.rng.chance(0.5) { spans as f64 } else { 1.0 };
    let uneven = cx.rng.chance(0.5);
    let mut k = vec![0.0; d + 1];
    for i in 1..spans {
        k.push(i as f64 + if uneven { cx.rng.range(-0.3, 0.3) } else { 0.0 });
    }
    k.extend(vec![spans as f64; d + 1]);
    k.iter().map(|x| start + x * step).collect()
}

/// a closed loop in one or a few pieces of one curve, counter-clockwise
fn round(cx: &mut Ctx, at: Point2, size: f64, up: &dyn Fn(Point2) -> Point3, x: Vec3, z: Vec3) -> Vec<Piece> {
    let n = 1 + cx.rng.below(3);
    let a0 = cx.rng.range(0.0, TAU);
    match cx.rng.below(4) {
        0 | 1 => (0..n)
            .map(|i| {
                let a = a0 + TAU * i as f64 / n as f64;
                Piece::Arc(up(at), z, oracle::rotate(x, z, a), size, 0.0, TAU / n as f64)
            })
            .collect(),
        2 => {
            let m = 5 + cx.rng.below(8);
            let mut p: Vec<Point3> = (0..m)
                .map(|i| {
                    let w = a0 + TAU * i as f64 / m as f64;
                    up(at + Point2::new(w.cos(), w.sin()) * size * cx.rng.range(0.7, 1.0))
                })
                .collect();
            p.push(p[0]);
            vec![Piece::Poly(p)]
        }
        _ => {
            let m = 7 + cx.rng.below(5);
            let d = 2 + cx.rng.below(2);
            let mut p: Vec<Point3> = (0..m)
                .map(|i| {
                    let w = a0 + TAU * i as f64 / m as f64;
                    up(at + Point2::new(w.cos(), w.sin()) * size * cx.rng.range(0.8, 1.0))
                })
                .collect();
            p.push(p[0]);
            let k = clamped(cx, m + 1, d);
            let (lo, hi) = (k[0], k[k.len() - 1]);
            (0..n).map(|i| Piece::Spline(k.clone(), d, p.clone(), lo + (hi - lo) * i as f64 / n as f64, if i + 1 == n { hi } else { lo + (hi - lo) * (i + 1) as f64 / n as f64 })).collect()
        }
    }
}

fn turned(l: &[Piece]) -> Vec<Piece> {
    l.iter().rev().map(|p| p.reversed()).collect()
}

fn dense(l: &[Piece]) -> Vec<Point3> {
    let mut v: Vec<Point3> = vec![];
    for p in l {
        let mut d = p.dense(300);
        d.pop();
        v.extend(d);
    }
    v
}

/// vector area of a closed polygon
fn vector_area(p: &[Point3]) -> Vec3 {
    let o = p[0];
    (0..p.len()).fold(Vec3::ZERO, |s, i| s + (p[i] - o).cross(p[(i + 1) % p.len()] - o)) * 0.5
}

fn length(p: &[Point3]) -> f64 {
    (0..p.len()).map(|i| (p[(i + 1) % p.len()] - p[i]).length()).sum()
}

/// write the bounds of a face from its loops
fn write_loops(s: &mut Step, cx: &mut Ctx, loops: &[Vec<Piece>]) -> Vec<Id> {
    loops
        .iter()
        .enumerate()
        .map(|(k, l)| {
            let v: Vec<Id> = l.iter().map(|p| s.vertex(&mut cx.rng, p.start())).collect();
            let edges: Vec<Edge> = (0..l.len()).map(|i| sf::write_edge(s, &mut cx.rng, &l[i], v[i], v[(i + 1) % l.len()])).collect();
            let used: Vec<(&Edge, bool)> = edges.iter().map(|e| (e, true)).collect();
            sf::write_bound(s, &mut cx.rng, &used, k == 0)
        })
        .collect()
}

struct Place {
    o: Point3,
    x: Vec3,
    y: Vec3,
    z: Vec3,
}

fn place(cx: &mut Ctx) -> Place {
    let (x, y, z) = if cx.rng.chance(0.4) { (Vec3::X, Vec3::Y, Vec3::Z) } else { gen::frame(&mut cx.rng) };
    Place { o: gen::point3(&mut cx.rng, gen::Coords::Tens), x, y, z }
}

/// an outline with holes, corners at least `gap` apart after scaling
fn outline(cx: &mut Ctx, shapes: &[&'static str], holes: f64) -> Option<Region> {
    let shape = *cx.rng.pick(shapes);
    let v = geo::polygon(&mut cx.rng, shape)?;
    let want = if cx.rng.chance(holes) { 1 + cx.rng.below(3) } else { 0 };
    let g = if want > 0 { geo::punch(&mut cx.rng, v, want, 0.2) } else { Region { outer: v, holes: vec![] } };
    if !geo::is_clean(&g.outer, 0.15, 0.1) || g.holes.iter().any(|h| !geo::is_clean(h, 0.1, 0.1)) || g.loops().iter().any(|l| !geo::opens(l, 0.85)) {
        return None;
    }
    Some(g)
}

fn planar(cx: &mut Ctx, s: &mut Step) -> Option<(Id, Want)> {
    let f = place(cx);
    let (o, x, y) = (f.o, f.x, f.y);
    let scale = cx.rng.range(10.0, 30.0);
    let up = move |p: Point2| o + x * p.x + y * p.y;
    let mut name = "plane".to_string();
    let loops: Vec<Vec<Piece>> = if cx.rng.chance(0.3) {
        // round outlines and holes
        let size = cx.rng.range(2.0, 8.0);
        let mut v = vec![];
        let holed = cx.rng.chance(0.6);
        if holed {
            let w = 2.5 * size;
            let c: Vec<Point2> = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)].iter().map(|c| Point2::new(c.0, c.1) * w * 1.1).collect();
            if cx.rng.chance(0.5) {
                v.push((0..4).map(|i| side(cx, c[i], c[(i + 1) % 4], &up, f.z, size * 0.1)).collect());
            } else {
                v.push(vec![Piece::Arc(up(Point2::ZERO), f.z, f.x, w * 1.1, 0.0, PI), Piece::Arc(up(Point2::ZERO), f.z, f.x, w * 1.1, PI, TAU)]);
            }
            let n = 1 + cx.rng.below(3);
            let a0 = cx.rng.range(0.0, TAU);
            for i in 0..n {
                let w = a0 + TAU * i as f64 / n as f64;
                let at = if n == 1 { Point2::new(w.cos(), w.sin()) * size * 0.3 } else { Point2::new(w.cos(), w.sin()) * size * 1.4 };
                let l = round(cx, at, size, &up, f.x, f.z);
                v.push(turned(&l));
            }
            name.push_str(" with round holes");
        } else {
            v.push(round(cx, Point2::ZERO, size, &up, f.x, f.z));
            name.push_str(" with round outline");
        }
        v
    } else {
        let g = outline(cx, &geo::SHAPES, 0.35)?;
        if g.holes.len() > 0 {
            name.push_str(" with holes");
        }
        let straight = cx.rng.chance(0.2);
        // corners cut off by very short edges
        let cut = if cx.rng.chance(0.3) { 10f64.powf(cx.rng.range(-2.7, -1.2)) } else { 0.0 };
        g.loops()
            .iter()
            .map(|l| {
                let l: Vec<Point2> = l.iter().map(|p| *p * scale).collect();
                let l = if cut > 0.0 { geo::chamfer(&mut cx.rng, &l, cut, 0.3) } else { l };
                (0..l.len())
                    .map(|i| {
                        let (a, b) = (l[i], l[(i + 1) % l.len()]);
                        let tiny = (b - a).length() < 0.5;
                        if tiny {
                            cx.seen("very short edge");
                        }
                        if straight {
                            return Piece::Line(up(a), up(b));
                        }
                        if tiny {
                            let bend = 0.04 * (b - a).length();
                            loop {
                                let s = side(cx, a, b, &up, f.z, bend);
                                if matches!(s, Piece::Line(..) | Piece::Arc(..)) {
                                    return s;
                                }
                            }
                        }
                        let bend = (0.05 * (b - a).length()).min(0.035 * scale);
                        side(cx, a, b, &up, f.z, bend)
                    })
                    .collect()
            })
            .collect()
    };
    let bounds = write_loops(s, cx, &loops);
    let (d0, d1) = (cx.rng.range(-50.0, 50.0), cx.rng.range(-50.0, 50.0));
    let at = if cx.rng.chance(0.5) { f.o } else { f.o + f.x * d0 + f.y * d1 };
    let (plane, same) = sf::write_plane(s, &mut cx.rng, at, f.z);
    let id = sf::write_face(s, &mut cx.rng, &bounds, plane, same);
    let z = f.z;
    let area = loops.iter().map(|l| vector_area(&dense(l)).dot(z)).sum::<f64>();
    let want = Want { name, loops, off: Box::new(move |p| (p - o).dot(z).abs()), sided: Some((Box::new(move |_| z), area, 0.0)), meshed: true, size: 1.0, samples: vec![] };
    Some((id, want))
}

fn tube(cx: &mut Ctx, s: &mut Step) -> Option<(Id, Want)> {
    let f = place(cx);
    let backwards = cx.rng.chance(0.4);
    let sleeve = cx.rng.chance(0.25);
    let mut name = "cylinder".to_string();
    let r;
    let mut loops: Vec<Vec<Piece>>;
    let t;
    let z0 = *cx.rng.pick(&[0.0, -20.0, 35.0]);
    let area;
    if sleeve {
        r = cx.rng.range(1.0, 12.0);
        let h = r * cx.rng.range(0.4, 3.0);
        t = Tube { o: f.o + f.z * z0, x: f.x, y: f.y, z: f.z, r };
        let mut ring = |z: f64, s: f64| -> Vec<Piece> {
            let n = 1 + cx.rng.below(3);
            let a0 = cx.rng.range(0.0, TAU);
            (0..n).map(|i| Piece::Arc(t.o + t.z * z, t.z, t.x, r, a0 + s * TAU * i as f64 / n as f64, a0 + s * TAU * (i + 1) as f64 / n as f64)).collect()
        };
        loops = vec![ring(0.0, 1.0), ring(h, -1.0)];
        area = TAU * r * h;
        name = "sleeve".to_string();
    } else {
        let g = outline(cx, &["rectangle", "rectangle", "staircase", "frame", "comb", "star", "convex", "tangled", "triangle"], 0.3)?;
        let (lo, hi) = g.bounds();
        let ratio = 5.5 / (hi - lo).x * cx.rng.range(0.1, 1.0);
        let r0 = 1.0 / ratio;
        // what the fixed sampling tolerance needs
        let scale = (1.0 * (hi - lo).y / r0).max(1.0) * cx.rng.range(1.0, 3.0);
        r = r0 * scale;
        t = Tube { o: f.o + f.z * z0, x: f.x, y: f.y, z: f.z, r };
        let a0 = cx.rng.range(0.0, TAU);
        let map = |p: Point2| Point2::new(a0 + (p.x - lo.x) / r0, (p.y - lo.y) * scale);
        loops = g
            .loops()
            .iter()
            .map(|l| {
                let mut out = vec![];
                for i in 0..l.len() {
                    let (a, b) = (map(l[i]), map(l[(i + 1) % l.len()]));
                    if (a.x - b.x).abs() < 1e-9 {
                        out.push(Piece::Line(t.at(a), t.at(b)));
                    } else if (a.y - b.y).abs() < 1e-9 {
                        out.push(Piece::Arc(t.o + t.z * a.y, t.z, t.x, r, a.x, b.x));
                    } else {
                        let n = ((b.x - a.x).abs() / (0.08 / r).sqrt().min(0.15)).ceil() as usize;
                        let pts: Vec<Point3> = (0..=n).map(|k| t.at(a + (b - a) * (k as f64 / n as f64))).collect();
                        if cx.rng.chance(0.5) {
                            out.push(Piece::Poly(pts));
                        } else {
                            out.extend(pts.windows(2).map(|w| Piece::Line(w[0], w[1])));
                        }
                    }
                }
                out
            })
            .collect();
        area = g.area() * scale * scale;
        if g.holes.len() > 0 {
            name.push_str(" with holes");
        }
    }
    if backwards {
        loops = loops.iter().map(|l| turned(l)).collect();
    }
    let bounds = write_loops(s, cx, &loops);
    let (d, up) = (cx.rng.range(-60.0, 60.0), cx.rng.chance(0.5));
    let at = if cx.rng.chance(0.5) { t.o } else { t.o + t.z * d };
    let cyl = sf::write_cylinder(s, &mut cx.rng, at, if up { t.z } else { -t.z }, r);
    let id = sf::write_face(s, &mut cx.rng, &bounds, cyl, !backwards);
    let (o, z) = (t.o, t.z);
    let radial = move |p: Point3| {
        let v = p - o;
        v - z * v.dot(z)
    };
    let want = Want {
        name,
        loops,
        off: Box::new(move |p| (radial(p).length() - r).abs()),
        sided: Some((Box::new(move |p| radial(p).normalize()), if backwards { -area } else { area }, 0.12)),
        meshed: true,
        size: 1.0,
        samples: vec![],
    };
    Some((id, want))
}

/// B-spline height field, see C19
fn sheet(cx: &mut Ctx, s: &mut Step) -> Option<(Id, Want)> {
    let f = place(cx);
    let (p, q) = (2 + cx.rng.below(2), 2 + cx.rng.below(2));
    let (n, m) = (p + 1 + cx.rng.below(4), q + 1 + cx.rng.below(4));
    let (ku, kv) = (clamped(cx, n, p), clamped(cx, m, q));
    let (u0, wu) = (ku[0], ku[ku.len() - 1] - ku[0]);
    let (v0, wv) = (kv[0], kv[kv.len() - 1] - kv[0]);
    let size = cx.rng.range(10.0, 40.0);
    let (sx, sy) = (size / wu, size / wv * *cx.rng.pick(&[1.0, 0.6]));
    let greville = |k: &[f64], p: usize, i: usize| k[i + 1..=i + p].iter().sum::<f64>() / p as f64;
    let step = (wu * sx / (n - 1) as f64).min(wv * sy / (m - 1) as f64);
    let rows: Vec<Vec<Point3>> = (0..n)
        .map(|i| {
            (0..m)
                .map(|j| {
                    let h = cx.rng.range(-0.25, 0.25) * step;
                    f.o + f.x * (greville(&ku, p, i) - u0) * sx + f.y * (greville(&kv, q, j) - v0) * sy + f.z * h
                })
                .collect()
        })
        .collect();
    let (ku2, kv2, rows2) = (ku.clone(), kv.clone(), rows.clone());
    // square coordinates to space
    let at = move |u: f64, v: f64| {
        let (u, v) = (u0 + wu * u.max(0.0).min(1.0), v0 + wv * v.max(0.0).min(1.0));
        let (bu, bv) = (oracle::basis(&ku2, p, oracle::c(u)), oracle::basis(&kv2, q, oracle::c(v)));
        oracle::tensor(&bu, &bv, &|i, j| rows2[i][j])
    };
    let mut name = "B-spline surface".to_string();
    let whole = cx.rng.chance(0.4);
    let mut g = if whole {
        Region { outer: vec![Point2::new(0.0, 0.0), Point2::new(1.0, 0.0), Point2::new(1.0, 1.0), Point2::new(0.0, 1.0)], holes: vec![] }
    } else {
        let shape = *cx.rng.pick(&["rectangle", "staircase", "frame", "comb", "star", "convex", "tangled", "triangle"]);
        let v = geo::polygon(&mut cx.rng, shape)?;
        let want = if cx.rng.chance(0.3) { 1 + cx.rng.below(3) } else { 0 };
        let g = if want > 0 { geo::punch(&mut cx.rng, v, want, 0.3) } else { Region { outer: v, holes: vec![] } };
        if g.holes.len() > 0 {
            name.push_str(" with holes");
        }
        g
    };
    if !whole {
        let (lo, hi) = g.bounds();
        let k = (hi - lo).x.max((hi - lo).y);
        let pad = *cx.rng.pick(&[0.0, 0.05]);
        for l in std::iter::once(&mut g.outer).chain(g.holes.iter_mut()) {
            for c in l.iter_mut() {
                *c = (*c - lo) / k * (1.0 - 2.0 * pad) + Point2::new(pad, pad);
            }
        }
        if !geo::is_clean(&g.outer, 0.02, 0.0125) || g.holes.iter().any(|h| !geo::is_clean(h, 0.012, 0.008)) || g.loops().iter().any(|l| !geo::opens(l, 0.93)) {
            return None;
        }
    }
    let backwards = cx.rng.chance(0.4);
    let splines = whole && cx.rng.chance(0.7);
    let mut loops: Vec<Vec<Piece>> = if splines {
        name.push_str(" along its own border");
        let col = |j: usize| rows.iter().map(|r| r[j]).collect::<Vec<_>>();
        let (k0, k1, l0, l1) = (u0, u0 + wu, v0, v0 + wv);
        vec![vec![
            Piece::Spline(ku.clone(), p, col(0), k0, k1),
            Piece::Spline(kv.clone(), q, rows[n - 1].clone(), l0, l1),
            Piece::Spline(ku.clone(), p, col(m - 1), k0, k1).reversed(),
            Piece::Spline(kv.clone(), q, rows[0].clone(), l0, l1).reversed(),
        ]]
    } else {
        let fine = 8 + cx.rng.below(8);
        let chains = cx.rng.chance(0.5);
        g.loops()
            .iter()
            .map(|l| {
                let mut out = vec![];
                for i in 0..l.len() {
                    let (a, b) = (l[i], l[(i + 1) % l.len()]);
                    let n = ((b - a).length() * fine as f64).ceil() as usize;
                    let pts: Vec<Point3> = (0..=n).map(|k| a + (b - a) * (k as f64 / n as f64)).map(|c| at(c.x, c.y)).collect();
                    if chains {
                        out.push(Piece::Poly(pts));
                    } else {
                        out.extend(pts.windows(2).map(|w| Piece::Line(w[0], w[1])));
                    }
                }
                out
            })
            .collect()
    };
    if backwards {
        loops = loops.iter().map(|l| turned(l)).collect();
    }
    let bounds = write_loops(s, cx, &loops);
    let surface = sf::write_bspline_surface(s, &mut cx.rng, &rows, &ku, &kv, p, q);
    let id = sf::write_face(s, &mut cx.rng, &bounds, surface, !backwards);
    let (o, x, y, z) = (f.o, f.x, f.y, f.z);
    let area = g.area() * wu * sx * wv * sy;
    let at2 = at.clone();
    let samples = surface_samples(cx, (u0, u0 + wu), (v0, v0 + wv), |u, v| at2((u - u0) / wu, (v - v0) / wv));
    let want = Want {
        name,
        loops,
        off: Box::new(move |c| {
            let (u, v) = ((c - o).dot(x) / sx / wu, (c - o).dot(y) / sy / wv);
            (at(u, v) - c).length()
        }),
        sided: Some((Box::new(move |_| z), if backwards { -area } else { area }, 0.0)),
        meshed: true,
        size: 1.0,
        samples,
    };
    Some((id, want))
}

fn surface_samples(cx: &mut Ctx, (u0, u1): (f64, f64), (v0, v1): (f64, f64), at: impl Fn(f64, f64) -> Point3) -> Vec<(f64, f64, Point3)> {
    let mut pick = |a: f64, b: f64| match cx.rng.below(6) {
        0 => a,
        1 => b,
        _ => cx.rng.range(a, b),
    };
    (0..8)
        .map(|_| {
            let (u, v) = (pick(u0, u1), pick(v0, v1));
            (u, v, at(u, v))
        })
        .collect()
}

/// surfaces that can be evaluated but not trimmed
fn other(cx: &mut Ctx, s: &mut Step) -> Option<(Id, Want)> {
    let c = gen::Coords::Tens;
    let (p, q) = (1 + cx.rng.below(3), 1 + cx.rng.below(3));
    let (surface, samples, name) = match cx.rng.below(3) {
        0 => {
            let (n, m) = (p + 1, q + 1);
            let rows: Vec<Vec<Point3>> = (0..n).map(|_| gen::points3(&mut cx.rng, c, m)).collect();
            let l: Vec<String> = rows.iter().map(|row| s.points(&mut cx.rng, row)).collect();
            let t = format!("BEZIER_SURFACE({},{},{},{},.UNSPECIFIED.,.F.,.F.,.F.)", sf::label(&mut cx.rng), p, q, sf::list(&l));
            let samples = surface_samples(cx, (0.0, 1.0), (0.0, 1.0), |u, v| oracle::tensor(&oracle::bernstein(n - 1, oracle::c(u)), &oracle::bernstein(m - 1, oracle::c(v)), &|i, j| rows[i][j]));
            (s.add(t), samples, "Bezier surface")
        }
        1 => {
            let (n, m) = (p + 1 + cx.rng.below(3), q + 1 + cx.rng.below(3));
            let (ku, kv) = (clamped(cx, n, p), clamped(cx, m, q));
            let rows: Vec<Vec<Point3>> = (0..n).map(|_| gen::points3(&mut cx.rng, c, m)).collect();
            let w: Vec<Vec<f64>> = (0..n).map(|_| (0..m).map(|_| cx.rng.range(0.2, 4.0)).collect()).collect();
            let l: Vec<String> = rows.iter().map(|row| s.points(&mut cx.rng, row)).collect();
            let ws: Vec<String> = w.iter().map(|row| sf::list(&row.iter().map(|v| sf::real(&mut cx.rng, *v)).collect::<Vec<_>>())).collect();
            let (uv, um) = sf::multiplicities(&mut cx.rng, &ku);
            let (vv, vm) = sf::multiplicities(&mut cx.rng, &kv);
            let t = format!(
                "(BOUNDED_SURFACE()B_SPLINE_SURFACE({},{},{},.UNSPECIFIED.,.F.,.F.,.F.)B_SPLINE_SURFACE_WITH_KNOTS({},{},{},{},.UNSPECIFIED.)GEOMETRIC_REPRESENTATION_ITEM()RATIONAL_B_SPLINE_SURFACE({})REPRESENTATION_ITEM('')SURFACE())",
                p,
                q,
                sf::list(&l),
                um,
                vm,
                uv,
                vv,
                sf::list(&ws)
            );
            let samples = surface_samples(cx, (ku[0], ku[ku.len() - 1]), (kv[0], kv[kv.len() - 1]), |u, v| {
                oracle::tensor_rational(&oracle::basis(&ku, p, oracle::c(u)), &oracle::basis(&kv, q, oracle::c(v)), &|i, j| rows[i][j], &|i, j| w[i][j])
            });
            (s.add(t), samples, "rational B-spline surface")
        }
        _ => {
            let f = place(cx);
            let d = 1 + cx.rng.below(3);
            let n = d + 1 + cx.rng.below(4);
            let k = clamped(cx, n, d);
            let pts = gen::points3(&mut cx.rng, c, n);
            let curve = s.spline(&mut cx.rng, &k, d, &pts);
            let o = s.point(&mut cx.rng, f.o);
            let a = if f.z == Vec3::Z && cx.rng.chance(0.5) { "$".to_string() } else { sf::rf(s.direction(&mut cx.rng, f.z)) };
            let t = format!("AXIS1_PLACEMENT({},{},{})", sf::label(&mut cx.rng), sf::rf(o), a);
            let a = s.add(t);
            let t = format!("SURFACE_OF_REVOLUTION({},{},{})", sf::label(&mut cx.rng), sf::rf(curve), sf::rf(a));
            // the section parameter and the angle, in the order of the library
            let samples = surface_samples(cx, (k[0], k[k.len() - 1]), (0.0, TAU), |u, v| {
                let p = oracle::combine(&oracle::basis(&k, d, oracle::c(u)), &pts).0;
                f.o + oracle::rotate(p - f.o, f.z, v)
            });
            (s.add(t), samples, "surface of revolution")
        }
    };
    let v = Point3::new(cx.rng.range(50.0, 60.0), cx.rng.range(-9.0, 9.0), cx.rng.range(-9.0, 9.0));
    let tri = [v, v + Vec3::X * 3.0, v + Vec3::Y * 3.0];
    let loops = vec![(0..3).map(|i| Piece::Line(tri[i], tri[(i + 1) % 3])).collect::<Vec<_>>()];
    let bounds = write_loops(s, cx, &loops);
    let same = cx.rng.chance(0.5);
    let id = sf::write_face(s, &mut cx.rng, &bounds, surface, same);
    Some((id, Want { name: name.to_string(), loops, off: Box::new(|_| 0.0), sided: None, meshed: false, size: 1.0, samples }))
}

/// entities the reader has no use for
fn clutter(cx: &mut Ctx, s: &mut Step) {
    let f = place(cx);
    if cx.rng.chance(0.3) {
        // a face on a cone is left out
        let p = s.placement(&mut cx.rng, f.o, f.z, f.x);
        let t = format!("CONICAL_SURFACE({},{},2.5,0.3)", sf::label(&mut cx.rng), sf::rf(p));
        let cone = s.add(t);
        let l = vec![vec![Piece::Line(f.o, f.o + f.x), Piece::Line(f.o + f.x, f.o)]];
        let b = write_loops(s, cx, &l);
        sf::write_face(s, &mut cx.rng, &b, cone, true);
        cx.seen("face on an unknown surface");
    }
    if cx.rng.chance(0.3) {
        let a = s.add("APPLICATION_CONTEXT('mechanical design')".to_string());
        let t = format!("PRODUCT_CONTEXT({},{},'mechanical')", sf::label(&mut cx.rng), sf::rf(a));
        s.add(t);
        let t = "(LENGTH_UNIT()NAMED_UNIT(*)SI_UNIT(.MILLI.,.METRE.))".to_string();
        s.add(t);
        let t = "(NAMED_UNIT(*)PLANE_ANGLE_UNIT()SI_UNIT($,.RADIAN.))".to_string();
        s.add(t);
        cx.seen("units");
    }
}

fn read(cx: &mut Ctx, s: &Step) -> Result<Read, Stop> {
    let text = s.render(&mut cx.rng);
    let name = "model.stp";
    if cx.verbose {
        let _ = std::fs::write("/tmp/model.stp", &text);
    }
    std::fs::write(name, &text).expect("scratch file");
    let r = cx.sut("StepReader::read_model", || StepReader::read_model(name))?;
    match r {
        Ok(m) => Ok(m),
        Err(e) => {
            cx.fail("step.read", format!("a well-formed file gave {:?}", e));
            Err(Stop)
        }
    }
}

/// distance of a point from a polygon, closed or not
fn polygon_dist(v: &[Point3], closed: bool, p: Point3) -> f64 {
    let n = if closed { v.len() } else { v.len() - 1 };
    (0..n).map(|i| oracle::seg_distance(v[i], v[(i + 1) % v.len()], p)).fold(f64::MAX, f64::min)
}

/// area that sampling may leave out of a piece time after time: a chord is taken
/// where a probe near the middle lies close to it, and a curve that crosses its
/// chord about there passes most probes
fn unsure(p: &Piece, a: f64, b: f64, depth: usize) -> f64 {
    let (pa, pb) = (p.at(a), p.at(b));
    let off = |k: f64| (p.at(a + (b - a) * k) - (pa + (pb - pa) * k)).length();
    let passed = (0..=40).filter(|i| off(0.4 + 0.2 * *i as f64 / 40.0) < 0.0105).count();
    let on = if depth == 0 || passed == 41 && (1..32).all(|i| off(i as f64 / 32.0) < 0.02) {
        return 0.0;
    } else {
        let m = (a + b) * 0.5;
        unsure(p, a, m, depth - 1) + unsure(p, m, b, depth - 1)
    };
    if passed < 3 {
        return on;
    }
    // between the curve and the chord
    let v: Vec<Point3> = (0..=128).map(|i| p.at(a + (b - a) * i as f64 / 128.0)).collect();
    let gap = v.windows(2).enumerate().fold(0.0, |s, (i, w)| s + (w[1] - w[0]).length() * (off((i as f64 + 0.5) / 128.0) - 0.01));
    on.max(gap)
}

/// the edge runs along the piece, the whole of it, in its direction
fn judge_edge(cx: &mut Ctx, pts: &[Point3], piece: &Piece, eps: f64, class: &str) -> bool {
    let (a, b) = (pts[0], pts[pts.len() - 1]);
    // the foot on a spline is only found to a distance of 1e-7 squared
    let exact = 1e-7 + eps * 20.0;
    let near = if let Piece::Spline(..) = piece { 4e-4 } else { exact };
    let mut ok = cx.within((a - piece.start()).length().max((b - piece.end()).length()), near, &format!("{}.ends", class), || format!("edge from {:?} to {:?} read as {:?} to {:?}", piece.start(), piece.end(), a, b));
    if !ok {
        return false;
    }
    let d = piece.dense(400);
    // half the longest chord is as far as the middle of its arc can be
    let longest = |v: &[Point3]| v.windows(2).map(|w| (w[1] - w[0]).length()).fold(0.0, f64::max);
    let sag = |v: &[Point3]| match piece {
        Piece::Line(_, _) => 0.0,
        Piece::Poly(_) => 0.71 * longest(v),
        _ => 0.25 * longest(v),
    };
    let far = pts.iter().map(|p| polygon_dist(&d, false, *p)).fold(0.0, f64::max);
    let tol = exact + if let Piece::Poly(_) = piece { 0.0 } else { sag(&d) };
    ok &= cx.within(far, tol, &format!("{}.points", class), || format!("a point of the edge is off the curve {:?}", piece));
    let far = d.iter().map(|p| polygon_dist(pts, false, *p)).fold(0.0, f64::max);
    ok &= cx.within(far, near + sag(pts), &format!("{}.covered", class), || format!("a part of the curve {:?} is missing", piece));
    // not there and back again
    let len = |v: &[Point3]| v.windows(2).map(|w| (w[1] - w[0]).length()).sum::<f64>();
    let (la, lb) = (len(pts), len(&d));
    ok &= cx.check((la - lb).abs() < near * 400.0 + 0.02 * lb, &format!("{}.length", class), || format!("edge of length {} read as one of {}: {:?}", lb, la, piece));
    if piece.is_closed() && ok {
        let (va, vb) = (vector_area(&d), vector_area(pts));
        ok &= cx.check(va.dot(vb) > 0.0, &format!("{}.sense", class), || format!("closed edge {:?} is run the wrong way around", piece));
    }
    ok
}

/// points of a read edge evenly over its parameters
fn along(e: &CurveSegment<Box<dyn Curve>>, n: usize) -> Vec<Point3> {
    let (a, b) = e.parameter_range;
    (0..=n).map(|i| e.curve.get_point(if i == n { b } else { a + (b - a) * (i as f64 / n as f64) })).collect()
}

/// a read loop against the pieces: same edges in the same order and direction
fn judge_loop(cx: &mut Ctx, edges: &[CurveSegment<Box<dyn Curve>>], l: &[Piece], eps: f64) -> bool {
    let pts: Vec<Vec<Point3>> = match cx.sut("Curve::get_point", || edges.iter().map(|e| along(e, if e.curve.is::<geom3d::curve::Line>() { 4 } else { 300 })).collect()) {
        Ok(p) => p,
        Err(_) => return false,
    };
    if !cx.check(pts.len() == l.len(), "loop.edges", || format!("{} edges were read for a loop of {}", pts.len(), l.len())) {
        return false;
    }
    // which edge the loop starts with
    let n = l.len();
    let mid = |p: &[Point3]| p[p.len() / 2];
    let apart = |k: usize| (l[k].start() - pts[0][0]).length() + polygon_dist(&l[k].dense(100), false, mid(&pts[0]));
    let first = (0..n).min_by(|a, b| apart(*a).partial_cmp(&apart(*b)).unwrap()).unwrap();
    (0..n).all(|i| judge_edge(cx, &pts[i], &l[(first + i) % n], eps, "edge"))
}

fn judge_face(cx: &mut Ctx, m: &Read, k: usize, w: &Want, eps: f64) {
    let face = &m.faces[k];
    if !cx.check(face.bounds.len() == w.loops.len(), "face.bounds", || format!("{}: {} bounds of {}", w.name, face.bounds.len(), w.loops.len())) {
        return;
    }
    // bounds come in any order
    let mut left: Vec<usize> = (0..w.loops.len()).collect();
    for b in &face.bounds {
        let p = match b.edges.first() {
            Some(e) => match cx.sut("Curve::get_point", || e.curve.get_point((e.parameter_range.0 + e.parameter_range.1) * 0.5)) {
                Ok(p) => p,
                Err(_) => return,
            },
            None => {
                cx.fail("loop.empty", format!("{}: a loop without edges was read", w.name));
                return;
            }
        };
        let dist = |i: usize| polygon_dist(&dense(&w.loops[i]), true, p);
        let at = match (0..left.len()).min_by(|a, b| dist(left[*a]).partial_cmp(&dist(left[*b])).unwrap()) {
            Some(at) => at,
            None => return,
        };
        let l = left.remove(at);
        if !judge_loop(cx, &b.edges, &w.loops[l], eps) {
            return;
        }
    }
    for (u, v, p) in &w.samples {
        let q = match cx.sut("Surface::get_point", || face.surface.get_point(*u, *v)) {
            Ok(q) => q,
            Err(_) => return,
        };
        if !cx.within((q - *p).length(), 1e-9 * (1.0 + p.length()) * 100.0 + eps * 20.0, "surface.point", || format!("{}: at ({}, {}) the surface of the file is {:?}, read as {:?}", w.name, u, v, p, q)) {
            return;
        }
        cx.seen("surface points compared");
    }
    // edges are probed at random places, what misses a bend now and then has to miss it every time
    for attempt in 0..15 {
        judge_mesh(cx, face, w, eps);
        if cx.fails.is_empty() || attempt == 14 || cx.fails.iter().any(|f| !["mesh.area", "mesh.vector_area", "mesh.folded"].contains(&f.class.as_str())) {
            break;
        }
        cx.fails.clear();
        cx.seen("sampled again");
    }
    cx.seen(&format!("mesh of {}", w.name));
}

fn judge_mesh(cx: &mut Ctx, face: &TrimmedSurface<Box<dyn Surface>>, w: &Want, eps: f64) {
    let mesh = match cx.sut("get_triangle_mesh", || face.get_triangle_mesh()) {
        Ok(m) => m,
        Err(_) => return,
    };
    if !w.meshed {
        return;
    }
    if !cx.check(mesh.triangles.len() > 0 && mesh.triangles.iter().all(|i| (*i as usize) < mesh.vertices.len()), "mesh.index", || format!("{}: {} triangles over {} vertices", w.name, mesh.triangles.len() / 3, mesh.vertices.len())) {
        return;
    }
    let scale = 1.0 + w.loops[0][0].start().length();
    // chords may cut through the surface
    let slack = w.loops.iter().flatten().map(|p| (0..=600).map(|i| (w.off)(p.at(i as f64 / 600.0))).fold(0.0, f64::max)).fold(0.0, f64::max);
    for v in &mesh.vertices {
        let off = (w.off)(*v);
        if !cx.within(off, 1e-8 * scale + eps * 20.0 + 1e-6 + slack * 1.1, "mesh.surface", || format!("{}: vertex {:?} is {} off the surface", w.name, v, off)) {
            return;
        }
    }
    let tri = |t: &[u32]| {
        let p = [mesh.vertices[t[0] as usize], mesh.vertices[t[1] as usize], mesh.vertices[t[2] as usize]];
        ((p[1] - p[0]).cross(p[2] - p[0]) * 0.5, (p[0] + p[1] + p[2]) / 3.0)
    };
    let d: Vec<Vec<Point3>> = w.loops.iter().map(|l| dense(l)).collect();
    let per: f64 = d.iter().map(|d| length(d)).sum();
    let want = d.iter().fold(Vec3::ZERO, |s, d| s + vector_area(d));
    let got = mesh.triangles.chunks(3).fold(Vec3::ZERO, |s, t| s + tri(t).0);
    let free = w.loops.iter().flatten().map(|p| if let Piece::Spline(..) = p { unsure(p, 0.0, 1.0, 8) } else { 0.0 }).sum::<f64>();
    if free > 0.0 {
        cx.seen("edges that cross their own chord");
    }
    cx.within((want - got).length(), per * (0.011 + eps) + free, "mesh.vector_area", || format!("{}: loops with vector area {:?} gave a mesh with {:?}", w.name, want, got));
    if let Some((normal, area, rel)) = &w.sided {
        let (mut got, mut total) = (0.0, 0.0);
        for t in mesh.triangles.chunks(3) {
            let (a, c) = tri(t);
            let v = a.dot(normal(c));
            got += v;
            total += v.abs();
        }
        cx.within((got - area).abs(), per * (0.011 + eps) + free + rel * area.abs(), "mesh.area", || format!("{}: area {} on the side of the normal, the file has {}", w.name, got, area));
        cx.within((total - area.abs()).abs(), 2.0 * (per * (0.011 + eps) + free) + rel * area.abs(), "mesh.folded", || format!("{}: triangles of {} altogether for an area of {}", w.name, total, area));
    }
    cx.seen_n("triangles", mesh.triangles.len() as u64 / 3);
}

fn faces(cx: &mut Ctx) -> Case {
    let mut s = Step::new();
    s.decimals = *cx.rng.pick(&[None, None, Some(9), Some(7)]);
    let eps = s.decimals.map_or(0.0, |d| 10f64.powi(-(d as i32)));
    let n = 1 + cx.rng.below(4);
    let mut wants = vec![];
    for _ in 0..n {
        if cx.rng.chance(0.2) {
            clutter(cx, &mut s);
        }
        let made = match cx.rng.below(10) {
            0..=4 => planar(cx, &mut s),
            5 | 6 => tube(cx, &mut s),
            7 | 8 => sheet(cx, &mut s),
            _ => other(cx, &mut s),
        };
        if let Some((_, w)) = made {
            wants.push(w);
        }
    }
    if wants.is_empty() {
        return Ok(());
    }
    cx.input = wants.iter().map(|w| format!("{}: {:?}", w.name, w.loops)).collect::<Vec<_>>().join("\n");
    if wants.iter().any(|w| w.loops.len() > 1 || w.loops.iter().flatten().any(|p| !matches!(p, Piece::Line(_, _)))) {
        cx.nontrivial();
    }
    let m = read(cx, &s)?;
    cx.check(m.curves.is_empty(), "step.curves", || format!("{} curves in a file without", m.curves.len()));
    judge_faces(cx, &m, &wants, eps);
    Ok(())
}

fn judge_faces(cx: &mut Ctx, m: &Read, wants: &[Want], eps: f64) {
    if !cx.check(m.faces.len() == wants.len(), "step.faces", || format!("{} faces were read, the file has {}", m.faces.len(), wants.len())) {
        return;
    }
    // faces come in the order of the file, which is not the order they were made in
    let mut left: Vec<usize> = (0..wants.len()).collect();
    for k in 0..m.faces.len() {
        let edges: Vec<_> = m.faces[k].bounds.iter().flat_map(|b| b.edges.iter()).collect();
        if edges.is_empty() {
            cx.fail("face.empty", "a face without edges was read".into());
            return;
        }
        let mids: Vec<Point3> = edges.iter().take(12).map(|e| e.curve.get_point((e.parameter_range.0 + e.parameter_range.1) * 0.5)).collect();
        let near = |w: &Want| {
            let count = w.loops.iter().map(|l| l.len()).sum::<usize>();
            let off = mids.iter().map(|p| w.loops.iter().flatten().map(|e| polygon_dist(&e.dense(40), false, *p)).fold(f64::MAX, f64::min)).fold(0.0, f64::max);
            off + if count == edges.len() && w.loops.len() == m.faces[k].bounds.len() { 0.0 } else { 1e6 }
        };
        let at = (0..left.len()).min_by(|a, b| near(&wants[left[*a]]).partial_cmp(&near(&wants[left[*b]])).unwrap()).unwrap();
        let w = left.remove(at);
        judge_face(cx, m, k, &wants[w], eps);
        if !cx.fails.is_empty() {
            return;
        }
    }
}

fn curves(cx: &mut Ctx) -> Case {
    let mut s = Step::new();
    s.decimals = *cx.rng.pick(&[None, None, Some(9), Some(7)]);
    let eps = s.decimals.map_or(0.0, |d| 10f64.powi(-(d as i32)));
    let n = 1 + cx.rng.below(3);
    let mut wants: Vec<Vec<Piece>> = vec![];
    let mut how: Vec<String> = vec![];
    let mut known: Vec<(Id, Id, bool, Piece)> = vec![];
    for _ in 0..n {
        let f = place(cx);
        let up = |p: Point2| f.o + f.x * p.x + f.y * p.y;
        let m = 1 + cx.rng.below(6);
        let mut at = Point2::new(cx.rng.range(-20.0, 20.0), cx.rng.range(-20.0, 20.0));
        let mut l = vec![];
        while l.len() < m {
            if cx.rng.chance(0.15) {
                let size = cx.rng.range(1.0, 9.0);
                let mut v = round(cx, at, size, &up, f.x, f.z);
                if cx.rng.chance(0.5) {
                    v = turned(&v);
                }
                l.extend(v);
                continue;
            }
            if cx.rng.chance(0.15) {
                let n = 3 + cx.rng.below(6);
                l.push(Piece::Poly(gen::stairs(&mut cx.rng, n)));
                continue;
            }
            if cx.rng.chance(0.25) {
                // any part of a circle
                let r = cx.rng.range(0.5, 20.0);
                let (a, w) = (cx.rng.range(-TAU, TAU), cx.rng.range(0.05, TAU - 0.05));
                let s = if cx.rng.chance(0.5) { 1.0 } else { -1.0 };
                l.push(Piece::Arc(up(at), f.z, f.x, r, a, a + s * w));
                continue;
            }
            let w = cx.rng.range(0.0, TAU);
            let to = at + Point2::new(w.cos(), w.sin()) * cx.rng.range(1.0, 60.0);
            let bend = (to - at).length() * cx.rng.range(0.01, 0.2);
            l.push(side(cx, at, to, &up, f.z, bend));
            at = to;
        }
        let mut ids: Vec<Id> = vec![];
        for p in &l {
            let (id, parent, h) = sf::write_segment(&mut s, &mut cx.rng, p);
            known.push((id, parent, h.ends_with("true"), p.clone()));
            how.push(h);
            ids.push(id);
        }
        // segments and curves of the file may be used again
        for _ in 0..3 {
            if cx.rng.chance(0.2) {
                let (id, parent, same, p) = cx.rng.pick(&known).clone();
                let at = cx.rng.below(l.len() + 1);
                if cx.rng.chance(0.5) {
                    ids.insert(at, id);
                    l.insert(at, p);
                    cx.seen("segments used again");
                } else {
                    let sense = cx.rng.chance(0.5);
                    ids.insert(at, sf::write_again(&mut s, &mut cx.rng, parent, sense));
                    l.insert(at, if sense == same { p } else { p.reversed() });
                    cx.seen("curves used again");
                }
            }
        }
        sf::write_composite(&mut s, &mut cx.rng, &ids);
        wants.push(l);
        if cx.rng.chance(0.2) {
            clutter(cx, &mut s);
        }
    }
    cx.input = format!("{:?} written {:?}", wants, how);
    cx.nontrivial();
    let m = read(cx, &s)?;
    cx.check(m.faces.is_empty(), "step.faces", || format!("{} faces in a file without", m.faces.len()));
    if !cx.check(m.curves.len() == wants.len(), "step.curves", || format!("{} curves were read, the file has {}", m.curves.len(), wants.len())) {
        return Ok(());
    }
    let mut left: Vec<usize> = (0..wants.len()).collect();
    for c in &m.curves {
        if !cx.check(c.segments.len() > 0, "curve.empty", || "a composite curve without segments was read".into()) {
            return Ok(());
        }
        let starts: Vec<Point3> = c.segments.iter().map(|e| e.curve.get_point(e.parameter_range.0)).collect();
        let near = |i: usize| wants[i].iter().zip(&starts).map(|(w, p)| (w.start() - *p).length()).sum::<f64>() + if wants[i].len() == c.segments.len() { 0.0 } else { 1.0 };
        let at = (0..left.len()).min_by(|a, b| near(left[*a]).partial_cmp(&near(left[*b])).unwrap()).unwrap();
        let l = &wants[left.remove(at)];
        if !cx.check(c.segments.len() == l.len(), "curve.segments", || format!("{} segments were read of {}", c.segments.len(), l.len())) {
            return Ok(());
        }
        for (e, piece) in c.segments.iter().zip(l) {
            let pts = cx.sut("Curve::get_point", || along(e, if e.curve.is::<geom3d::curve::Line>() { 4 } else { 300 }))?;
            if !judge_edge(cx, &pts, piece, eps, "segment") {
                return Ok(());
            }
            cx.seen(match piece {
                Piece::Line(..) => "line segment",
                Piece::Arc(..) => "arc segment",
                Piece::Poly(..) => "polyline segment",
                Piece::Spline(..) => "B-spline segment",
            });
        }
    }
    Ok(())
}

/// a boundary representation under construction, edges are shared
struct Brep {
    s: Step,
    edges: Vec<(Piece, Edge)>,
    faces: Vec<Id>,
    wants: Vec<Want>,
}

impl Brep {
    fn vertex(&mut self, cx: &mut Ctx, p: Point3) -> Id {
        self.s.vertex(&mut cx.rng, p)
    }
    fn edge(&mut self, cx: &mut Ctx, p: Piece, from: Id, to: Id) -> usize {
        let e = sf::write_edge(&mut self.s, &mut cx.rng, &p, from, to);
        self.edges.push((p, e));
        self.edges.len() - 1
    }
    fn bounds(&mut self, cx: &mut Ctx, loops: &[Vec<(usize, bool)>]) -> (Vec<Id>, Vec<Vec<Piece>>) {
        let ids = loops
            .iter()
            .enumerate()
            .map(|(k, l)| {
                let used: Vec<(&Edge, bool)> = l.iter().map(|(e, f)| (&self.edges[*e].1, *f)).collect();
                sf::write_bound(&mut self.s, &mut cx.rng, &used, k == 0)
            })
            .collect();
        let pieces = loops.iter().map(|l| l.iter().map(|(e, f)| if *f { self.edges[*e].0.clone() } else { self.edges[*e].0.reversed() }).collect()).collect();
        (ids, pieces)
    }
    fn flat(&mut self, cx: &mut Ctx, loops: &[Vec<(usize, bool)>], o: Point3, n: Vec3) {
        let (ids, loops) = self.bounds(cx, loops);
        let (plane, same) = sf::write_plane(&mut self.s, &mut cx.rng, o, n);
        self.faces.push(sf::write_face(&mut self.s, &mut cx.rng, &ids, plane, same));
        let area = loops.iter().map(|l| vector_area(&dense(l)).dot(n)).sum::<f64>();
        self.wants.push(Want { name: "plane of a solid".into(), loops, off: Box::new(move |p| (p - o).dot(n).abs()), sided: Some((Box::new(move |_| n), area, 0.0)), meshed: true, size: 1.0, samples: vec![] });
    }
    /// outward: the solid is on the side of the axis
    fn tube(&mut self, cx: &mut Ctx, loops: &[Vec<(usize, bool)>], o: Point3, z: Vec3, r: f64, outward: bool, area: f64) {
        let (ids, loops) = self.bounds(cx, loops);
        let d = cx.rng.range(-30.0, 30.0);
        let (at, axis) = (if cx.rng.chance(0.5) { o } else { o + z * d }, if cx.rng.chance(0.5) { z } else { -z });
        let cyl = sf::write_cylinder(&mut self.s, &mut cx.rng, at, axis, r);
        self.faces.push(sf::write_face(&mut self.s, &mut cx.rng, &ids, cyl, outward));
        let radial = move |p: Point3| {
            let v = p - o;
            v - z * v.dot(z)
        };
        self.wants.push(Want {
            name: "cylinder of a solid".into(),
            loops,
            off: Box::new(move |p| (radial(p).length() - r).abs()),
            sided: Some((Box::new(move |p| radial(p).normalize()), if outward { area } else { -area }, 0.12)),
            meshed: true,
            size: 1.0,
            samples: vec![],
        });
    }
}

/// an outline swept along z, from one plane to another that may be tilted
fn prism(cx: &mut Ctx, b: &mut Brep, f: &Place) -> Option<(f64, f64)> {
    let scale = cx.rng.range(10.0, 30.0);
    let h = scale * if cx.rng.chance(0.8) { cx.rng.range(0.5, 4.0) } else { cx.rng.range(4.0, 60.0) };
    let disc = cx.rng.chance(0.25);
    let tilted = !disc && cx.rng.chance(0.25);
    let g = if disc {
        None
    } else {
        Some(outline(cx, &geo::SHAPES, 0.4)?)
    };
    // loops of flat pieces in the bottom plane
    let up = |p: Point2| f.o + f.x * p.x + f.y * p.y;
    let mut loops: Vec<Vec<Piece>> = vec![];
    let mut whole: Vec<Option<(Point3, f64, bool)>> = vec![];
    if let Some(g) = &g {
        // corners cut off by very narrow faces
        let cut = if cx.rng.chance(0.3) { 10f64.powf(cx.rng.range(-2.7, -1.0)) } else { 0.0 };
        for l in g.loops() {
            let l: Vec<Point2> = l.iter().map(|p| *p * scale).collect();
            let l = if cut > 0.0 { geo::chamfer(&mut cx.rng, &l, cut, 0.3) } else { l };
            let v = (0..l.len())
                .map(|i| {
                    let (p, q) = (l[i], l[(i + 1) % l.len()]);
                    if (q - p).length() < 0.5 {
                        cx.seen("very narrow face");
                        return Piece::Line(up(p), up(q));
                    }
                    if tilted || cx.rng.chance(0.6) {
                        return Piece::Line(up(p), up(q));
                    }
                    let bend = (0.05 * (q - p).length()).min(0.035 * scale);
                    loop {
                        let s = side(cx, p, q, &up, f.z, bend);
                        if matches!(s, Piece::Line(..) | Piece::Arc(..)) {
                            return s;
                        }
                    }
                })
                .collect();
            loops.push(v);
            whole.push(None);
        }
    } else {
        // a disc with round holes
        let r = cx.rng.range(8.0, 20.0);
        let n = cx.rng.below(4);
        let mut c = vec![(Point2::ZERO, r, true)];
        for i in 0..n {
            let w = TAU * i as f64 / n as f64;
            let (d, q) = if n == 1 { (0.3, 0.45) } else { (0.55, 0.3) };
            c.push((Point2::new(w.cos(), w.sin()) * r * d, r * q, false));
        }
        for (c, r, outer) in c {
            let a = cx.rng.range(0.0, TAU);
            let p = Piece::Arc(up(c), f.z, oracle::rotate(f.x, f.z, a), r, 0.0, TAU);
            loops.push(vec![if outer { p } else { p.reversed() }]);
            whole.push(Some((up(c), r, outer)));
        }
    }
    let slope = if tilted { Point2::new(cx.rng.range(-0.2, 0.2), cx.rng.range(-0.2, 0.2)) } else { Point2::ZERO };
    let h = if tilted {
        let low = g.as_ref().unwrap().outer.iter().map(|p| (*p * scale).dot(slope)).fold(f64::MAX, f64::min);
        h - low.min(0.0)
    } else {
        h
    };
    let lift = |p: Point3| p + f.z * (h + (p - f.o).dot(f.x) * slope.x + (p - f.o).dot(f.y) * slope.y);
    let mut free = 0.0;
    let mut bottom: Vec<Vec<(usize, bool)>> = vec![];
    let mut top: Vec<Vec<(usize, bool)>> = vec![];
    for (l, w) in loops.iter().zip(&whole) {
        let n = l.len();
        let v0: Vec<Id> = l.iter().map(|p| b.vertex(cx, p.start())).collect();
        let v1: Vec<Id> = l.iter().map(|p| b.vertex(cx, lift(p.start()))).collect();
        let e0: Vec<usize> = (0..n).map(|i| b.edge(cx, l[i].clone(), v0[i], v0[(i + 1) % n])).collect();
        let e1: Vec<usize> = (0..n)
            .map(|i| {
                let p = match &l[i] {
                    Piece::Line(p, q) => Piece::Line(lift(*p), lift(*q)),
                    Piece::Arc(o, z, x, r, s, t) => Piece::Arc(*o + f.z * h, *z, *x, *r, *s, *t),
                    _ => unreachable!(),
                };
                b.edge(cx, p, v1[i], v1[(i + 1) % n])
            })
            .collect();
        if let Some((c, r, outer)) = w {
            let sides = if cx.rng.chance(0.5) {
                // one loop along a seam
                let seam = b.edge(cx, Piece::Line(l[0].start(), lift(l[0].start())), v0[0], v1[0]);
                cx.seen("seam");
                vec![vec![(e0[0], true), (seam, true), (e1[0], false), (seam, false)]]
            } else {
                vec![vec![(e0[0], true)], vec![(e1[0], false)]]
            };
            b.tube(cx, &sides, *c, f.z, *r, *outer, TAU * r * h);
        } else {
            let ev: Vec<usize> = (0..n).map(|i| b.edge(cx, Piece::Line(l[i].start(), lift(l[i].start())), v0[i], v1[i])).collect();
            for i in 0..n {
                let j = (i + 1) % n;
                let side = vec![vec![(e0[i], true), (ev[j], true), (e1[i], false), (ev[i], false)]];
                match &l[i] {
                    Piece::Line(p, q) => b.flat(cx, &side, *p, (*q - *p).cross(f.z).normalize()),
                    Piece::Arc(o, _, _, r, s, t) => {
                        // triangles may reach across the arc
                        let area = (t - s).abs() * r * h;
                        free += area * (r * (1.0 - ((t - s) / 2.0).cos())).min(0.12 * r);
                        b.tube(cx, &side, *o, f.z, *r, t > s, area)
                    }
                    _ => unreachable!(),
                }
            }
        }
        bottom.push(e0.iter().rev().map(|e| (*e, false)).collect());
        top.push(e1.iter().map(|e| (*e, true)).collect());
    }
    b.flat(cx, &bottom, f.o, -f.z);
    let n = (f.z - f.x * slope.x - f.y * slope.y).normalize();
    b.flat(cx, &top, lift(f.o), n);
    // area and first moments of the cross section
    let (mut area, mut moment) = (0.0, Point2::ZERO);
    for l in &loops {
        let d: Vec<Point2> = dense(l).iter().map(|p| Point2::new((*p - f.o).dot(f.x), (*p - f.o).dot(f.y))).collect();
        for i in 0..d.len() {
            let (p, q) = (d[i], d[(i + 1) % d.len()]);
            let c = p.perp_dot(q) / 2.0;
            area += c;
            moment += (p + q) / 3.0 * c;
        }
    }
    Some((area * h + moment.dot(slope), free))
}

/// a box whose top is a B-spline height field
fn pillow(cx: &mut Ctx, b: &mut Brep, f: &Place) -> Option<(f64, f64)> {
    let (p, q) = (2 + cx.rng.below(2), 2 + cx.rng.below(2));
    let (n, m) = (p + 1 + cx.rng.below(4), q + 1 + cx.rng.below(4));
    let (ku, kv) = (clamped(cx, n, p), clamped(cx, m, q));
    let (u0, wu) = (ku[0], ku[ku.len() - 1] - ku[0]);
    let (v0, wv) = (kv[0], kv[kv.len() - 1] - kv[0]);
    let size = cx.rng.range(10.0, 40.0);
    let (w, d) = (size, size * *cx.rng.pick(&[1.0, 0.6]));
    let h = size * cx.rng.range(0.3, 1.0);
    let step = (w / (n - 1) as f64).min(d / (m - 1) as f64);
    let greville = |k: &[f64], p: usize, i: usize| (k[i + 1..=i + p].iter().sum::<f64>() / p as f64 - k[0]) / (k[k.len() - 1] - k[0]);
    let z: Vec<Vec<f64>> = (0..n).map(|_| (0..m).map(|_| h + cx.rng.range(-0.25, 0.25) * step).collect()).collect();
    let rows: Vec<Vec<Point3>> = (0..n).map(|i| (0..m).map(|j| f.o + f.x * greville(&ku, p, i) * w + f.y * greville(&kv, q, j) * d + f.z * z[i][j]).collect()).collect();
    let col = |j: usize| rows.iter().map(|r| r[j]).collect::<Vec<_>>();
    let c = [f.o, f.o + f.x * w, f.o + f.x * w + f.y * d, f.o + f.y * d];
    let t = [rows[0][0], rows[n - 1][0], rows[n - 1][m - 1], rows[0][m - 1]];
    let vc: Vec<Id> = c.iter().map(|p| b.vertex(cx, *p)).collect();
    let vt: Vec<Id> = t.iter().map(|p| b.vertex(cx, *p)).collect();
    let e0: Vec<usize> = (0..4).map(|i| b.edge(cx, Piece::Line(c[i], c[(i + 1) % 4]), vc[i], vc[(i + 1) % 4])).collect();
    let ev: Vec<usize> = (0..4).map(|i| b.edge(cx, Piece::Line(c[i], t[i]), vc[i], vt[i])).collect();
    let border = [
        Piece::Spline(ku.clone(), p, col(0), u0, u0 + wu),
        Piece::Spline(kv.clone(), q, rows[n - 1].clone(), v0, v0 + wv),
        Piece::Spline(ku.clone(), p, col(m - 1), u0, u0 + wu).reversed(),
        Piece::Spline(kv.clone(), q, rows[0].clone(), v0, v0 + wv).reversed(),
    ];
    let e1: Vec<usize> = (0..4).map(|i| b.edge(cx, border[i].clone(), vt[i], vt[(i + 1) % 4])).collect();
    for i in 0..4 {
        let j = (i + 1) % 4;
        b.flat(cx, &[vec![(e0[i], true), (ev[j], true), (e1[i], false), (ev[i], false)]], c[i], (c[j] - c[i]).cross(f.z).normalize());
    }
    b.flat(cx, &[(0..4).rev().map(|i| (e0[i], false)).collect()], f.o, -f.z);
    let (ids, loops) = b.bounds(cx, &[(0..4).map(|i| (e1[i], true)).collect()]);
    let surface = sf::write_bspline_surface(&mut b.s, &mut cx.rng, &rows, &ku, &kv, p, q);
    b.faces.push(sf::write_face(&mut b.s, &mut cx.rng, &ids, surface, true));
    let (o, x, y, up) = (f.o, f.x, f.y, f.z);
    let (ku2, kv2, rows2) = (ku.clone(), kv.clone(), rows.clone());
    b.wants.push(Want {
        name: "B-spline surface of a solid".into(),
        loops,
        off: Box::new(move |c| {
            let (u, v) = ((c - o).dot(x) / w, (c - o).dot(y) / d);
            let (bu, bv) = (oracle::basis(&ku2, p, oracle::c(u0 + wu * u.max(0.0).min(1.0))), oracle::basis(&kv2, q, oracle::c(v0 + wv * v.max(0.0).min(1.0))));
            (oracle::tensor(&bu, &bv, &|i, j| rows2[i][j]) - c).length()
        }),
        sided: Some((Box::new(move |_| up), w * d, 0.0)),
        meshed: true,
        size: 1.0,
        samples: vec![],
    });
    // the integral of a basis function is its support over the degree plus one
    let mut volume = 0.0;
    for i in 0..n {
        for j in 0..m {
            volume += z[i][j] * (ku[i + p + 1] - ku[i]) / (p + 1) as f64 / wu * (kv[j + q + 1] - kv[j]) / (q + 1) as f64 / wv;
        }
    }
    // how the inside of a height field is meshed is free, not beyond its heights
    let (low, high) = z.iter().flatten().fold((f64::MAX, f64::MIN), |a, z| (a.0.min(*z), a.1.max(*z)));
    Some((volume * w * d, (high - low) * w * d))
}

fn solids(cx: &mut Ctx) -> Case {
    let mut s = Step::new();
    s.decimals = *cx.rng.pick(&[None, None, Some(9), Some(7)]);
    let eps = s.decimals.map_or(0.0, |d| 10f64.powi(-(d as i32)));
    let mut b = Brep { s, edges: vec![], faces: vec![], wants: vec![] };
    let f = place(cx);
    let kind = if cx.rng.chance(0.75) { "prism" } else { "pillow" };
    let (volume, free) = match if kind == "prism" { prism(cx, &mut b, &f) } else { pillow(cx, &mut b, &f) } {
        Some(v) => v,
        None => {
            cx.seen("outline too narrow");
            return Ok(());
        }
    };
    let mut l: Vec<String> = b.faces.iter().map(|f| sf::rf(*f)).collect();
    cx.rng.shuffle(&mut l);
    let t = format!("CLOSED_SHELL({},{})", sf::label(&mut cx.rng), sf::list(&l));
    let shell = b.s.add(t);
    let t = format!("MANIFOLD_SOLID_BREP({},{})", sf::label(&mut cx.rng), sf::rf(shell));
    b.s.add(t);
    cx.input = format!("{} of volume {}: {:?}", kind, volume, b.edges.iter().map(|e| &e.0).collect::<Vec<_>>());
    cx.nontrivial();
    let m = read(cx, &b.s)?;
    judge_faces(cx, &m, &b.wants, eps);
    if !cx.fails.is_empty() {
        return Ok(());
    }
    // the whole skin, as exported
    let centre = b.edges.iter().fold(Vec3::ZERO, |s, e| s + e.0.start()) / b.edges.len() as f64;
    let reach = b.edges.iter().map(|e| (e.0.start() - centre).length()).fold(0.0, f64::max);
    let per: f64 = b.edges.iter().map(|e| length(&e.0.dense(100))).sum();
    for attempt in 0..15 {
        let name = "solid.stl";
        let r = cx.sut("save_as_stl", || m.save_as_stl(name))?;
        let data = std::fs::read(name).unwrap_or_default();
        if !cx.check(r.is_ok() && data.len() >= 84 && (data.len() - 84) % 50 == 0, "solid.stl", || format!("saving gave {:?} and {} bytes", r, data.len())) {
            return Ok(());
        }
        let (mut got, mut skin) = (0.0, Vec3::ZERO);
        for t in data[84..].chunks(50) {
            let num = |k: usize| f32::from_le_bytes([t[k], t[k + 1], t[k + 2], t[k + 3]]) as f64;
            let p: Vec<Vec3> = (0..3).map(|i| Vec3::new(num(12 + i * 12), num(16 + i * 12), num(20 + i * 12)) - centre).collect();
            got += p[0].cross(p[1]).dot(p[2]) / 6.0;
            skin += (p[1] - p[0]).cross(p[2] - p[0]) * 0.5;
        }
        cx.within((got - volume).abs(), per * 0.011 * reach / 2.0 + 0.01 * volume + free, "solid.volume", || format!("{} of volume {} has an exported skin around {}", kind, volume, got));
        cx.within(skin.length(), per * 0.0115 + 1e-3 * reach, "solid.closed", || format!("{}: the vector areas of the skin add up to {:?}", kind, skin));
        cx.seen_n("skin triangles", (data.len() as u64 - 84) / 50);
        if cx.fails.is_empty() || attempt == 14 {
            break;
        }
        cx.fails.clear();
        cx.seen("sampled again");
    }
    cx.seen(kind);
    Ok(())
}
