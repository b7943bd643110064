//! C19 trimmed B-spline surfaces.
use super::Prop;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::geo::{self, Region};
use crate::oracle;
use geom3d::curve::{Curve, CurveSegment, Line};
use geom3d::surface::{BSplineSurface, EdgeLoop, Surface, TrimmedSurface};
use geom3d::{Face, Point2, Point3};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        quick: 40000,
        thorough: 200000,
        rule: "faces cut out of B-spline height fields (degrees 1..3, 4..7 control points each way, even and uneven knots) placed anywhere in space: the whole domain and polygons of 8 shapes with 0..3 holes, both loop directions; every vertex, triangle and edge judged, random points located, working directory watched; non-trivial: curved surface and inner vertices",
        assumptions: &["boundary chords of at most 1/8 of the domain", "loops simple and disjoint, gaps of at least 1/80 of the domain", "slopes of at most about 0.6, surfaces of first degree flat"],
        run: trimmed,
    }]
}

fn trimmed(cx: &mut Ctx) -> Case {
    let (p, q) = if cx.rng.chance(0.8) { (2 + cx.rng.below(2), 2 + cx.rng.below(2)) } else { (1 + cx.rng.below(3), 1 + cx.rng.below(3)) };
    let (n, m) = (p + 1 + cx.rng.below(4), q + 1 + cx.rng.below(4));
    let knots = |cx: &mut Ctx, n: usize, p: usize, len: f64| {
        let mut k: Vec<f64> = vec![0.0; p + 1];
        let spans = n - p;
        let uneven = cx.rng.chance(0.5);
        let mut cuts: Vec<f64> = (1..spans).map(|i| i as f64 + if uneven { cx.rng.range(-0.3, 0.3) } else { 0.0 }).collect();
        k.append(&mut cuts);
        k.extend(vec![spans as f64; p + 1]);
        k.iter().map(|x| x * len / spans as f64).collect::<Vec<f64>>()
    };
    // width of the domain
    let (wu, wv) = (*cx.rng.pick(&[1.0, 4.0, 10.0]), *cx.rng.pick(&[1.0, 4.0, 10.0]));
    let (ku, kv) = (knots(cx, n, p, wu), knots(cx, m, q, wv));
    let (sx, sy) = (*cx.rng.pick(&[1.0, 2.0, 0.5]), *cx.rng.pick(&[1.0, 2.0, 0.5]));
    let greville = |k: &[f64], p: usize, i: usize| k[i + 1..=i + p].iter().sum::<f64>() / p as f64;
    let flat = p < 2 || q < 2 || cx.rng.chance(0.15);
    let step = (wu * sx / (n - 1) as f64).min(wv * sy / (m - 1) as f64);
    let local = gen::grid_of(n, m, |i, j| Point3::new(greville(&ku, p, i) * sx, greville(&kv, q, j) * sy, if flat { 0.0 } else { cx.rng.range(-0.25, 0.25) * step }));
    let (x, y, z) = if cx.rng.chance(0.3) { (Point3::X, Point3::Y, Point3::Z) } else { gen::frame(&mut cx.rng) };
    let o = if cx.rng.chance(0.3) { Point3::ZERO } else { gen::point3(&mut cx.rng, gen::Coords::Tens) };
    let control = gen::grid_of(n, m, |i, j| o + x * local[i][j].x + y * local[i][j].y + z * local[i][j].z);
    let at = |u: f64, v: f64| {
        let (bu, bv) = (oracle::basis(&ku, p, oracle::c(u.max(0.0).min(wu))), oracle::basis(&kv, q, oracle::c(v.max(0.0).min(wv))));
        oracle::tensor(&bu, &bv, &|i, j| control[i][j])
    };
    // outline in unit square coordinates
    let whole = cx.rng.chance(0.25);
    let mut g = if whole {
        let mut g = Region { outer: vec![Point2::new(0.0, 0.0), Point2::new(10.0, 0.0), Point2::new(10.0, 10.0), Point2::new(0.0, 10.0)], holes: vec![] };
        if cx.rng.chance(0.3) {
            let want = 1 + cx.rng.below(3);
            g = geo::punch(&mut cx.rng, g.outer, want, 0.5);
        }
        g
    } else {
        let shape = *cx.rng.pick(&["rectangle", "staircase", "frame", "comb", "star", "convex", "tangled", "triangle"]);
        let v = match geo::polygon(&mut cx.rng, shape) {
            Some(v) => v,
            None => return Ok(()),
        };
        let want = if cx.rng.chance(0.3) { 1 + cx.rng.below(3) } else { 0 };
        let g = if want > 0 { geo::punch(&mut cx.rng, v, want, 0.3) } else { Region { outer: v, holes: vec![] } };
        cx.seen(&format!("outline {} with {} holes", shape, g.holes.len()));
        g
    };
    let (lo, hi) = g.bounds();
    let k = (hi - lo).x.max((hi - lo).y);
    let pad = if whole { 0.0 } else { *cx.rng.pick(&[0.0, 0.05]) };
    for l in std::iter::once(&mut g.outer).chain(g.holes.iter_mut()) {
        for c in l.iter_mut() {
            *c = (*c - lo) / k * (1.0 - 2.0 * pad) + Point2::new(pad, pad);
        }
    }
    if !geo::is_clean(&g.outer, 0.02, 0.0125) || g.holes.iter().any(|h| !geo::is_clean(h, 0.012, 0.008)) || g.loops().iter().any(|l| !geo::opens(l, 0.93)) {
        cx.seen("outline too narrow");
        return Ok(());
    }
    let backwards = cx.rng.chance(0.5);
    cx.input = format!("degree ({}, {}) knots {:?} {:?} stretch {} {} outline {:?} backwards {} control {:?}", p, q, ku, kv, sx, sy, g, backwards, control);
    // fine chains of chords in the surface
    let fine = 8 + cx.rng.below(8);
    let sampled: Vec<Vec<Point2>> = g
        .loops()
        .iter()
        .map(|l| {
            let mut out = Vec::new();
            for i in 0..l.len() {
                let (a, b) = (l[i], l[(i + 1) % l.len()]);
                let n = ((b - a).length() * fine as f64).ceil() as usize;
                out.extend((0..n).map(|k| a + (b - a) * (k as f64 / n as f64)));
            }
            out.iter().map(|c| Point2::new(c.x * wu, c.y * wv)).collect()
        })
        .collect();
    let build = |backwards: bool| -> Vec<EdgeLoop> {
        sampled
            .iter()
            .map(|l| {
                let mut l = l.clone();
                if backwards {
                    l.reverse();
                }
                let pts: Vec<Point3> = l.iter().map(|c| at(c.x, c.y)).collect();
                let edges = (0..pts.len())
                    .map(|i| {
                        let (a, b) = (pts[i], pts[(i + 1) % pts.len()]);
                        CurveSegment { curve: Box::new(Line { origin: a, direction: b - a }) as Box<dyn Curve>, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 }
                    })
                    .collect();
                EdgeLoop { edges }
            })
            .collect()
    };
    let surface = || BSplineSurface::new(control.clone(), (gen::knot_vector(&ku), gen::knot_vector(&kv)), (p, q));
    let listing = || {
        let mut v: Vec<_> = std::fs::read_dir(".").map(|d| d.filter_map(|e| e.ok().map(|e| e.file_name())).collect()).unwrap_or_default();
        v.sort();
        v
    };
    let before = listing();
    let mesh = if cx.rng.chance(0.5) {
        let face = TrimmedSurface { surface: surface(), bounds: build(backwards) };
        cx.sut("B-spline face mesh", || face.get_triangle_mesh())?
    } else {
        let face = TrimmedSurface { surface: Box::new(surface()) as Box<dyn Surface>, bounds: build(backwards) };
        cx.sut("B-spline face mesh", || face.get_triangle_mesh())?
    };
    let after = listing();
    if !cx.check(before == after, "bspline.files", || format!("meshing left files behind: {:?}", after)) {
        for f in after.iter().filter(|f| !before.contains(f)) {
            let _ = std::fs::remove_file(f);
        }
    }
    let border = match super::cylface::border(cx, "bspline", &mesh) {
        Some(b) => b,
        None => return Ok(()),
    };
    if border.len() < mesh.vertices.len() && !flat {
        cx.nontrivial();
    }
    let scale = 1.0 + o.length() + wu * sx + wv * sy;
    let uv: Vec<Point2> = mesh.vertices.iter().map(|v| Point2::new((*v - o).dot(x) / sx, (*v - o).dot(y) / sy)).collect();
    for (c, v) in uv.iter().zip(&mesh.vertices) {
        let d = (at(c.x, c.y) - *v).length();
        cx.within(d, 1e-9 * scale, "bspline.surface", || format!("vertex {:?} is {} off the surface", v, d));
        if cx.fails.len() > 2 {
            return Ok(());
        }
    }
    // every border edge is an edge of the loops and the other way round
    let total: usize = sampled.iter().map(|l| l.len()).sum();
    cx.check(border.len() == total, "bspline.border", || format!("{} border edges, the loops have {}", border.len(), total));
    let eps = 1e-8 * scale;
    for e in &border {
        let (a, b) = (uv[e.0 as usize], uv[e.1 as usize]);
        let ok = sampled.iter().any(|l| {
            (0..l.len()).any(|i| {
                let (p, q) = (l[i], l[(i + 1) % l.len()]);
                ((p - a).length() < eps && (q - b).length() < eps) || ((p - b).length() < eps && (q - a).length() < eps)
            })
        });
        if !cx.check(ok, "bspline.border", || format!("border edge {:?}-{:?} is no edge of the loops", a, b)) {
            break;
        }
    }
    // cover of the domain, in square coordinates
    let sq = |c: &Point2| Point2::new(c.x / wu, c.y / wv);
    let flat2: Vec<Point2> = uv.iter().map(sq).collect();
    let signed = |uv: &[Point2], t: &[u32]| t.chunks(3).map(|c| geo::area(&[uv[c[0] as usize], uv[c[1] as usize], uv[c[2] as usize]])).sum::<f64>();
    let mut tris = mesh.triangles.clone();
    let sum = signed(&flat2, &tris);
    cx.check((sum > 0.0) != backwards, "bspline.winding", || format!("the triangles cover {}, loops backwards {}", sum, backwards));
    if sum < 0.0 {
        tris.chunks_mut(3).for_each(|c| c.swap(0, 1));
    }
    geo::judge_shaken_cover(cx, "bspline", &flat2, &tris, &g, 1e-3, 1.5e-3);
    let face = TrimmedSurface { surface: surface(), bounds: build(!backwards) };
    let other = cx.sut("B-spline face mesh", || face.get_triangle_mesh())?;
    if other.triangles.iter().all(|i| (*i as usize) < other.vertices.len()) {
        let uv: Vec<Point2> = other.vertices.iter().map(|v| Point2::new((*v - o).dot(x), (*v - o).dot(y))).collect();
        let sum2 = signed(&uv, &other.triangles);
        cx.check(sum * sum2 < 0.0, "bspline.turned", || format!("loops reversed but triangles cover {} and {}", sum, sum2));
    }
    Ok(())
}
