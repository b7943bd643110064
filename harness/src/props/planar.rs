//! C14 plane geometry helpers, C15 planar faces with one loop, C16 planar faces with holes.
use super::Prop;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::geo::{self, Region};
use crate::oracle;
use geom3d::surface::{EdgeLoop, Plane, Surface, TrimmedSurface};
use geom3d::utils::{self, Point};
use geom3d::{Face, Point2, Point3, TriangleMesh, Vec3};
use std::f64::consts::{PI, TAU};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            quick: 3000000,
            thorough: 10000000,
            rule: "orientation, vertex convexity, point-segment distances in 2D and 3D, point in triangle, nearest point searches in lists and grids, extremes, clamping and even division against direct formulas on simple polygons of 9 shapes and random, aligned and repeated points; non-trivial: non-convex polygon or tie",
            assumptions: &["polygons simple with edges of at least 0.05", "decisions closer than 1e-6 to their threshold are not judged"],
            run: helpers,
        },
        Prop {
            id: "C15",
            quick: 200000,
            thorough: 2000000,
            rule: "planar faces with one counter-clockwise loop: 9 polygon shapes (convex, star, comb, spiral, untangled random, staircase, triangle, rectangle, frame), collinear points, any start vertex, any plane, straight edges in three parametrisations and outlines with arcs (slots, rounded corners, discs); every triangle judged and random points located; non-trivial: non-convex or with arcs",
            assumptions: &["simple loops, edges of at least 0.05, non-adjacent edges at least 0.03 apart", "orthonormal plane frame"],
            run: single,
        },
        Prop {
            id: "C16",
            quick: 200000,
            thorough: 2000000,
            rule: "planar faces with 1..8 clockwise holes (polygons, L shapes, aligned rows, discs) in the same outlines, bounds listed in any order; every triangle judged and random points located; non-trivial: at least one hole placed",
            assumptions: &["simple disjoint loops, edges of at least 0.04, gaps of at least 0.05", "orthonormal plane frame"],
            run: holes,
        },
    ]
}

fn helpers(cx: &mut Ctx) -> Case {
    let shape = *cx.rng.pick(&geo::SHAPES);
    if let Some(mut v) = geo::polygon(&mut cx.rng, shape) {
        geo::place(&mut cx.rng, &mut v);
        if cx.rng.chance(0.5) {
            v.reverse();
        }
        cx.input = format!("{} {:?}", shape, v);
        let a = geo::area(&v);
        let ccw = cx.sut("is_polygon_counter_clockwise", || utils::is_polygon_counter_clockwise(&v))?;
        cx.check(ccw == (a > 0.0), "polygon.orientation", || format!("signed area {} but counter-clockwise is {}", a, ccw));
        let (idx, concave) = cx.sut("compute_vertex_convexity", || utils::compute_vertex_convexity(&v))?;
        let n = v.len();
        for i in 0..n {
            let (p, q, r) = (v[(i + n - 1) % n], v[i], v[(i + 1) % n]);
            let cross = (q - p).perp_dot(r - q);
            if cross.abs() > 1e-6 {
                cx.check(idx.contains(&i), "polygon.kept", || format!("corner {} was dropped", i));
                cx.check(concave.contains(&i) == (cross < 0.0), "polygon.convexity", || format!("corner {} turns by {} but concave is {}", i, cross, concave.contains(&i)));
                if cross < 0.0 {
                    cx.nontrivial();
                }
            } else if cross == 0.0 {
                cx.check(!idx.contains(&i), "polygon.collinear", || format!("collinear corner {} was kept", i));
            }
        }
        cx.check(idx.iter().zip(idx.iter().skip(1)).all(|(a, b)| a < b) && concave.windows(2).all(|w| w[0] < w[1]), "polygon.order", || "corner lists out of order".into());
        cx.seen("polygons");
    }
    // distances
    let c = gen::coords(&mut cx.rng);
    for _ in 0..4 {
        let (a, b, p) = (gen::point2(&mut cx.rng, c), gen::point2(&mut cx.rng, c), gen::point2(&mut cx.rng, c));
        let tol = 1e-9 * (a.length() + b.length() + p.length() + 1.0);
        let d = cx.sut("Point2::distance_to_line_segment", || p.distance_to_line_segment(a, b))?;
        cx.within((d - geo::seg_dist(a, b, p)).abs(), tol, "distance.2d", || format!("{:?} to {:?}-{:?}: {}", p, a, b, d));
        let (a3, b3, p3) = (gen::point3(&mut cx.rng, c), gen::point3(&mut cx.rng, c), gen::point3(&mut cx.rng, c));
        let d = cx.sut("distance_to_line_segment", || utils::distance_to_line_segment(a3, b3, p3))?;
        cx.within((d - oracle::seg_distance(a3, b3, p3)).abs(), 1e-8 * (a3.length() + b3.length() + p3.length() + 1.0), "distance.3d", || format!("{:?} to {:?}-{:?}: {}", p3, a3, b3, d));
        // triangles, counter-clockwise
        let q = gen::point2(&mut cx.rng, c);
        let (t0, t1, t2) = if (b - a).perp_dot(p - a) > 0.0 { (a, b, p) } else { (a, p, b) };
        let crosses = [(t1 - t0).perp_dot(q - t0), (t2 - t1).perp_dot(q - t1), (t0 - t2).perp_dot(q - t2)];
        let least = crosses.iter().cloned().fold(f64::MAX, f64::min);
        if (t1 - t0).perp_dot(t2 - t0) > 1e-3 && crosses.iter().all(|c| c.abs() > 1e-6) {
            let r = cx.sut("is_inside_triangle", || q.is_inside_triangle(t0, t1, t2))?;
            cx.check(r == (least > 0.0), "triangle.inside", || format!("{:?} inside {:?} {:?} {:?}: {}", q, t0, t1, t2, r));
        }
        let on = t0 + (t1 - t0) * 0.5;
        if c == gen::Coords::Ints && (t1 - t0).perp_dot(t2 - t0) > 1e-3 {
            let r = cx.sut("is_inside_triangle", || on.is_inside_triangle(t0, t1, t2) && t2.is_inside_triangle(t0, t1, t2))?;
            cx.check(r, "triangle.edge", || format!("edge or corner of {:?} {:?} {:?} not inside", t0, t1, t2));
        }
    }
    // searches
    let n = 1 + cx.rng.below(30);
    let pts = gen::points3(&mut cx.rng, c, n);
    let q = gen::point3(&mut cx.rng, c);
    let i = cx.sut("find_nearest_point", || utils::find_nearest_point(&pts, q))?;
    let best = pts.iter().map(|p| (*p - q).length()).fold(f64::MAX, f64::min);
    cx.check(i < n && (pts[i] - q).length() <= best + 1e-9, "search.list", || format!("index {} is not nearest to {:?} in {:?}", i, q, pts));
    let (rows, cols) = (1 + cx.rng.below(6), 1 + cx.rng.below(6));
    let grid = gen::grid_of(rows, cols, |_, _| gen::point3(&mut cx.rng, c));
    let (i, j) = cx.sut("find_nearest_point_in_grid", || utils::find_nearest_point_in_grid(&grid, q))?;
    let best = gen::grid_rows(&grid).into_iter().flatten().map(|p| (p - q).length()).fold(f64::MAX, f64::min);
    cx.check(i < rows && j < cols && (grid[i][j] - q).length() <= best + 1e-9, "search.grid", || format!("grid point ({}, {}) is not nearest", i, j));
    let (lo, hi) = cx.sut("get_min_max_by_key", || utils::get_min_max_by_key(&pts, |p| p.y))?;
    let (wl, wh) = pts.iter().fold((f64::MAX, f64::MIN), |(a, b), p| (a.min(p.y), b.max(p.y)));
    cx.check(lo == wl && hi == wh, "search.extremes", || format!("extremes {} {} of {:?}", lo, hi, pts));
    // ranges
    let (a, b) = (gen::coord(&mut cx.rng, c), gen::coord(&mut cx.rng, c));
    let x = gen::coord(&mut cx.rng, c) * 1.5;
    let k = cx.sut("clamp_in_range", || utils::clamp_in_range(x, (a, b)))?;
    cx.check(k == x.max(a.min(b)).min(a.max(b)), "range.clamp", || format!("{} clamped to {:?} is {}", x, (a, b), k));
    let f = cx.rng.unit();
    let k = cx.sut("range_at", || utils::range_at((a, b), f))?;
    cx.within((k - (a * (1.0 - f) + b * f)).abs(), 1e-9 * (a.abs() + b.abs() + 1.0), "range.at", || format!("{} of {:?} is {}", f, (a, b), k));
    let div = 1 + cx.rng.below(60);
    let us = cx.sut("uniform_divide", || utils::uniform_divide((a, b), div))?;
    let ok = us.len() == div + 1 && us[0] == a && us[div] == b && us.iter().enumerate().all(|(i, u)| (u - (a + (b - a) * i as f64 / div as f64)).abs() <= 1e-9 * (a.abs() + b.abs() + 1.0));
    cx.check(ok, "range.divide", || format!("{:?} divided by {}: {:?}", (a, b), div, us));
    let s = cx.rng.range(-3.0, 3.0);
    let scaled = cx.sut("scale_points", || geom3d::points::scale_points(&pts, s))?;
    cx.check(scaled.len() == n && scaled.iter().zip(&pts).all(|(a, b)| (*a - *b * s).length() <= 1e-12 * (1.0 + b.length())), "points.scale", || "scaled points differ".into());
    Ok(())
}

pub struct Frame {
    pub o: Point3,
    pub x: Vec3,
    pub y: Vec3,
    pub z: Vec3,
}
impl Frame {
    pub fn new(cx: &mut Ctx) -> Frame {
        let plain = cx.rng.chance(0.3);
        let (x, y, z) = if plain { (Vec3::X, Vec3::Y, Vec3::Z) } else { gen::frame(&mut cx.rng) };
        let o = if cx.rng.chance(if plain { 0.7 } else { 0.3 }) { Point3::ZERO } else { gen::point3(&mut cx.rng, gen::Coords::Tens) };
        Frame { o, x, y, z }
    }
    pub fn up(&self, p: Point2) -> Point3 {
        self.o + self.x * p.x + self.y * p.y
    }
    pub fn down(&self, p: Point3) -> (Point2, f64) {
        let v = p - self.o;
        (Point2::new(v.dot(self.x), v.dot(self.y)), v.dot(self.z))
    }
    pub fn plane(&self) -> Plane {
        Plane { origin: self.o, normal: self.z, u_axis: self.x, v_axis: self.y }
    }
}

/// vertices in the plane, boundary corners present, then the cover
pub fn judge_planar(cx: &mut Ctx, f: &Frame, mesh: &TriangleMesh, g: &Region, slack: f64) {
    let mut v2 = Vec::with_capacity(mesh.vertices.len());
    let scale = 1.0 + f.o.length() + g.outer.iter().map(|p| p.length()).fold(0.0, f64::max);
    for p in &mesh.vertices {
        let (q, h) = f.down(*p);
        cx.within(h.abs(), 1e-9 * scale, "face.plane", || format!("vertex {:?} is off the plane by {}", p, h));
        v2.push(q);
        if cx.fails.len() > 2 {
            return;
        }
    }
    cx.check(mesh.normals.is_empty() || mesh.normals.len() == mesh.vertices.len(), "face.normals", || format!("{} normals for {} vertices", mesh.normals.len(), mesh.vertices.len()));
    if slack == 0.0 {
        // every corner of the outline is used by a triangle
        let used: std::collections::HashSet<u32> = mesh.triangles.iter().cloned().collect();
        for l in g.loops() {
            let n = l.len();
            for i in 0..n {
                let cross = (l[i] - l[(i + n - 1) % n]).perp_dot(l[(i + 1) % n] - l[i]);
                if cross.abs() < 1e-6 {
                    continue;
                }
                let hit = v2.iter().enumerate().any(|(k, q)| (*q - l[i]).length() < 1e-7 * scale && used.contains(&(k as u32)));
                cx.check(hit, "face.corner", || format!("corner {:?} of the outline is no vertex of any triangle", l[i]));
                if cx.fails.len() > 2 {
                    return;
                }
            }
        }
    }
    geo::judge_cover(cx, "face", &v2, &mesh.triangles, g, slack);
}

fn mesh_of(cx: &mut Ctx, f: &Frame, bounds: Vec<EdgeLoop>) -> Result<TriangleMesh, crate::ctx::Stop> {
    if cx.rng.chance(0.5) {
        let face = TrimmedSurface { surface: f.plane(), bounds };
        cx.sut("planar face mesh", || face.get_triangle_mesh())
    } else {
        let face = TrimmedSurface { surface: Box::new(f.plane()) as Box<dyn Surface>, bounds };
        cx.sut("planar face mesh", || face.get_triangle_mesh())
    }
}

/// outlines with arcs: (edges, dense polygon, arc tolerance)
fn curved(cx: &mut Ctx, f: &Frame, hole: bool, at: Point2, size: f64) -> (EdgeLoop, Vec<Point2>, f64, String) {
    let tol = *cx.rng.pick(&[0.01, 0.01, 0.05]);
    let kind = cx.rng.below(3);
    let (edges, dense, name) = match kind {
        0 => {
            // disc in 1..4 arcs
            let k = 1 + cx.rng.below(4);
            let a0 = cx.rng.range(0.0, TAU);
            let s = if hole { -1.0 } else { 1.0 };
            let edges = (0..k)
                .map(|i| {
                    let a = a0 + s * TAU * i as f64 / k as f64;
                    geo::circle_edge(f.up(at), f.z, f.x, size, (a, a + s * TAU / k as f64), tol)
                })
                .collect();
            let dense = (0..1440).map(|i| at + Point2::new((a0 + s * TAU * i as f64 / 1440.0).cos(), (a0 + s * TAU * i as f64 / 1440.0).sin()) * size).collect();
            (edges, dense, format!("disc in {} arcs", k))
        }
        1 => {
            // slot: two straight sides and two half circles
            let l = size * 1.5;
            let r = size * 0.5;
            let (a, b) = (at - Point2::new(l, 0.0) * 0.5, at + Point2::new(l, 0.0) * 0.5);
            let mut dense = Vec::new();
            for i in 0..=360 {
                let t = -PI / 2.0 + PI * i as f64 / 360.0;
                dense.push(b + Point2::new(t.cos(), t.sin()) * r);
            }
            for i in 0..=360 {
                let t = PI / 2.0 + PI * i as f64 / 360.0;
                dense.push(a + Point2::new(t.cos(), t.sin()) * r);
            }
            let d = Point2::new(0.0, r);
            let line = |p: Point2, q: Point2| geo::line_edges(&mut crate::rng::Rng::new(3), &[f.up(p), f.up(q)]).edges.remove(0);
            let mut edges = vec![
                geo::circle_edge(f.up(b), f.z, f.x, r, (-PI / 2.0, PI / 2.0), tol),
                line(b + d, a + d),
                geo::circle_edge(f.up(a), f.z, f.x, r, (PI / 2.0, PI * 1.5), tol),
                line(a - d, b - d),
            ];
            if hole {
                dense.reverse();
                edges = vec![
                    line(b - d, a - d),
                    geo::circle_edge(f.up(a), f.z, f.x, r, (PI * 1.5, PI / 2.0), tol),
                    line(a + d, b + d),
                    geo::circle_edge(f.up(b), f.z, f.x, r, (PI / 2.0, -PI / 2.0), tol),
                ];
            }
            (edges, dense, "slot".to_string())
        }
        _ => {
            // square with one corner scooped out by an arc (concave arc), counter-clockwise
            let s = size;
            let r = s * cx.rng.range(0.3, 0.9);
            let c = at + Point2::new(s, s);
            let p = [at + Point2::new(-s, -s), at + Point2::new(s, -s), at + Point2::new(s, s - r), at + Point2::new(s - r, s), at + Point2::new(-s, s)];
            let line = |p: Point2, q: Point2| geo::line_edges(&mut crate::rng::Rng::new(4), &[f.up(p), f.up(q)]).edges.remove(0);
            let arc: Vec<Point2> = (0..=360)
                .map(|i| {
                    // from (s, s-r) at 270 degrees back to (s-r, s) at 180 degrees
                    let t = PI * 1.5 - PI / 2.0 * i as f64 / 360.0;
                    c + Point2::new(t.cos(), t.sin()) * r
                })
                .collect();
            let mut dense = vec![p[0], p[1]];
            dense.extend(arc);
            dense.push(p[4]);
            let mut edges = vec![line(p[0], p[1]), line(p[1], p[2]), geo::circle_edge(f.up(c), f.z, f.x, r, (PI * 1.5, PI), tol), line(p[3], p[4]), line(p[4], p[0])];
            if hole {
                dense.reverse();
                edges = vec![line(p[0], p[4]), line(p[4], p[3]), geo::circle_edge(f.up(c), f.z, f.x, r, (PI, PI * 1.5), tol), line(p[2], p[1]), line(p[1], p[0])];
            }
            (edges, dense, "scooped square".to_string())
        }
    };
    (EdgeLoop { edges }, dense, tol, name)
}

fn single(cx: &mut Ctx) -> Case {
    let f = Frame::new(cx);
    if cx.rng.chance(0.25) {
        let size = cx.rng.range(0.6, 6.0);
        let at = Point2::new(cx.rng.range(-20.0, 20.0), cx.rng.range(-20.0, 20.0));
        let (bound, dense, tol, name) = curved(cx, &f, false, at, size);
        cx.input = format!("{} size {} at {:?} tolerance {} frame {:?} {:?} {:?}", name, size, at, tol, f.o, f.x, f.y);
        cx.nontrivial();
        cx.seen(&name);
        let poly = cx.sut("EdgeLoop::to_polygon", || bound.to_polygon())?;
        judge_outline(cx, &f, &poly, &dense, tol);
        if !cx.fails.is_empty() {
            return Ok(());
        }
        let mesh = mesh_of(cx, &f, vec![bound])?;
        judge_planar(cx, &f, &mesh, &Region { outer: dense, holes: vec![] }, tol * 1.1);
        return Ok(());
    }
    let shape = *cx.rng.pick(&geo::SHAPES);
    let mut v = match geo::polygon(&mut cx.rng, shape) {
        Some(v) => v,
        None => return Ok(()),
    };
    geo::place(&mut cx.rng, &mut v);
    if cx.rng.chance(0.4) {
        let mut g = Region { outer: v, holes: vec![] };
        let n = geo::align(&mut cx.rng, &mut g, 0.05);
        v = g.outer;
        cx.seen_n("edges pointing at another corner", n as u64);
    }
    if cx.rng.chance(0.4) {
        let d = 10f64.powf(cx.rng.range(-2.8, -1.3));
        v = geo::chamfer(&mut cx.rng, &v, d, 0.4);
        cx.seen("small corner cuts");
    }
    cx.input = format!("{} {:?} frame {:?} {:?} {:?}", shape, v, f.o, f.x, f.y);
    cx.seen(shape);
    if shape != "convex" && shape != "triangle" && shape != "rectangle" {
        cx.nontrivial();
    }
    let p3: Vec<Point3> = v.iter().map(|p| f.up(*p)).collect();
    let bound = geo::line_edges(&mut cx.rng, &p3);
    let poly = cx.sut("EdgeLoop::to_polygon", || bound.to_polygon())?;
    let same = poly.len() == p3.len() && poly.iter().zip(&p3).all(|(a, b)| (*a - *b).length() < 1e-6);
    cx.check(same, "outline.polygon", || format!("straight loop of {} corners became {:?}", p3.len(), poly));
    if !cx.fails.is_empty() {
        return Ok(());
    }
    let mesh = mesh_of(cx, &f, vec![bound])?;
    judge_planar(cx, &f, &mesh, &Region { outer: v, holes: vec![] }, 0.0);
    Ok(())
}

/// the polygon follows the true outline within the tolerance, in order, once around
fn judge_outline(cx: &mut Ctx, f: &Frame, poly: &[Point3], dense: &[Point2], tol: f64) {
    let p: Vec<Point2> = poly.iter().map(|p| f.down(*p).0).collect();
    cx.check(p.len() >= 3, "outline.count", || format!("outline of {} points", p.len()));
    for w in 0..p.len() {
        let d = geo::boundary_dist(dense, p[w]);
        cx.check(d < 1e-3, "outline.point", || format!("point {:?} is {} off the outline", p[w], d));
    }
    for i in 0..p.len() {
        cx.check((p[i] - p[(i + 1) % p.len()]).length() > 1e-5, "outline.repeat", || format!("repeated point {:?}", p[i]));
    }
    let (a, b) = (geo::area(&p), geo::area(dense));
    let per: f64 = (0..dense.len()).map(|i| (dense[(i + 1) % dense.len()] - dense[i]).length()).sum();
    cx.within((a - b).abs(), 1.1 * tol * per + 1e-3, "outline.area", || format!("outline encloses {}, true {}", a, b));
}

/// the outline with a hole joined to it along a free straight line
fn bridge(r: &mut crate::rng::Rng, ring: &[Point2], holes: &[Vec<Point2>], k: usize, g: &Region) -> Option<Vec<Point2>> {
    let h = &holes[k];
    for _ in 0..10 {
        let (i, j) = (r.below(ring.len()), r.below(h.len()));
        let (p, q) = (ring[i], h[j]);
        // once only at a vertex, and off everything else
        if ring.iter().filter(|c| (**c - p).length() < 1e-9).count() > 1 || (q - p).length() < 0.2 {
            continue;
        }
        let clear = |l: &[Point2]| {
            (0..l.len()).all(|e| {
                let (a, b) = (l[e], l[(e + 1) % l.len()]);
                let touches = |v: Point2| (v - p).length() < 1e-9 || (v - q).length() < 1e-9;
                // the part of the line that may come near
                let (s, t) = if touches(a) || touches(b) { (0.2, 0.8) } else { (0.0, 1.0) };
                (0..=60).all(|n| {
                    let c = p + (q - p) * (s + (t - s) * n as f64 / 60.0);
                    geo::seg_dist(a, b, c) > 0.03
                })
            })
        };
        if !clear(ring) || !holes.iter().all(|l| clear(l)) || !g.contains((p + q) * 0.5) {
            continue;
        }
        let mut out = ring[..=i].to_vec();
        out.extend(&h[j..]);
        out.extend(&h[..=j]);
        out.extend(&ring[i..]);
        return Some(out);
    }
    None
}

fn holes(cx: &mut Ctx) -> Case {
    let f = Frame::new(cx);
    let shape = *cx.rng.pick(&["convex", "star", "rectangle", "staircase", "frame", "tangled", "rectangle", "comb", "spiral"]);
    let mut v = match geo::polygon(&mut cx.rng, shape) {
        Some(v) => v,
        None => return Ok(()),
    };
    let k = cx.rng.range(1.0, 3.0);
    v.iter_mut().for_each(|p| *p *= k);
    geo::place(&mut cx.rng, &mut v);
    let many = cx.rng.chance(0.3);
    let want = 1 + cx.rng.below(if many { 8 } else { 3 });
    let mut g = geo::punch(&mut cx.rng, v, want, 0.05);
    if !g.holes.is_empty() && cx.rng.chance(0.4) {
        let n = geo::align(&mut cx.rng, &mut g, 0.05);
        cx.seen_n("edges pointing at another corner", n as u64);
    }
    if cx.rng.chance(0.4) {
        let d = 10f64.powf(cx.rng.range(-2.8, -1.5));
        g.outer = geo::chamfer(&mut cx.rng, &g.outer, d, 0.4);
        for h in g.holes.iter_mut() {
            *h = geo::chamfer(&mut cx.rng, h, d, 0.4);
        }
        cx.seen("small corner cuts");
    }
    // some holes become discs or slots with arcs
    let mut slack = 0.0f64;
    let mut bounds = Vec::new();
    let mut arcs = 0;
    for h in g.holes.iter_mut() {
        let round = cx.rng.chance(0.25);
        if round {
            let c = h.iter().fold(Point2::ZERO, |a, b| a + *b) / h.len() as f64;
            let room = geo::boundary_dist(h, c) * 0.6;
            if room > 0.2 && geo::inside(h, c) {
                let (b, dense, tol, _) = curved(cx, &f, true, c, room / 1.5);
                bounds.push(b);
                *h = dense;
                slack = slack.max(tol * 1.1);
                arcs += 1;
                continue;
            }
        }
        let p3: Vec<Point3> = h.iter().map(|p| f.up(*p)).collect();
        bounds.push(geo::line_edges(&mut cx.rng, &p3));
    }
    let mut ring = g.outer.clone();
    if arcs == 0 && cx.rng.chance(0.25) {
        // some holes are cut in from the border along an edge used both ways
        for k in (0..g.holes.len()).rev() {
            if let Some(r) = bridge(&mut cx.rng, &ring, &g.holes, k, &g) {
                ring = r;
                bounds.remove(k);
                cx.seen("hole joined to the border");
            }
        }
    }
    let p3: Vec<Point3> = ring.iter().map(|p| f.up(*p)).collect();
    let outer = geo::line_edges(&mut cx.rng, &p3);
    let at = cx.rng.below(bounds.len() + 1);
    bounds.insert(at, outer);
    let show: Vec<Vec<Point2>> = g.holes.iter().map(|h| if h.len() > 100 { vec![h[0], h[h.len() / 2]] } else { h.clone() }).collect();
    cx.input = format!("{} outer {:?} holes {:?} outer listed at {} frame {:?} {:?} {:?}", shape, g.outer, show, at, f.o, f.x, f.y);
    if g.holes.is_empty() {
        return Ok(());
    }
    cx.nontrivial();
    cx.seen(shape);
    cx.seen(&format!("{} holes", g.holes.len()));
    cx.seen_n("holes with arcs", arcs);
    let mesh = mesh_of(cx, &f, bounds)?;
    judge_planar(cx, &f, &mesh, &g, slack);
    Ok(())
}
