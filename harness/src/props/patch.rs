//! C12 patch meshes, C13 normals.
use super::surfaces::{sheet, Sheet};
use super::Prop;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::oracle;
use geom3d::surface::*;
use geom3d::{utils, Face, Point2, Point3, TriangleMesh};
use std::collections::HashMap;
use std::f64::consts::{PI, TAU};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            quick: 40000,
            thorough: 200000,
            rule: "surface patches of every surface kind (bare and boxed), divisions 1..24 unequal in u and v, some with more than 65535 vertices, parameter ranges ascending and descending; vertices against the surface, topology by edge matching; winding reversal; non-trivial: u and v divisions differ",
            assumptions: &["divisions of at least 1 per direction"],
            run: mesh,
        },
        Prop {
            id: "C13",
            quick: 250000,
            thorough: 1500000,
            rule: "B-spline patches of up to 48000 vertices, regular and with one or two collapsed boundary rows or columns (poles), bare and boxed; a pole's normals must be among those of the next line; normals of arbitrary parameters; non-trivial: bent surface",
            assumptions: &["normals judged where the partial derivatives are not nearly parallel"],
            run: normals,
        },
    ]
}

fn mesh(cx: &mut Ctx) -> Case {
    let (x, y, z) = gen::frame(&mut cx.rng);
    let o = gen::point3(&mut cx.rng, gen::Coords::Tens);
    let which = cx.rng.below(6);
    let mut range = ((0.0, 1.0), (0.0, 1.0));
    let make: Box<dyn Fn() -> Box<dyn Surface>> = match which {
        0 => {
            range = ((cx.rng.range(-5.0, 0.0), cx.rng.range(0.5, 5.0)), (0.0, *cx.rng.pick(&[PI, TAU, 1.0])));
            let r = cx.rng.range(0.5, 4.0);
            Box::new(move || Box::new(Cylinder { origin: o, axis: z, ref_dir: x, radius: r }))
        }
        1 => {
            range = ((0.0, PI), (0.0, TAU));
            Box::new(move || Box::new(Umbrella { radius: 3.0 }))
        }
        2 => {
            range = ((-2.0, 3.0), (1.0, 7.5));
            Box::new(move || Box::new(Plane { origin: o, normal: z, u_axis: x, v_axis: y }))
        }
        3 => {
            let (m, n) = (2 + cx.rng.below(3), 2 + cx.rng.below(3));
            let p = gen::points3(&mut cx.rng, gen::Coords::Tens, m * n);
            Box::new(move || Box::new(BezierSurface::new(geom3d::Grid::from_vec(p.clone(), n))))
        }
        _ => {
            let s = sheet(cx, true, 1, 3);
            range = s.domain();
            Box::new(move || Box::new(s.surface()))
        }
    };
    if cx.rng.chance(0.3) {
        range.0 = (range.0 .1, range.0 .0);
    }
    let big = which != 4 && which != 5 && cx.idx % 400 == 7;
    let div = if big { (cx.rng.below(30) + 255, 260) } else { (1 + cx.rng.below(24), 1 + cx.rng.below(24)) };
    cx.input = format!("{:?} range {:?} division {:?}", make(), range, div);
    cx.seen(["cylinder", "umbrella", "plane", "bezier", "bspline", "bspline"][which]);
    if big {
        cx.seen("more than 65535 vertices");
    }
    if div.0 != div.1 {
        cx.nontrivial();
    }
    let patch = SurfacePatch { surface: make(), parameter_range: range, parameter_division: div };
    let mesh = cx.sut("SurfacePatch::get_triangle_mesh", || patch.get_triangle_mesh())?;
    let grid = cx.sut("get_point_grid", || patch.get_point_grid())?;
    let s = make();
    let (nu, nv) = (div.0 + 1, div.1 + 1);
    if !cx.check(mesh.vertices.len() == nu * nv, "patch.count", || format!("{} vertices for divisions {:?}", mesh.vertices.len(), div)) {
        return Ok(());
    }
    cx.check(grid.size() == (nu, nv), "patch.grid", || format!("grid of size {:?} for divisions {:?}", grid.size(), div));
    cx.check(mesh.triangle_count() == 2 * div.0 * div.1 && mesh.triangles.len() == 6 * div.0 * div.1, "patch.triangles", || format!("{} triangles for divisions {:?}", mesh.triangle_count(), div));
    if !cx.fails.is_empty() {
        return Ok(());
    }
    let scale = oracle::max_abs(&mesh.vertices).max(1.0);
    let par = |(a, b): (f64, f64), i: usize, n: usize| if i == n { b } else { a + (b - a) * i as f64 / n as f64 };
    for i in 0..nu {
        for j in 0..nv {
            let (u, v) = (par(range.0, i, div.0), par(range.1, j, div.1));
            let p = mesh.vertices[i * nv + j];
            let want = s.get_point(u, v);
            // accumulated steps differ from exact fractions by rounding only
            cx.within((p - want).length(), 1e-7 * scale, "patch.vertex", || format!("vertex ({}, {}) is {:?}, the surface at ({}, {}) is {:?}", i, j, p, u, v, want));
            cx.check(grid[i][j] == p, "patch.grid", || format!("grid point ({}, {}) differs from the mesh vertex", i, j));
            if (i == 0 || i == div.0) && (j == 0 || j == div.1) {
                cx.check(p == want, "patch.corner", || format!("corner ({}, {}) is {:?}, the surface gives {:?}", i, j, p, want));
            }
            if !cx.fails.is_empty() {
                return Ok(());
            }
        }
    }
    topology(cx, &mesh.triangles, nu, nv, 1.0);
    if !cx.fails.is_empty() {
        return Ok(());
    }
    cx.seen_n("triangles checked", mesh.triangle_count() as u64);
    // reversal
    let copy = cx.sut("TriangleMesh::get_triangle_mesh", || mesh.get_triangle_mesh())?;
    let rev = cx.sut("reverse_winding_direction", || copy.reverse_winding_direction())?;
    cx.check(rev.vertices == mesh.vertices && rev.normals == mesh.normals, "patch.reverse", || "reversal moved vertices or normals".into());
    let key = |t: &[u32], flip: bool| {
        let mut t = if flip { [t[2], t[1], t[0]] } else { [t[0], t[1], t[2]] };
        while t[0] > t[1] || t[0] > t[2] {
            t.rotate_left(1);
        }
        t
    };
    let mut a: Vec<_> = mesh.triangles.chunks(3).map(|t| key(t, true)).collect();
    let mut b: Vec<_> = rev.triangles.chunks(3).filter(|t| t.len() == 3).map(|t| key(t, false)).collect();
    a.sort();
    b.sort();
    cx.check(a == b, "patch.reverse", || "reversal is not the same triangles turned over".into());
    // parameters of the division
    let us = cx.sut("uniform_divide", || utils::uniform_divide(range.0, div.0))?;
    cx.check(us.len() == nu && us[0] == range.0 .0 && us[div.0] == range.0 .1, "patch.divide", || format!("division of {:?} by {} gives {} values from {:?} to {:?}", range.0, div.0, us.len(), us.first(), us.last()));
    Ok(())
}

/// A rectangle of nu x nv grid points: every triangle turns from u towards v (so around
/// the normal du x dv), lies inside one cell, and edges match up like a disc.
pub fn topology(cx: &mut Ctx, tri: &[u32], nu: usize, nv: usize, sense: f64) {
    let mut area = 0.0;
    let mut edges: HashMap<(u32, u32), i32> = HashMap::new();

    for t in tri.chunks(3) {
        if !cx.check(t.iter().all(|i| (*i as usize) < nu * nv), "patch.index", || format!("triangle {:?} with {} vertices", t, nu * nv)) {
            return;
        }
        let p: Vec<Point2> = t.iter().map(|i| Point2::new((*i as usize / nv) as f64, (*i as usize % nv) as f64)).collect();
        let a = (p[1] - p[0]).perp_dot(p[2] - p[0]) * 0.5;
        let lo = p[0].min(p[1]).min(p[2]);
        let hi = p[0].max(p[1]).max(p[2]);
        cx.check(hi.x - lo.x <= 1.0 && hi.y - lo.y <= 1.0 && a.abs() == 0.5, "patch.cell", || format!("triangle {:?} is not half of one grid cell", t));
        cx.check(a.signum() == sense, "patch.winding", || format!("triangle {:?} turns the other way", t));
        area += a;
        for k in 0..3 {
            *edges.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    cx.within((area.abs() - ((nu - 1) * (nv - 1)) as f64).abs(), 1e-6, "patch.area", || format!("triangles cover {} of {} cells", area, (nu - 1) * (nv - 1)));
    let mut boundary = 0;
    for ((a, b), n) in &edges {
        cx.check(*n == 1, "patch.edges", || format!("edge {}-{} is used {} times in one direction", a, b, n));
        if !edges.contains_key(&(*b, *a)) {
            boundary += 1;
        }
    }
    cx.check(boundary == 2 * (nu - 1) + 2 * (nv - 1), "patch.boundary", || format!("{} boundary edges on a {}x{} grid", boundary, nu, nv));
}

fn normals(cx: &mut Ctx) -> Case {
    let mut s: Sheet = sheet(cx, true, 1, 4);
    let smooth = cx.rng.chance(0.6);
    if smooth {
        for k in 0..s.pts.len() {
            let (i, j) = (k / s.cols, k % s.cols);
            s.pts[k] = Point3::new(i as f64 * 2.0, j as f64 * 1.5, cx.rng.range(-0.6, 0.6));
        }
    }
    // mostly one pole, rarely two opposite ones
    let pole = cx.rng.below(6);
    let both = smooth && (1..=4).contains(&pole) && cx.rng.chance(0.1);
    if both {
        cx.seen("patch with two poles");
        match pole {
            1 | 2 => (0..s.cols).for_each(|j| {
                s.pts[j] = Point3::new(0.0, 1.0, 0.5);
                s.pts[(s.rows - 1) * s.cols + j] = Point3::new(2.0 * s.rows as f64, 1.0, 0.5)
            }),
            _ => (0..s.rows).for_each(|i| {
                s.pts[i * s.cols] = Point3::new(1.0, -1.0, 0.5);
                s.pts[i * s.cols + s.cols - 1] = Point3::new(1.0, 1.5 * s.cols as f64, 0.5)
            }),
        }
    } else if smooth {
        match pole {
            1 => (0..s.cols).for_each(|j| s.pts[j] = Point3::new(0.0, 1.0, 0.5)),
            2 => (0..s.cols).for_each(|j| s.pts[(s.rows - 1) * s.cols + j] = Point3::new(2.0 * s.rows as f64, 1.0, 0.5)),
            3 => (0..s.rows).for_each(|i| s.pts[i * s.cols] = Point3::new(1.0, -1.0, 0.5)),
            4 => (0..s.rows).for_each(|i| s.pts[i * s.cols + s.cols - 1] = Point3::new(1.0, 1.5 * s.cols as f64, 0.5)),
            _ => {}
        }
    }
    let pole = if smooth && (1..=4).contains(&pole) { pole } else { 0 };
    let range = s.domain();
    let big = cx.idx % 1000 == 17;
    let div = if big { (cx.rng.below(200) + 20, cx.rng.below(200) + 20) } else { (1 + cx.rng.below(9), 1 + cx.rng.below(9)) };
    let folded = match pole {
        1 | 2 => both && (div.0 == 1 || s.rows == 2),
        3 | 4 => both && (div.1 == 1 || s.cols == 2),
        _ => false,
    };
    cx.input = format!("{} pole {} division {:?}", s.show(), pole, div);
    cx.seen(if pole > 0 { "patch with a pole" } else { "regular patch" });
    if s.p > 1 || s.q > 1 {
        cx.nontrivial();
    }
    let surf = s.surface();
    // arbitrary parameters
    let us = gen::params(&mut cx.rng, &s.uk, 4);
    let vs = gen::params(&mut cx.rng, &s.vk, 4);
    let params: Vec<Point2> = (0..6).map(|_| Point2::new(*cx.rng.pick(&us), *cx.rng.pick(&vs))).collect();
    let n = cx.sut("get_normals", || surf.get_normals(&params))?;
    cx.check(n.len() == params.len(), "normal.count", || format!("{} normals for {} parameters", n.len(), params.len()));
    if !cx.fails.is_empty() {
        return Ok(());
    }
    for (p, n) in params.iter().zip(&n) {
        judge(cx, &s, p.x, p.y, *n);
    }
    if !cx.fails.is_empty() {
        return Ok(());
    }
    let patch = SurfacePatch { surface: s.surface(), parameter_range: range, parameter_division: div };
    let mesh: TriangleMesh = cx.sut("SurfacePatch::get_triangle_mesh", || patch.get_triangle_mesh())?;
    let (nu, nv) = (div.0 + 1, div.1 + 1);
    cx.check(mesh.normals.len() == nu * nv && mesh.vertices.len() == nu * nv, "normal.mesh", || format!("{} normals and {} vertices for divisions {:?}", mesh.normals.len(), mesh.vertices.len(), div));
    if !cx.fails.is_empty() {
        return Ok(());
    }
    let par = |(a, b): (f64, f64), i: usize, n: usize| if i == n { b } else { a + (b - a) * i as f64 / n as f64 };
    for i in 0..nu {
        for j in 0..nv {
            let (u, v) = (par(range.0, i, div.0), par(range.1, j, div.1));
            let n = mesh.normals[i * nv + j];
            let on_pole = match pole {
                1 | 2 => (i == 0 && (both || pole == 1)) || (i == div.0 && (both || pole == 2)),
                3 | 4 => (j == 0 && (both || pole == 3)) || (j == div.1 && (both || pole == 4)),
                _ => false,
            };
            let pole = match pole {
                1 | 2 if i == 0 => 1,
                1 | 2 => 2,
                3 | 4 if j == 0 => 3,
                _ => 4,
            };
            if folded {
                // nothing but poles, no normal to take
                continue;
            }
            // a pole's end points may coincide with another boundary: only demand a usable neighbour's normal
            if on_pole {
                cx.seen("pole normals");
                // the whole line is one point, its neighbours are all vertices of the next line
                let next = |k: usize| match pole {
                    1 => nv + k % nv,
                    2 => (div.0 - 1) * nv + k % nv,
                    3 => (k % nu) * nv + 1,
                    _ => (k % nu) * nv + div.1 - 1,
                };
                let ok = (0..nu.max(nv)).any(|k| mesh.normals[next(k)] == n);
                cx.check(!n.is_nan() && (n.length() - 1.0).abs() < 1e-9, "normal.pole", || format!("normal ({}, {}) at the pole is {:?}", i, j, n));
                // rounding may leave the pole a hair away, where the normal is the limit from inside
                let (hu, hv) = ((range.0 .1 - range.0 .0) * 1e-6, (range.1 .1 - range.1 .0) * 1e-6);
                let (a, b) = match pole {
                    1 => (u + hu, v),
                    2 => (u - hu, v),
                    3 => (u, v + hv),
                    _ => (u, v - hv),
                };
                let mut ok = ok;
                for k in [-1.0, 0.0, 1.0] {
                    let (a, b) = if pole < 3 { (a, (b + k * hv).max(range.1 .0).min(range.1 .1)) } else { ((a + k * hu).max(range.0 .0).min(range.0 .1), b) };
                    ok |= (s.du(a, b).cross(s.dv(a, b)).normalize() - n).length() < 1e-3;
                }
                cx.check(ok, "normal.pole", || format!("normal ({}, {}) = {:?} at the pole is none of its neighbours'", i, j, n));
            } else {
                judge(cx, &s, u, v, n);
            }
            if !cx.fails.is_empty() {
                return Ok(());
            }
        }
    }
    // the same patch behind a boxed surface
    let boxed = SurfacePatch { surface: Box::new(s.surface()) as Box<dyn Surface>, parameter_range: range, parameter_division: div };
    let m2 = cx.sut("SurfacePatch::get_triangle_mesh", || boxed.get_triangle_mesh())?;
    let same = m2.vertices == mesh.vertices && m2.triangles == mesh.triangles;
    cx.check(same, "normal.boxed_mesh", || "a boxed surface gives a different mesh".into());
    cx.check(m2.normals.len() == mesh.normals.len() && m2.normals.iter().zip(&mesh.normals).all(|(a, b)| a == b || (a.is_nan() && b.is_nan())), "normal.boxed", || format!("a boxed surface gives {} normals instead of {}", m2.normals.len(), mesh.normals.len()));
    Ok(())
}

fn judge(cx: &mut Ctx, s: &Sheet, u: f64, v: f64, n: Point3) {
    // only where both one-sided derivatives agree: not at interior knots
    let near_knot = |k: &[f64], x: f64| {
        let d = gen::distinct(k);
        d[1..d.len() - 1].iter().any(|t| (*t - x).abs() < 1e-9)
    };
    if near_knot(&s.uk, u) || near_knot(&s.vk, v) {
        return;
    }
    let (a, b) = (s.du(u, v), s.dv(u, v));
    let c = a.cross(b);
    if c.length() < 1e-3 * a.length() * b.length() || a.length() < 1e-6 || b.length() < 1e-6 {
        cx.seen("nearly parallel derivatives, not judged");
        return;
    }
    cx.seen("normals judged");
    cx.within((n - c.normalize()).length(), 1e-5, "normal.direction", || format!("normal at ({}, {}) is {:?}, expected {:?}", u, v, n, c.normalize()));
}
