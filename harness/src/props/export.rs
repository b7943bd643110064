//! C20 Wavefront OBJ, C21 STL, C22 SVG, C23 point clouds, C24 saving under write faults.
use super::Prop;
use crate::ctx::{Case, Ctx, Stop};
use crate::gen;
use crate::sys;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, CurveSegment, Line, Polyline};
use geom3d::surface::{BSplineSurface, SurfacePatch};
use geom3d::{points, Face, KnotVector, Model, Point2, Point3, Polycurve, TriangleMesh, Vec3};
use std::f64::consts::TAU;
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            quick: 400000,
            thorough: 3000000,
            rule: "OBJ files of single meshes, of models of 0..6 meshes with and without normals (some with more than 65535 vertices), of patch models and of bounds, coordinates from 1e-300 to 1e300, read back by an independent parser; non-trivial: several meshes or normals",
            assumptions: &["finite coordinates", "as many normals as vertices, or none", "the target is a regular file"],
            run: obj,
        },
        Prop {
            id: "C21",
            quick: 600000,
            thorough: 3000000,
            rule: "binary STL files of models of 0..6 meshes (some with more than 65535 triangles) and of patch models under short, long, non-ASCII and extensionless names, also over longer existing files, read back by an independent parser; non-trivial: at least one triangle",
            assumptions: &["coordinates within the single precision range", "the target is a regular file"],
            run: stl,
        },
        Prop {
            id: "C22",
            quick: 60000,
            thorough: 1000000,
            rule: "SVG files of 0..4 polycurves of 1..5 joined segments (lines, arcs, polylines, Bezier and B-spline curves of degree 1..5; whole, partial and backward ranges), read back by an independent parser, transformed to the page, compared with densely evaluated segments both ways and by length; non-trivial: several segments or a partial range",
            assumptions: &["consecutive segments join", "curves of 3 to 200 units without cusps, sampling tolerance 0.01"],
            run: svg,
        },
        Prop {
            id: "C23",
            quick: 600000,
            thorough: 6000000,
            rule: "point files of 3 and 4 columns with spaces, commas, tabs, comments, blank and odd lines, both line endings, with and without a last line end, malformed numbers and bytes; saved clouds read back bit by bit; non-trivial: at least one point",
            assumptions: &["finite coordinates when saving"],
            run: clouds,
        },
        Prop {
            id: "C24",
            quick: 10000,
            thorough: 300000,
            rule: "every saving function under a file size limit at all or many byte positions, on a full device, below a missing directory, onto a directory, over longer existing files, standard error going to the same limited file system; non-trivial: the limit cut the file",
            assumptions: &["faults come from the operating system as short writes or error codes"],
            run: faults,
        },
    ]
}

fn value(cx: &mut Ctx) -> f64 {
    let r = &mut cx.rng;
    match r.below(8) {
        0 => r.int(-1000, 1000) as f64,
        1 => r.range(-1.0, 1.0) * 10f64.powf(r.range(-300.0, 300.0)),
        2 => *r.pick(&[0.0, -0.0, 1.0, f64::MIN_POSITIVE, 5e-324, 1e21, 1e-7, 123456789.123456789, 0.1, 1e16, f64::MAX]),
        _ => r.range(-100.0, 100.0),
    }
}

fn tame(cx: &mut Ctx) -> f64 {
    let r = &mut cx.rng;
    match r.below(6) {
        0 => r.int(-1000, 1000) as f64,
        1 => r.range(-1.0, 1.0) * 10f64.powf(r.range(-30.0, 30.0)),
        2 => *r.pick(&[0.0, 1.0, 1e-7, 123456789.123456789, 0.1]),
        _ => r.range(-100.0, 100.0),
    }
}

fn mesh(cx: &mut Ctx, coordinate: fn(&mut Ctx) -> f64, normals: bool) -> TriangleMesh {
    let big = cx.rng.chance(0.03);
    let n = if cx.rng.chance(0.1) { 0 } else { 3 + cx.rng.below(if big { 1500 } else { 20 }) };
    mesh_of(cx, coordinate, normals, n)
}

/// now and then more vertices and triangles than 16 bits count
fn maybe_huge(cx: &mut Ctx, coordinate: fn(&mut Ctx) -> f64, normals: bool) -> TriangleMesh {
    if cx.rng.chance(0.0001) {
        let n = 66000 + cx.rng.below(5000);
        let mut m = mesh_of(cx, coordinate, normals, n);
        for i in 0..n as u32 - 2 {
            m.triangles.extend_from_slice(&[i, i + 1, i + 2]);
        }
        cx.seen("more than 65535 vertices and triangles");
        return m;
    }
    mesh(cx, coordinate, normals)
}

fn mesh_of(cx: &mut Ctx, coordinate: fn(&mut Ctx) -> f64, normals: bool, n: usize) -> TriangleMesh {
    let t = if n == 0 { 0 } else { cx.rng.below(2 * n) };
    let mut m = TriangleMesh::new();
    for _ in 0..n {
        m.vertices.push(Point3::new(coordinate(cx), coordinate(cx), coordinate(cx)));
        if normals {
            m.normals.push(gen::unit3(&mut cx.rng));
        }
    }
    for _ in 0..3 * t {
        m.triangles.push(cx.rng.below(n) as u32);
    }
    m
}

fn patch(cx: &mut Ctx) -> SurfacePatch<BSplineSurface<Point3>> {
    let (p, q) = (1 + cx.rng.below(3), 1 + cx.rng.below(3));
    let (n, m) = (p + 1 + cx.rng.below(3), q + 1 + cx.rng.below(3));
    let g = gen::grid_of(n, m, |i, j| Point3::new(i as f64, j as f64, cx.rng.range(-1.0, 1.0)));
    SurfacePatch { surface: BSplineSurface::uniform_clamped(g, (p, q)), parameter_range: ((0.0, 1.0), (0.0, 1.0)), parameter_division: (1 + cx.rng.below(6), 1 + cx.rng.below(6)) }
}

fn same_bits(a: f64, b: f64) -> bool {
    a == b && a.is_sign_negative() == b.is_sign_negative()
}
fn same_point(a: Point3, b: Point3) -> bool {
    same_bits(a.x, b.x) && same_bits(a.y, b.y) && same_bits(a.z, b.z)
}

struct Obj {
    v: Vec<Point3>,
    vn: Vec<Point3>,
    /// zero based vertex and maybe normal of every corner
    f: Vec<[(usize, Option<usize>); 3]>,
}

/// reads what the OBJ format says
fn parse_obj(text: &str) -> Result<Obj, String> {
    let mut o = Obj { v: vec![], vn: vec![], f: vec![] };
    for (k, line) in text.lines().enumerate() {
        let w: Vec<&str> = line.split_whitespace().collect();
        let bad = || format!("line {}: {:?}", k + 1, line);
        let num = |s: &str| s.parse::<f64>().map_err(|_| bad());
        match w.first().cloned() {
            None | Some("g") | Some("o") | Some("s") => {}
            Some(c) if c.starts_with('#') => {}
            Some("v") if w.len() == 4 => o.v.push(Point3::new(num(w[1])?, num(w[2])?, num(w[3])?)),
            Some("vn") if w.len() == 4 => o.vn.push(Point3::new(num(w[1])?, num(w[2])?, num(w[3])?)),
            Some("f") if w.len() == 4 => {
                let mut c = [(0, None); 3];
                for i in 0..3 {
                    let p: Vec<&str> = w[i + 1].split('/').collect();
                    let int = |s: &str| s.parse::<usize>().ok().filter(|i| *i > 0).map(|i| i - 1).ok_or_else(bad);
                    c[i] = (int(p[0])?, if p.len() == 3 { Some(int(p[2])?) } else { None });
                }
                o.f.push(c);
            }
            _ => return Err(bad()),
        }
    }
    Ok(o)
}

fn judge_obj(cx: &mut Ctx, text: &str, meshes: &[TriangleMesh]) {
    let o = match parse_obj(text) {
        Ok(o) => o,
        Err(e) => {
            cx.fail("obj.syntax", e);
            return;
        }
    };
    cx.check(text.is_empty() || text.ends_with('\n'), "obj.end", || "the last line is not ended".into());
    let nv: usize = meshes.iter().map(|m| m.vertices.len()).sum();
    let nn: usize = meshes.iter().map(|m| m.normals.len()).sum();
    let nf: usize = meshes.iter().map(|m| m.triangles.len() / 3).sum();
    cx.check(o.v.len() == nv && o.vn.len() == nn && o.f.len() == nf, "obj.counts", || format!("{} v {} vn {} f, expected {} {} {}", o.v.len(), o.vn.len(), o.f.len(), nv, nn, nf));
    if !cx.fails.is_empty() {
        return;
    }
    let mut k = 0;
    for (which, m) in meshes.iter().enumerate() {
        // the same vertex of a mesh is the same vertex of the file
        let mut seen: Vec<Option<usize>> = vec![None; m.vertices.len()];
        for t in m.triangles.chunks(3) {
            for (i, want) in t.iter().enumerate() {
                let (v, n) = o.f[k][i];
                let w = *want as usize;
                let ok = v < nv && same_point(o.v[v], m.vertices[w]) && seen[w].map_or(true, |s| s == v);
                if !cx.check(ok, "obj.face", || format!("mesh {} corner {} of triangle {:?} refers to vertex {} {:?}, it is at {:?}", which, i, t, v + 1, o.v.get(v), m.vertices[w])) {
                    return;
                }
                seen[w] = Some(v);
                if m.normals.is_empty() {
                    cx.check(n.is_none(), "obj.normal", || format!("mesh {} has no normals but triangle {:?} refers to one", which, t));
                } else {
                    let ok = n.map_or(false, |n| n < nn && same_point(o.vn[n], m.normals[w]));
                    if !cx.check(ok, "obj.normal", || format!("mesh {} corner {} of triangle {:?} has normal {:?}, expected {:?}", which, i, t, n.and_then(|n| o.vn.get(n)), m.normals[w])) {
                        return;
                    }
                }
            }
            k += 1;
        }
    }
    // vertices in order, used or not
    let mut it = o.v.iter();
    for m in meshes {
        for p in &m.vertices {
            let q = it.next().unwrap();
            if !cx.check(same_point(*p, *q), "obj.vertex", || format!("vertex {:?} was written as {:?}", p, q)) {
                return;
            }
        }
    }
}

fn leave_junk(cx: &mut Ctx, path: &Path) {
    if cx.rng.chance(0.3) {
        std::fs::write(path, vec![b'x'; 1 + cx.rng.below(60000)]).unwrap();
    } else {
        let _ = std::fs::remove_file(path);
    }
}

fn text_of(cx: &mut Ctx, path: &Path, class: &str) -> Result<String, Stop> {
    match std::fs::read(path).ok().and_then(|b| String::from_utf8(b).ok()) {
        Some(s) => Ok(s),
        None => {
            cx.fail(class, format!("{} can not be read as text", path.display()));
            Err(Stop)
        }
    }
}

fn saved(cx: &mut Ctx, r: std::io::Result<()>, class: &str) -> Result<(), Stop> {
    if let Err(e) = r {
        cx.fail(class, format!("saving failed: {}", e));
        return Err(Stop);
    }
    Ok(())
}

fn obj(cx: &mut Ctx) -> Case {
    let path = Path::new("out.obj");
    leave_junk(cx, path);
    if cx.rng.chance(0.1) {
        return bound(cx, path);
    }
    let kind = cx.rng.below(4);
    let meshes: Vec<TriangleMesh>;
    match kind {
        0 => {
            let normals = cx.rng.chance(0.5);
            let m = mesh(cx, value, normals);
            cx.input = format!("one mesh {:?} {:?} {:?}", m.vertices, m.normals, m.triangles);
            if normals {
                cx.nontrivial();
            }
            let r = cx.sut("TriangleMesh::save_as_obj", || m.save_as_obj(path))?;
            saved(cx, r, "obj.save")?;
            meshes = vec![m];
        }
        1 => {
            // the writer in the middle of somebody's own file
            let normals = cx.rng.chance(0.5);
            let (a, b) = (mesh(cx, value, normals), mesh(cx, value, normals));
            cx.input = format!("two meshes {:?} {:?} {:?} {:?}", a.vertices, a.triangles, b.vertices, b.triangles);
            cx.nontrivial();
            let mut out: Vec<u8> = Vec::new();
            let r = cx.sut("TriangleMesh::write_obj", || a.write_obj(&mut out, 1, 1))?;
            saved(cx, r, "obj.save")?;
            let r = cx.sut("TriangleMesh::write_obj", || b.write_obj(&mut out, 1 + a.vertices.len() as u32, 1 + a.normals.len() as u32))?;
            saved(cx, r, "obj.save")?;
            std::fs::write(path, &out).unwrap();
            meshes = vec![a, b];
        }
        2 => {
            let n = cx.rng.below(4);
            let mut model = Model::new();
            let mut want = vec![];
            for _ in 0..n {
                let p = patch(cx);
                want.push(cx.sut("patch mesh", || p.get_triangle_mesh())?);
                model.add_face(p);
            }
            cx.input = format!("{} patches {:?}", n, want.iter().map(|m| m.vertices.len()).collect::<Vec<_>>());
            if n > 1 {
                cx.nontrivial();
            }
            let r = cx.sut("Model::save_as_obj", || model.save_as_obj(path))?;
            saved(cx, r, "obj.save")?;
            meshes = want;
        }
        _ => {
            let n = cx.rng.below(7);
            let mixed = cx.rng.chance(0.6);
            let mut model = Model::new();
            for _ in 0..n {
                let normals = if mixed { cx.rng.chance(0.5) } else { false };
                let m = maybe_huge(cx, value, normals);
                model.add_face(m);
            }
            cx.input = format!("{} meshes {:?}", n, model.faces.iter().map(|m| (m.vertices.len(), m.normals.len(), m.triangles.clone())).collect::<Vec<_>>());
            if n > 1 {
                cx.nontrivial();
            }
            let r = cx.sut("Model::save_as_obj", || model.save_as_obj(path))?;
            saved(cx, r, "obj.save")?;
            meshes = model.faces;
        }
    }
    let text = text_of(cx, path, "obj.text")?;
    cx.seen_n("lines written", text.lines().count() as u64);
    judge_obj(cx, &text, &meshes);
    let _ = std::fs::remove_file(path);
    Ok(())
}

/// a boundary saved as a closed line
fn bound(cx: &mut Ctx, path: &Path) -> Case {
    let many = cx.rng.chance(0.05);
    let n = 2 + cx.rng.below(if many { 500 } else { 12 });
    let points: Vec<Point3> = (0..n).map(|_| Point3::new(value(cx), value(cx), value(cx))).collect();
    cx.input = format!("bound {:?}", points);
    cx.nontrivial();
    cx.seen("bounds");
    let r = cx.sut("save_bound_as_obj", || geom3d::surface::save_bound_as_obj(&points, path))?;
    saved(cx, r, "obj.save")?;
    let text = text_of(cx, path, "obj.text")?;
    let _ = std::fs::remove_file(path);
    let mut v = Vec::new();
    // every side of the boundary once, as far as the file says
    let mut sides = Vec::new();
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        let c: Vec<f64> = w.iter().skip(1).filter_map(|s| s.parse().ok()).collect();
        match w.first() {
            Some(&"v") if w.len() == 4 && c.len() == 3 => v.push(Point3::new(c[0], c[1], c[2])),
            Some(&"l") if w.len() >= 3 && c.len() + 1 == w.len() => sides.extend(c.windows(2).map(|p| (p[0] as usize, p[1] as usize))),
            _ => {
                cx.fail("bound.syntax", format!("line {:?}", line));
                return Ok(());
            }
        }
    }
    cx.check(v.len() == n && v.iter().zip(&points).all(|(a, b)| same_point(*a, *b)), "bound.vertices", || format!("{:?} was written as {:?}", points, v));
    let want: Vec<(usize, usize)> = (1..=n).map(|i| (i, if i < n { i + 1 } else { 1 })).collect();
    sides.sort();
    cx.check(sides == want, "bound.sides", || format!("sides {:?} of {} points", sides, n));
    Ok(())
}

fn name_of_file(cx: &mut Ctx, ext: &str) -> String {
    let r = &mut cx.rng;
    match r.below(7) {
        0 => "a".repeat(1 + r.below(100)) + ext,
        1 => "Würfel-立方体-".repeat(1 + r.below(6)) + ext,
        2 => "name".to_string(),
        3 => "é".repeat(20 + r.below(30)) + ext,
        4 => "two words.v1".to_string() + ext,
        5 => "solid".to_string() + ext,
        _ => "out".to_string() + ext,
    }
}

fn judge_stl(cx: &mut Ctx, b: &[u8], meshes: &[TriangleMesh]) {
    let n: usize = meshes.iter().map(|m| m.triangles.len() / 3).sum();
    if !cx.check(b.len() == 84 + 50 * n, "stl.size", || format!("{} bytes for {} triangles", b.len(), n)) {
        return;
    }
    cx.check(!b.starts_with(b"solid"), "stl.header", || "the header looks like a text file".into());
    let count = u32::from_le_bytes(b[80..84].try_into().unwrap()) as usize;
    cx.check(count == n, "stl.count", || format!("the file says {} triangles and has {}", count, n));
    let f = |at: usize| f32::from_le_bytes(b[at..at + 4].try_into().unwrap());
    let mut at = 84;
    for m in meshes {
        for t in m.triangles.chunks(3) {
            let p: Vec<[f32; 3]> = (0..4).map(|k| [f(at + 12 * k), f(at + 12 * k + 4), f(at + 12 * k + 8)]).collect();
            for k in 0..3 {
                let v = m.vertices[t[k] as usize];
                let want = [v.x as f32, v.y as f32, v.z as f32];
                if !cx.check(p[k + 1] == want, "stl.vertex", || format!("corner {} of triangle {:?} is {:?}, expected {:?}", k, t, p[k + 1], want)) {
                    return;
                }
            }
            // a zero normal means: see the vertices
            let nl = Vec3::new(p[0][0] as f64, p[0][1] as f64, p[0][2] as f64);
            if nl != Vec3::ZERO {
                let (a, b, c) = (m.vertices[t[0] as usize], m.vertices[t[1] as usize], m.vertices[t[2] as usize]);
                let w = (b - a).cross(c - a);
                let ok = (nl.length() - 1.0).abs() < 1e-3 && (w.length() < 1e-6 * ((b - a).length() * (c - a).length()) || w.normalize().dot(nl) > 0.99);
                cx.check(ok, "stl.normal", || format!("normal {:?} of {:?} {:?} {:?}", nl, a, b, c));
            }
            cx.check(b[at + 48] == 0 && b[at + 49] == 0, "stl.attribute", || "attribute bytes are set".into());
            if cx.fails.len() > 2 {
                return;
            }
            at += 50;
        }
    }
}

fn stl(cx: &mut Ctx) -> Case {
    let name = name_of_file(cx, ".stl");
    let path = Path::new(&name).to_path_buf();
    if path.as_os_str().len() > 250 {
        return Ok(());
    }
    leave_junk(cx, &path);
    let n = cx.rng.below(7);
    let meshes: Vec<TriangleMesh>;
    if cx.rng.chance(0.3) {
        let mut model = Model::new();
        let mut want = vec![];
        for _ in 0..n {
            let p = patch(cx);
            want.push(cx.sut("patch mesh", || p.get_triangle_mesh())?);
            model.add_face(p);
        }
        cx.input = format!("{}: {} patches {:?}", name, n, want.iter().map(|m| m.vertices.len()).collect::<Vec<_>>());
        let r = cx.sut("Model::save_as_stl", || model.save_as_stl(&path))?;
        saved(cx, r, "stl.save")?;
        meshes = want;
    } else {
        let mut model = Model::new();
        for _ in 0..n {
            let normals = cx.rng.chance(0.3);
            model.add_face(maybe_huge(cx, tame, normals));
        }
        cx.input = format!("{}: {} meshes {:?}", name, n, model.faces.iter().map(|m| (m.vertices.len(), m.triangles.clone())).collect::<Vec<_>>());
        let r = cx.sut("Model::save_as_stl", || model.save_as_stl(&path))?;
        saved(cx, r, "stl.save")?;
        meshes = model.faces;
    }
    let b = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    cx.seen_n("triangles", meshes.iter().map(|m| m.triangles.len() as u64 / 3).sum());
    cx.seen_n("bytes", b.len() as u64);
    if meshes.iter().any(|m| !m.triangles.is_empty()) {
        cx.nontrivial();
    }
    judge_stl(cx, &b, &meshes);
    Ok(())
}

// ---------------------------------------------------------------------- SVG --
type Segment = CurveSegment<Box<dyn Curve>>;

fn segment(curve: Box<dyn Curve>, parameter_range: (f64, f64)) -> Segment {
    CurveSegment { curve, parameter_range, tolerance: 0.01, parameter_division: 16 }
}

/// a segment starting at `from`: (segment, densely evaluated by definition)
fn joined(cx: &mut Ctx, from: Point3) -> (Segment, String) {
    let plane = cx.rng.chance(0.8);
    let size = 10f64.powf(cx.rng.range(0.6, 1.8));
    let walk = |cx: &mut Ctx, n: usize| {
        // a path without cusps: turning by less than a right angle
        let mut p = vec![Point3::ZERO];
        let mut a = cx.rng.range(0.0, TAU);
        for _ in 1..n {
            a += cx.rng.range(-1.2, 1.2);
            let d = size / n as f64 * cx.rng.range(0.6, 1.6);
            let q = p[p.len() - 1] + Vec3::new(a.cos(), a.sin(), if plane { 0.0 } else { cx.rng.range(-0.5, 0.5) }) * d;
            p.push(q);
        }
        p
    };
    let part = |cx: &mut Ctx, lo: f64, hi: f64| -> (f64, f64) {
        let (a, b) = match cx.rng.below(3) {
            0 | 1 => (lo, hi),
            _ => {
                let (mut a, mut b) = (cx.rng.range(0.0, 0.45), cx.rng.range(0.55, 1.0));
                match cx.rng.below(4) {
                    // the same cut off at both ends, and even fractions
                    0 => b = 1.0 - a,
                    1 => (a, b) = (*cx.rng.pick(&[0.125, 0.25, 0.375]), *cx.rng.pick(&[0.625, 0.75, 0.875])),
                    _ => {}
                }
                match cx.rng.below(3) {
                    0 => (lo, lo + (hi - lo) * b),
                    1 => (lo + (hi - lo) * a, hi),
                    _ => (lo + (hi - lo) * a, lo + (hi - lo) * b),
                }
            }
        };
        if cx.rng.chance(0.3) {
            (b, a)
        } else {
            (a, b)
        }
    };
    // the shape first at the origin, then moved so that its start joins
    match cx.rng.below(6) {
        0 => {
            let d = walk(cx, 2)[1];
            let r = part(cx, 0.0, 1.0);
            let o = from - d * r.0;
            (segment(Box::new(Line { origin: o, direction: d }), r), format!("line {:?} {:?} {:?}", o, d, r))
        }
        1 => {
            let (x, y) = if cx.rng.chance(0.5) { (Vec3::X, Vec3::Y) } else { (Vec3::Y, -Vec3::X) };
            let axis = if cx.rng.chance(0.8) { Vec3::Z } else { -Vec3::Z };
            let radius = size * 0.5;
            let a = cx.rng.range(-TAU, TAU);
            let r = (a, a + *cx.rng.pick(&[1.0, -1.0]) * if cx.rng.chance(0.3) { TAU } else { cx.rng.range(0.3, TAU) });
            let y = if axis.z > 0.0 { y } else { -y };
            let center = from - (x * r.0.cos() + y * r.0.sin()) * radius;
            (segment(Box::new(Circle { center, axis, ref_dir: x, radius }), r), format!("circle {:?} {:?} {:?} {} {:?}", center, axis, x, radius, r))
        }
        2 => {
            let n = 2 + cx.rng.below(8);
            let p = walk(cx, n);
            let r = part(cx, 0.0, 1.0);
            let at = polyline_at(&p, r.0);
            let p: Vec<Point3> = p.iter().map(|q| *q - at + from).collect();
            (segment(Box::new(Polyline::new(p.clone())), r), format!("polyline {:?} {:?}", p, r))
        }
        3 => {
            let n = 2 + cx.rng.below(4);
            let p = walk(cx, n);
            let r = part(cx, 0.0, 1.0);
            let at = crate::oracle::casteljau(&p, r.0);
            let p: Vec<Point3> = p.iter().map(|q| *q - at + from).collect();
            (segment(Box::new(BezierCurve { control_points: p.clone() }), r), format!("bezier {:?} {:?}", p, r))
        }
        _ => {
            let d = *cx.rng.pick(&[1usize, 2, 3, 3, 3, 4, 5]);
            let n = d + 1 + cx.rng.below(6);
            let kind = *cx.rng.pick(&[0, 1, 2]);
            let mut k: Vec<f64> = vec![0.0; d + 1];
            k.extend((1..n - d).map(|i| i as f64 + if kind == 1 { cx.rng.range(-0.4, 0.4) } else { 0.0 }));
            k.extend(vec![(n - d) as f64; d + 1]);
            if kind == 2 {
                k.iter_mut().for_each(|v| *v = *v / (n - d) as f64);
            }
            let p = walk(cx, n);
            let hi = k[k.len() - 1];
            let r = part(cx, 0.0, hi);
            let eval = |u: f64| crate::oracle::combine(&crate::oracle::basis(&k, d, crate::oracle::c(u)), &p).0;
            let at = eval(r.0);
            let p: Vec<Point3> = p.iter().map(|q| *q - at + from).collect();
            let s = format!("bspline degree {} {:?} {:?} {:?}", d, k, p, r);
            (segment(Box::new(BSplineCurve { control_points: p, knots: KnotVector::new(k), degree: d as u8 }), r), s)
        }
    }
}

pub fn polyline_at(p: &[Point3], u: f64) -> Point3 {
    let total: f64 = p.windows(2).map(|w| (w[1] - w[0]).length()).sum();
    let mut rest = u * total;
    for w in p.windows(2) {
        let l = (w[1] - w[0]).length();
        if rest <= l {
            return w[0] + (w[1] - w[0]) * (rest / l);
        }
        rest -= l;
    }
    p[p.len() - 1]
}

fn attribute<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
    let at = tag.find(&format!(" {}=\"", name))? + name.len() + 3;
    let len = tag[at..].find('"')?;
    Some(&tag[at..at + len])
}

/// subpaths of an SVG path in user units, curves flattened; every subpath with its first point
fn parse_path(d: &str) -> Result<Vec<Vec<Point2>>, String> {
    let mut subs: Vec<Vec<Point2>> = Vec::new();
    // tokens: letters and numbers
    let mut tokens: Vec<String> = Vec::new();
    let mut cur = String::new();
    for c in d.chars() {
        let starts_number = (c == '-' || c == '+') && !cur.is_empty() && !cur.ends_with('e') && !cur.ends_with('E');
        if c.is_ascii_alphabetic() && c != 'e' && c != 'E' {
            if !cur.is_empty() {
                tokens.push(std::mem::take(&mut cur));
            }
            tokens.push(c.to_string());
        } else if c.is_whitespace() || c == ',' || starts_number {
            if !cur.is_empty() {
                tokens.push(std::mem::take(&mut cur));
            }
            if starts_number {
                cur.push(c);
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        tokens.push(cur);
    }
    let mut i = 0;
    let mut cmd = String::new();
    let mut at = Point2::ZERO;
    let num = |i: usize| -> Result<f64, String> { tokens.get(i).and_then(|t| t.parse::<f64>().ok()).ok_or(format!("number expected at token {}", i)) };
    while i < tokens.len() {
        if tokens[i].chars().all(|c| c.is_ascii_alphabetic()) {
            cmd = tokens[i].clone();
            i += 1;
            if cmd == "Z" || cmd == "z" {
                let s = subs.last_mut().ok_or("closing nothing")?;
                at = s[0];
                s.push(at);
                continue;
            }
        }
        match cmd.as_str() {
            "M" => {
                at = Point2::new(num(i)?, num(i + 1)?);
                i += 2;
                subs.push(vec![at]);
                cmd = "L".into();
            }
            "L" => {
                at = Point2::new(num(i)?, num(i + 1)?);
                i += 2;
                subs.last_mut().ok_or("line without a start")?.push(at);
            }
            "C" => {
                let p: Vec<Point2> = (0..3).map(|k| Ok(Point2::new(num(i + 2 * k)?, num(i + 2 * k + 1)?))).collect::<Result<_, String>>()?;
                i += 6;
                let s = subs.last_mut().ok_or("curve without a start")?;
                for k in 1..=24 {
                    let t = k as f64 / 24.0;
                    let q = 1.0 - t;
                    s.push(at * (q * q * q) + p[0] * (3.0 * q * q * t) + p[1] * (3.0 * q * t * t) + p[2] * (t * t * t));
                }
                at = p[2];
            }
            _ => return Err(format!("command {:?}", cmd)),
        }
    }
    Ok(subs)
}

fn svg(cx: &mut Ctx) -> Case {
    let path = Path::new("out.svg");
    leave_junk(cx, path);
    let n = cx.rng.below(5);
    let mut model: Model<TriangleMesh> = Model::new();
    let mut say = String::new();
    let mut count = 0;
    for _ in 0..n {
        let k = 1 + cx.rng.below(5);
        count += k;
        let mut at = Point3::new(cx.rng.range(-50.0, 150.0), cx.rng.range(-50.0, 150.0), 0.0);
        let mut segments: Vec<Segment> = Vec::new();
        for _ in 0..k {
            let (s, name) = joined(cx, at);
            say.push_str(&name);
            say.push_str("; ");
            at = cx.sut("Curve::get_point", || s.curve.get_point(s.parameter_range.1))?;
            segments.push(s);
        }
        say.push_str(" | ");
        model.add_curve(Polycurve { segments });
    }
    let (w, h) = if cx.rng.chance(0.5) { (cx.rng.int(1, 400) as f64, cx.rng.int(1, 400) as f64) } else { (cx.rng.range(1.0, 400.0), cx.rng.range(1.0, 400.0)) };
    cx.input = format!("page {} x {} curves {}", w, h, say);
    if count > n || say.contains("line") {
        cx.nontrivial();
    }
    // sampling draws probes at random and may accept a chord that crosses the
    // curve just there; what is wrong with the drawing shows every time
    for attempt in 0..12 {
        let r = cx.sut("Model::save_as_svg", || model.save_as_svg(path, (w, h)))?;
        saved(cx, r, "svg.save")?;
        let text = text_of(cx, path, "svg.text")?;
        judge_svg(cx, &text, &model, (w, h));
        let unlucky = !cx.fails.is_empty() && cx.fails.iter().all(|f| ["svg.missing", "svg.length", "svg.drawn"].contains(&f.class.as_str()));
        if !unlucky || attempt == 11 {
            break;
        }
        cx.seen("drawn again");
        cx.fails.clear();
    }
    let _ = std::fs::remove_file(path);
    Ok(())
}

fn judge_svg(cx: &mut Ctx, text: &str, model: &Model<TriangleMesh>, (w, h): (f64, f64)) {
    let n = model.curves.len();
    // the page
    let tags: Vec<&str> = text.split('<').skip(1).map(|t| t.split('>').next().unwrap_or("")).collect();
    let root = tags.iter().find(|t| t.starts_with("svg")).cloned().unwrap_or("");
    let close = |s: Option<&str>, v: f64| s.map(|s| s.trim_end_matches("mm")).and_then(|s| s.parse::<f64>().ok()).map_or(false, |x| (x - v).abs() < 1e-3 * v.max(1.0));
    cx.check(close(attribute(root, "width"), w) && close(attribute(root, "height"), h), "svg.page", || format!("page {} for {} x {}", root, w, h));
    let vb: Vec<f64> = attribute(root, "viewBox").unwrap_or("").split(|c: char| c == ' ' || c == ',').filter_map(|s| s.parse().ok()).collect();
    cx.check(vb.len() == 4 && vb[0] == 0.0 && vb[1] == 0.0 && (vb[2] - w).abs() < 1e-3 * w && (vb[3] - h).abs() < 1e-3 * h, "svg.page", || format!("view box {:?} for {} x {}", vb, w, h));
    // y grows downwards on the page
    let mut m = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    let mut drawn: Vec<Vec<Vec<Point2>>> = Vec::new();
    for t in &tags {
        if let Some(tr) = attribute(t, "transform") {
            let inner = tr.trim().trim_start_matches("matrix(").trim_end_matches(')');
            let v: Vec<f64> = inner.split(|c: char| c == ' ' || c == ',').filter_map(|s| s.parse().ok()).collect();
            if !cx.check(tr.trim().starts_with("matrix(") && v.len() == 6, "svg.transform", || format!("transform {}", tr)) {
                return;
            }
            m.copy_from_slice(&v);
        }
        if t.starts_with("path") {
            match parse_path(attribute(t, "d").unwrap_or("")) {
                Ok(p) => drawn.push(p),
                Err(e) => {
                    cx.fail("svg.path", format!("{} in {}", e, t));
                    return;
                }
            }
        }
    }
    if !cx.check(drawn.len() == n, "svg.count", || format!("{} paths for {} curves", drawn.len(), n)) {
        return;
    }
    cx.seen_n("paths", n as u64);
    for (curve, subs) in model.curves.iter().zip(&drawn) {
        let page = |p: Point2| Point2::new(m[0] * p.x + m[2] * p.y + m[4], m[1] * p.x + m[3] * p.y + m[5]);
        let mut line: Vec<Point2> = Vec::new();
        for s in subs {
            let s: Vec<Point2> = s.iter().map(|p| page(*p)).collect();
            if let Some(l) = line.last() {
                let jump = (*l - s[0]).length();
                if !cx.check(jump < 0.03, "svg.jump", || format!("the pen moves by {} inside a continuous curve", jump)) {
                    return;
                }
            }
            line.extend(s);
        }
        // what it should look like, from the definition of the segments
        let mut want: Vec<Point2> = Vec::new();
        for s in &curve.segments {
            let (a, b) = s.parameter_range;
            for k in 0..=400 {
                let p = s.curve.get_point(if k == 400 { b } else { a + (b - a) * k as f64 / 400.0 });
                want.push(Point2::new(p.x, h - p.y));
            }
        }
        // how far the curve leaves the chords of its samples
        let bend = want.windows(3).map(|w| crate::geo::seg_dist(w[0], w[2], w[1])).fold(0.0, f64::max) / 2.0;
        let (d0, d1) = ((line[0] - want[0]).length(), (line[line.len() - 1] - want[want.len() - 1]).length());
        cx.within(d0, 0.02, "svg.start", || format!("drawn from {:?}, the curve starts at {:?}", line[0], want[0]));
        cx.within(d1, 0.02, "svg.end", || format!("drawn to {:?}, the curve ends at {:?}", line[line.len() - 1], want[want.len() - 1]));
        let far = |from: &[Point2], to: &[Point2]| -> f64 {
            let mut worst = 0.0f64;
            for p in from {
                let d = to.windows(2).map(|w| crate::geo::seg_dist(w[0], w[1], *p)).fold(f64::MAX, f64::min);
                worst = worst.max(d);
            }
            worst
        };
        let out = far(&line, &want);
        cx.within(out, 0.03 + bend, "svg.drawn", || format!("something is drawn {} off the curve", out));
        let sparse: Vec<Point2> = want.iter().step_by(5).cloned().collect();
        let miss = far(&sparse, &line);
        cx.within(miss, 0.15 + bend, "svg.missing", || format!("a point of the curve is {} off everything drawn", miss));
        let len = |l: &[Point2]| l.windows(2).map(|w| (w[1] - w[0]).length()).sum::<f64>();
        let (a, b) = (len(&line), len(&want));
        cx.within((a - b).abs(), 0.2 + 0.02 * b + 0.02 * line.len() as f64, "svg.length", || format!("a line of length {} is drawn for a curve of length {}", a, b));
        if !cx.fails.is_empty() {
            return;
        }
    }
}

// ------------------------------------------------------------- point clouds --
fn clouds(cx: &mut Ctx) -> Case {
    let path = Path::new("out.xyz");
    leave_junk(cx, path);
    match cx.rng.below(5) {
        0 => {
            let n = cx.rng.below(60);
            let p: Vec<Point3> = (0..n).map(|_| Point3::new(value(cx), value(cx), value(cx))).collect();
            cx.input = format!("save {:?}", p);
            let r = cx.sut("save_point_cloud", || points::save_point_cloud(&p, path))?;
            saved(cx, r, "cloud.save")?;
            let back = cx.sut("load_point_cloud", || points::load_point_cloud(path))?;
            match back {
                Err(e) => cx.fail("cloud.load", format!("{}", e)),
                Ok(b) => {
                    cx.check(b.len() == n && b.iter().zip(&p).all(|(a, b)| same_point(*a, *b)), "cloud.roundtrip", || format!("{} points came back as {:?}", n, b));
                }
            }
            if n > 0 {
                cx.nontrivial();
            }
        }
        1 => {
            let n = cx.rng.below(40);
            let p: Vec<(Point3, Vec3)> = (0..n).map(|_| (Point3::new(value(cx), value(cx), value(cx)), Vec3::new(value(cx), value(cx), value(cx)))).collect();
            let q: Vec<Point2> = (0..n).map(|_| Point2::new(value(cx), value(cx))).collect();
            cx.input = format!("save {:?} {:?}", p, q);
            let r = cx.sut("save_point_cloud_with_normal", || points::save_point_cloud_with_normal(&p, path))?;
            saved(cx, r, "cloud.save")?;
            let text = text_of(cx, path, "cloud.text")?;
            let want: Vec<Vec<f64>> = p.iter().map(|(a, b)| vec![a.x, a.y, a.z, b.x, b.y, b.z]).collect();
            judge_table(cx, &text, ' ', &want);
            let r = cx.sut("save_points", || points::save_points(&q, path))?;
            saved(cx, r, "cloud.save")?;
            let text = text_of(cx, path, "cloud.text")?;
            let want: Vec<Vec<f64>> = q.iter().map(|a| vec![a.x, a.y]).collect();
            judge_table(cx, &text, ',', &want);
            if n > 0 {
                cx.nontrivial();
            }
        }
        _ => {
            // somebody else's file
            let n = cx.rng.below(30);
            let spoil = cx.rng.chance(0.2);
            let mut text: Vec<u8> = Vec::new();
            let mut want: Vec<Point3> = Vec::new();
            let mut legal = true;
            let crlf = cx.rng.chance(0.3);
            for k in 0..n {
                let last = k + 1 == n;
                let bad_line = spoil && cx.rng.chance(0.15);
                let mut line = String::new();
                match cx.rng.below(10) {
                    0 => line.push_str(*cx.rng.pick(&["# comment", "#", "#1 2 3", "# a b c d", "#1 2 3 4", "# 1 2 3", "#\t1\t2\t3", "##", "#,1,2,3"])),
                    1 => line.push_str(*cx.rng.pick(&["", " ", "12", "1 2", "1 2 3 4 5", "1 2 3 4 5 6", ",", "a b", "\t"])),
                    t => {
                        let sep = |cx: &mut Ctx| cx.rng.pick(&[" ", ",", "\t", "  ", ", ", " ,", "\t\t", " \t "]).to_string();
                        if cx.rng.chance(0.2) {
                            line.push_str(*cx.rng.pick(&[" ", "\t", "   "]));
                        }
                        if t < 5 {
                            // a label or number in front
                            let labels = ["P1", "P#2", "pt-3", "a/b", "\"q\"", "1e400", "-", "v", "\u{394}7", "x;y", "3.5.1", "nan", "//", "0#", "'", "%", "!c", "[1]", "1:", "\\"];
                            line.push_str(&if cx.rng.chance(0.4) { format!("{}", k) } else { cx.rng.pick(&labels).to_string() });
                            line.push_str(&sep(cx));
                        }
                        let p = Point3::new(value(cx), value(cx), value(cx));
                        let style = cx.rng.below(5);
                        let show = |v: f64| match style {
                            3 => format!("{:+}", v),
                            4 => format!("{:E}", v),
                            0 => format!("{}", v),
                            1 => format!("{:e}", v),
                            _ => format!("{:?}", v),
                        };
                        let mut cells = vec![show(p.x), show(p.y), show(p.z)];
                        if bad_line {
                            let i = cx.rng.below(3);
                            cells[i] = cx.rng.pick(&["x", "1.2.3", "--4", "1e", "0x10", "1;2", "\u{b5}"]).to_string();
                            legal = false;
                        } else {
                            want.push(p);
                        }
                        for (i, c) in cells.iter().enumerate() {
                            if i > 0 {
                                line.push_str(&sep(cx));
                            }
                            line.push_str(c);
                        }
                        if cx.rng.chance(0.2) {
                            line.push_str(*cx.rng.pick(&[" ", "\t"]));
                        }
                    }
                }
                text.extend(line.bytes());
                if !last || cx.rng.chance(0.7) {
                    text.extend(if crlf { "\r\n".bytes() } else { "\n".bytes() });
                }
            }
            if spoil && cx.rng.chance(0.2) && !text.is_empty() {
                let i = cx.rng.below(text.len());
                text[i] = 0xff;
                legal = false;
            }
            cx.input = format!("file {:?}", String::from_utf8_lossy(&text));
            std::fs::write(path, &text).unwrap();
            let back = cx.sut("load_point_cloud", || points::load_point_cloud(path))?;
            if legal {
                match back {
                    Err(e) => cx.fail("cloud.load", format!("{}", e)),
                    Ok(b) => {
                        cx.check(b.len() == want.len() && b.iter().zip(&want).all(|(a, b)| same_point(*a, *b)), "cloud.points", || format!("{} points expected, got {:?}", want.len(), b));
                    }
                }
                cx.seen("well-formed files");
            } else {
                // not a number is no point: an error, but never made up points
                cx.seen("malformed files");
                if let Ok(b) = back {
                    let made_up = b.iter().any(|p| !want.iter().any(|w| same_point(*p, *w)));
                    cx.check(!made_up, "cloud.invented", || format!("points {:?} were read from a malformed file", b));
                }
            }
            if !want.is_empty() {
                cx.nontrivial();
            }
        }
    }
    let _ = std::fs::remove_file(path);
    let gone = cx.sut("load_point_cloud", || points::load_point_cloud(path))?;
    cx.check(gone.is_err(), "cloud.gone", || "a missing file was read".into());
    Ok(())
}

fn judge_table(cx: &mut Ctx, text: &str, sep: char, want: &[Vec<f64>]) {
    let rows: Vec<Vec<Option<f64>>> = text.lines().map(|l| l.split(sep).map(|c| c.trim().parse().ok()).collect()).collect();
    let ok = rows.len() == want.len() && rows.iter().zip(want).all(|(r, w)| r.len() == w.len() && r.iter().zip(w).all(|(a, b)| a.map_or(false, |a| same_bits(a, *b))));
    cx.check(ok, "cloud.table", || format!("table {:?} for {:?}", text, want));
}

// ------------------------------------------------------------------- faults --
fn faults(cx: &mut Ctx) -> Case {
    let kind = cx.rng.below(8);
    let many = cx.rng.chance(0.2);
    let n = 1 + cx.rng.below(if many { 400 } else { 12 });
    let p3: Vec<Point3> = (0..n).map(|_| Point3::new(tame(cx), tame(cx), tame(cx))).collect();
    let p2: Vec<Point2> = p3.iter().map(|p| Point2::new(p.x, p.y)).collect();
    let pn: Vec<(Point3, Vec3)> = p3.iter().map(|p| (*p, Vec3::Z)).collect();
    let mut model: Model<TriangleMesh> = Model::new();
    for _ in 0..1 + cx.rng.below(3) {
        let normals = cx.rng.chance(0.4);
        model.add_face(mesh(cx, tame, normals));
    }
    let mut at = Point3::ZERO;
    let mut segments = Vec::new();
    if kind == 6 {
        for _ in 0..1 + cx.rng.below(3) {
            let (s, _) = joined(cx, at);
            at = s.curve.get_point(s.parameter_range.1);
            // nothing sampled at random: the same bytes every time
            if s.curve.downcast_ref::<Line>().is_some() {
                segments.push(s);
            }
        }
        model.add_curve(Polycurve { segments });
    }
    let single = mesh(cx, tame, false);
    let name = ["save_point_cloud", "save_point_cloud_with_normal", "save_points", "TriangleMesh::save_as_obj", "Model::save_as_obj", "Model::save_as_stl", "Model::save_as_svg", "save_bound_as_obj"][kind];
    let save = |path: &Path| match kind {
        0 => points::save_point_cloud(&p3, path),
        1 => points::save_point_cloud_with_normal(&pn, path),
        2 => points::save_points(&p2, path),
        3 => single.save_as_obj(path),
        4 => model.save_as_obj(path),
        5 => model.save_as_stl(path),
        6 => model.save_as_svg(path, (100.0, 80.0)),
        _ => geom3d::surface::save_bound_as_obj(&p3, path),
    };
    cx.input = format!("{} {} points {:?} meshes {:?}", name, n, p3, model.faces.iter().map(|m| (m.vertices.len(), m.triangles.len())).collect::<Vec<_>>());
    let path = Path::new("fault.out");
    let _ = std::fs::remove_file(path);
    let r = cx.sut(name, || save(path))?;
    saved(cx, r, "fault.plain")?;
    let full = std::fs::read(path).unwrap_or_default();
    let size = full.len() as u64;
    cx.seen(name);
    // limits: everything for small files, else the ends, the block edges and some more
    let mut limits: Vec<u64> = Vec::new();
    if size < 120 {
        limits.extend(0..=size + 1);
    } else {
        limits.extend([0, 1, 2, 79, 80, 81, 83, 84, 85, size - 3, size - 2, size - 1, size, size + 1]);
        for _ in 0..if cx.thorough() { 60 } else { 12 } {
            limits.push(cx.rng.below(size as usize) as u64);
        }
        // the end of the file is where a short write goes unnoticed
        limits.extend((size - 40.min(size))..size);
        let mut b = 1024;
        while b < size {
            limits.extend([b - 1, b, b + 1]);
            b *= 2;
        }
    }
    limits.sort();
    limits.dedup();
    for l in limits {
        if cx.rng.chance(0.3) {
            std::fs::write(path, vec![b'y'; size as usize + 100]).unwrap();
        }
        let r = cx.sut(name, || {
            sys::limit(sys::RLIMIT_FSIZE, l);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| save(path)));
            sys::limit(sys::RLIMIT_FSIZE, u64::MAX);
            match r {
                Ok(r) => r,
                Err(e) => std::panic::resume_unwind(e),
            }
        })?;
        let now = std::fs::read(path).unwrap_or_default();
        match r {
            Ok(()) => {
                if l < size {
                    cx.nontrivial();
                }
                if !cx.check(now == full, "fault.silent", || format!("only {} bytes fit, {} of {} were written (same start: {}), and saving reported success", l, now.len(), size, full.starts_with(&now))) {
                    break;
                }
            }
            Err(e) => {
                cx.nontrivial();
                cx.seen("failure reported");
                if !cx.check(l < size, "fault.false", || format!("saving failed although {} bytes fit: {}", l, e)) {
                    break;
                }
            }
        }
        cx.seen("limits");
    }
    let _ = std::fs::remove_file(path);
    // a device without room, a missing directory, a directory
    let r = cx.sut(name, || save(Path::new("/dev/full")))?;
    cx.check(r.is_err() || size == 0, "fault.full", || "saving to a full device reported success".into());
    let r = cx.sut(name, || save(Path::new("missing/dir/file")))?;
    cx.check(r.is_err(), "fault.missing", || "saving below a missing directory reported success".into());
    let r = cx.sut(name, || save(Path::new(".")))?;
    cx.check(r.is_err(), "fault.directory", || "saving onto a directory reported success".into());
    for odd in ["", "..", "/"] {
        let r = cx.sut(name, || save(Path::new(odd)))?;
        cx.check(r.is_err(), "fault.path", || format!("saving as {:?} reported success", odd));
    }
    Ok(())
}
