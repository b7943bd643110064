//! C28 results depend on arguments alone: every operation of a history, run alone in a fresh
//! process, run among others in several orders and run from several threads, gives the same bits.
use super::surfaces::{sheet, Sheet};
use super::Prop;
use crate::ctx::{Case, Ctx, Tier};
use crate::gen;
use crate::geo;
use crate::rng::{hash_bytes, Rng};
use crate::stepfile::{self as sf, Edge, Piece, Step};
use crate::sys;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, CurveSegment, Line, Polycurve, Polyline};
use geom3d::model::StepReader;
use geom3d::surface::{BSplineSurface, BezierSurface, Cylinder, EdgeLoop, Plane, SpinSurface, Surface, SurfacePatch, TrimmedSurface};
use geom3d::{points, utils, Face, KnotVector, Model, Point2, Point3, Point4, TriangleMesh, Vec3};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        quick: 1200,
        thorough: 120000,
        rule: "histories of 8..40 operations of 24 kinds (basis functions, evaluation, derivatives, refinement, projection, surfaces, patches, trimmed faces, meshing, helpers, files written and read) on 2..6 objects that differ from each other in little (one point, one knot, one weight, a shift); each operation's result bits alone in a fresh process compared with those in the history, in the shuffled history, repeated, and on 3 threads at once; objects and working directory compared before and after; non-trivial: all",
        assumptions: &["sampling of bent curves probes at random by design and is left out"],
        run: history,
    }]
}

const MAX_OPS: usize = 40;
const THREADS: usize = 3;
const EMPTY: u64 = 0x5eed_0000_0000_0001;
const PANIC: u64 = 0x5eed_0000_0000_0002;

const KINDS: [&str; 24] = [
    "bspline_basis", "rational Bezier get_point", "BSplineCurve::get_point", "rational curve get_point", "curve derivative",
    "add_knot/split/clamp", "to_piecewise_bezier", "curve project", "BSplineSurface::get_point",
    "rational surface get_point", "surface derivative", "get_normals", "patch mesh", "project_points",
    "plane trim", "cylinder trim", "bspline trim", "generate_triangular_mesh", "trianglate_polygon",
    "helpers", "save obj/stl", "save svg", "point clouds", "StepReader::read_model",
];

#[derive(Clone, Copy, Debug)]
struct Op {
    kind: usize,
    shape: usize,
    arg: u64,
}

struct Shape {
    p: usize,
    knots: Vec<f64>,
    pts: Vec<Point3>,
    w: Vec<f64>,
    sheet: Sheet,
    outer: Vec<Point2>,
    holes: Vec<Vec<Point2>>,
    shift: Vec3,
    // objects shared by all operations of a history
    curve: BSplineCurve<Point3>,
    rational: BSplineCurve<Point4>,
    bezier: BezierCurve<Point3>,
    curves: Vec<Box<dyn Curve>>,
    surface: BSplineSurface<Point3>,
    rational_surface: BSplineSurface<Point4>,
    surfaces: Vec<Box<dyn Surface>>,
}

/// Shapes 2k and 2k+1 differ in little.
fn shape(seed: u64, k: usize) -> Shape {
    let mut cx = Ctx::new("C28", seed, Tier::Quick);
    cx.rng = Rng::new(seed ^ (k as u64 / 3) * 7919);
    let cx = &mut cx;
    let p = 1 + cx.rng.below(4);
    let n = p + 1 + cx.rng.below(4);
    let mut knots = gen::knots(&mut cx.rng, n, p, gen::KnotKind::ClampedNonUniform);
    let mut pts = gen::points3(&mut cx.rng, gen::Coords::Tens, n);
    let mut w: Vec<f64> = (0..n).map(|_| *cx.rng.pick(&[1.0, 0.5, 2.0, 0.25])).collect();
    let mut sheet = sheet(cx, true, 1, 3);
    // a height field, so that projection and trimming are well behaved
    let lift: Vec<f64> = (0..sheet.pts.len()).map(|_| cx.rng.range(-0.4, 0.4)).collect();
    for i in 0..sheet.rows {
        for j in 0..sheet.cols {
            let g = |t: &[f64], i: usize, p: usize| t[i + 1..i + 1 + p].iter().sum::<f64>() / p as f64;
            let (lu, lv) = (sheet.uk[sheet.uk.len() - 1] - sheet.uk[0], sheet.vk[sheet.vk.len() - 1] - sheet.vk[0]);
            let (x, y) = (g(&sheet.uk, i, sheet.p) / lu, g(&sheet.vk, j, sheet.q) / lv);
            sheet.pts[i * sheet.cols + j] = Point3::new(x * 8.0, y * 8.0, lift[i * sheet.cols + j]);
        }
    }
    let name = *cx.rng.pick(&["convex", "star", "frame", "comb", "tangled"]);
    let mut outer = None;
    for _ in 0..50 {
        outer = geo::polygon(&mut cx.rng, name);
        if outer.is_some() {
            break;
        }
    }
    let outer = outer.unwrap_or_else(|| vec![Point2::new(0.0, 0.0), Point2::new(6.0, 0.0), Point2::new(6.0, 5.0), Point2::new(0.0, 5.0)]);
    let region = geo::punch(&mut cx.rng, outer, 2, 0.3);
    let (mut outer, mut holes) = (region.outer, region.holes);
    let mut shift = Vec3::ZERO;
    match (k % 3, seed % 4) {
        (0, _) => {}
        (v, f) => {
            // the same but for one thing
            let f = (f as usize + v) % 5;
            match f {
                0 => {
                    let (i, j) = (cx.rng.below(n), cx.rng.below(sheet.pts.len()));
                    pts[i].y += 0.5;
                    sheet.pts[j].z += 0.25;
                    outer[0].x += 1e-3;
                }
                1 => {
                    for t in [&mut knots, &mut sheet.uk, &mut sheet.vk] {
                        let (a, b) = (t[0], t[t.len() - 1]);
                        for u in t.iter_mut() {
                            let s = (*u - a) / (b - a);
                            *u = a + (b - a) * (s + 0.3 * s * (1.0 - s));
                        }
                    }
                    for h in holes.iter_mut() {
                        for q in h.iter_mut() {
                            *q += Point2::new(1e-3, 0.0);
                        }
                    }
                }
                2 => {
                    shift = Vec3::new(0.0, 0.0, 2.0);
                    let i = cx.rng.below(n);
                    w[i] *= 1.5;
                    let j = cx.rng.below(sheet.w.len());
                    sheet.w[j] *= 1.5;
                    for q in outer.iter_mut().chain(holes.iter_mut().flatten()) {
                        q.y += 3.0;
                    }
                }
                3 => {
                    let k = n - 1;
                    pts[k].x -= 1.0;
                    let j = sheet.pts.len() - 1;
                    sheet.pts[j].z -= 0.25;
                    outer.rotate_left(1);
                }
                _ => {
                    for q in pts.iter_mut().chain(sheet.pts.iter_mut()) {
                        *q = *q * 1.25;
                    }
                    for q in outer.iter_mut().chain(holes.iter_mut().flatten()) {
                        *q = *q * 1.25;
                    }
                }
            }
        }
    }
    let homogeneous = |p: &[Point3], w: &[f64]| p.iter().zip(w).map(|(p, w)| (*p * *w).extend(*w)).collect::<Vec<Point4>>();
    let curve = || BSplineCurve { control_points: pts.clone(), knots: gen::knot_vector(&knots), degree: p as u8 };
    let curves: Vec<Box<dyn Curve>> = vec![
        Box::new(curve()),
        Box::new(BezierCurve { control_points: pts.clone() }),
        Box::new(Polyline::new(pts.clone())),
        Box::new(Line { origin: pts[0], direction: pts[1] - pts[0] }),
        Box::new(Circle { center: pts[0], axis: Vec3::Z, ref_dir: Vec3::X, radius: 1.0 + w[0] }),
    ];
    let surface = || BSplineSurface::new(sheet.grid3(), (gen::knot_vector(&sheet.uk), gen::knot_vector(&sheet.vk)), (sheet.p, sheet.q));
    let surfaces: Vec<Box<dyn Surface>> = vec![
        Box::new(surface()),
        Box::new(BezierSurface::new(sheet.grid3())),
        Box::new(Plane { origin: pts[0] + shift, normal: Vec3::Z, u_axis: Vec3::X, v_axis: Vec3::Y }),
        Box::new(Cylinder { origin: shift, axis: Vec3::Z, ref_dir: Vec3::X, radius: 1.0 + w[0] }),
        Box::new(SpinSurface { origin: shift, axis: Vec3::Z, section: Line { origin: pts[0], direction: pts[1] } }),
    ];
    Shape {
        curve: curve(),
        rational: BSplineCurve { control_points: homogeneous(&pts, &w), knots: gen::knot_vector(&knots), degree: p as u8 },
        bezier: BezierCurve { control_points: pts.clone() },
        rational_surface: BSplineSurface::new(sheet.grid4(), (gen::knot_vector(&sheet.uk), gen::knot_vector(&sheet.vk)), (sheet.p, sheet.q)),
        surface: surface(),
        curves,
        surfaces,
        p,
        knots,
        pts,
        w,
        sheet,
        outer,
        holes,
        shift,
    }
}

impl Shape {
    fn show(&self) -> String {
        format!("{:?} {:?} {:?} {:?} {:?} {:?}", self.curve, self.rational, self.curves, self.surface, self.rational_surface, self.surfaces)
    }
}

/// bits of results
#[derive(Default)]
struct Bits(Vec<u8>);

impl Bits {
    fn f(&mut self, v: f64) {
        // zeros of both signs and NaNs of any payload are the same result
        let v = if v == 0.0 { 0.0 } else if v.is_nan() { f64::NAN } else { v };
        self.0.extend(v.to_bits().to_le_bytes());
    }
    fn fs(&mut self, v: &[f64]) {
        self.n(v.len());
        v.iter().for_each(|v| self.f(*v));
    }
    fn n(&mut self, v: usize) {
        self.0.extend((v as u64).to_le_bytes());
    }
    fn p(&mut self, v: Point3) {
        self.f(v.x);
        self.f(v.y);
        self.f(v.z);
    }
    fn ps(&mut self, v: &[Point3]) {
        self.n(v.len());
        v.iter().for_each(|v| self.p(*v));
    }
    fn qs(&mut self, v: &[Point2]) {
        self.n(v.len());
        v.iter().for_each(|v| {
            self.f(v.x);
            self.f(v.y);
        });
    }
    fn mesh(&mut self, m: &TriangleMesh) {
        self.ps(&m.vertices);
        self.ps(&m.normals);
        self.n(m.triangles.len());
        m.triangles.iter().for_each(|i| self.n(*i as usize));
    }
    fn file(&mut self, r: std::io::Result<()>, path: &str) {
        self.n(r.is_ok() as usize);
        let b = std::fs::read(path).unwrap_or_default();
        self.n(b.len());
        self.0.extend(&b);
        let _ = std::fs::remove_file(path);
    }
}

fn lines(p: &[Point3]) -> EdgeLoop {
    let edge = |i: usize| {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        CurveSegment { curve: Box::new(Line { origin: a, direction: b - a }) as Box<dyn Curve>, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 }
    };
    EdgeLoop { edges: (0..p.len()).map(edge).collect() }
}

fn fine(l: &[Point2], n: usize) -> Vec<Point2> {
    (0..l.len()).flat_map(|i| (0..n).map(move |k| l[i] + (l[(i + 1) % l.len()] - l[i]) * (k as f64 / n as f64))).collect()
}

/// The files of the threads differ in the extension only, their stem is the name in STL headers.
fn run(op: Op, s: &Shape, tag: usize) -> Bits {
    let mut r = Rng::new(op.arg);
    let r = &mut r;
    let mut o = Bits::default();
    let (a, b) = (s.knots[0], s.knots[s.knots.len() - 1]);
    // arguments come back often, so that stale answers would be found
    let at = |r: &mut Rng| r.below(9) as f64 / 8.0;
    let u = a + (b - a) * at(r);
    let ((u0, u1), (v0, v1)) = s.sheet.domain();
    let (su, sv) = (u0 + (u1 - u0) * at(r), v0 + (v1 - v0) * at(r));
    let q = Point3::new(r.int(0, 4) as f64, r.int(0, 4) as f64, r.int(-1, 1) as f64);
    let loops = |f: &dyn Fn(Point2) -> Point3| {
        let mut v = vec![lines(&s.outer.iter().map(|p| f(*p)).collect::<Vec<_>>())];
        v.extend(s.holes.iter().map(|h| lines(&h.iter().map(|p| f(*p)).collect::<Vec<_>>())));
        v
    };
    match op.kind {
        0 => o.fs(&gen::knot_vector(&s.knots).bspline_basis(s.p, u)),
        1 => {
            let b = BezierCurve { control_points: s.rational.control_points.clone() };
            o.p(b.get_point(at(r)));
        }
        2 => {
            o.p(s.curve.get_point(u));
            o.p(s.bezier.get_point(at(r)));
            s.curves.iter().for_each(|c| o.p(c.get_point(u.max(0.0).min(1.0))));
        }
        3 => o.p(s.rational.get_point(u)),
        4 => {
            let d = s.curve.derivative();
            o.fs(&d.knots);
            o.p(d.get_point(u));
            o.p(s.bezier.derivative().get_point(at(r)));
        }
        5 => {
            let make = || BSplineCurve { control_points: s.pts.clone(), knots: gen::knot_vector(&s.knots), degree: s.p as u8 };
            let mut c = make();
            let inner = a + (b - a) * (1 + r.below(7)) as f64 / 8.0;
            c.add_knot(inner);
            o.fs(&c.knots);
            o.ps(&c.control_points);
            let mut c = make();
            let d = c.split(inner);
            o.ps(&c.control_points);
            o.ps(&d.control_points);
            c.clamp();
            o.fs(&c.knots);
            let mut k = gen::knot_vector(&s.knots);
            o.n(k.add_knot(inner));
            o.fs(&k.normalize());
            o.fs(&k.spans(s.p));
            o.n(k.span_index(u));
            o.fs(&KnotVector::uniform_knot(s.p, 1 + r.below(3)));
        }
        6 => s.curve.to_piecewise_bezier().iter().for_each(|c| o.ps(&c.control_points)),
        7 => {
            s.curves.iter().for_each(|c| o.f(c.project(q)));
            let e = s.curves[4].refine_parameter_range((at(r) * 6.0, at(r) * 6.0), r.chance(0.5));
            o.fs(&[e.0, e.1]);
        }
        8 => {
            o.p(s.surface.get_point(su, sv));
            s.surfaces.iter().for_each(|f| o.p(f.get_point((su - u0) / (u1 - u0), (sv - v0) / (v1 - v0))));
        }
        9 => o.p(s.rational_surface.get_point(su, sv)),
        10 => {
            let d = if r.chance(0.5) { s.surface.derivative_u() } else { s.surface.derivative_v() };
            o.p(d.get_point(su, sv));
        }
        11 => {
            let v = [Point2::new(su, sv), Point2::new(u0, v1), Point2::new((u0 + u1) * 0.5, sv)];
            o.ps(&s.surface.get_normals(&v));
            o.ps(&s.surfaces[0].get_normals(&v));
        }
        12 => {
            let patch = SurfacePatch { surface: s.surface.derivative_u(), parameter_range: s.sheet.domain(), parameter_division: (1 + r.below(4), 1 + r.below(4)) };
            o.mesh(&patch.get_triangle_mesh());
            o.ps(&patch.get_point_grid().into_vec());
            o.mesh(&patch.get_triangle_mesh().reverse_winding_direction());
        }
        13 => {
            let t = Cylinder { origin: s.shift, axis: Vec3::Z, ref_dir: Vec3::X, radius: 1.0 + s.w[0] };
            o.qs(&[t.project(q), t.project_to_ring(q, 9.0)]);
            o.p(t.generate_point_from_ring(Point2::new(1.0, 2.0), 9.0));
            let v: Vec<Point3> = (0..1 + r.below(3)).map(|_| s.sheet.eval(u0 + (u1 - u0) * at(r), v0 + (v1 - v0) * at(r))).collect();
            o.qs(&s.surface.project_points(&v));
        }
        14 => {
            let f = |p: Point2| Point3::new(p.x, p.y, s.shift.z);
            let plane = Plane { origin: s.shift, normal: Vec3::Z, u_axis: Vec3::X, v_axis: Vec3::Y };
            o.mesh(&TrimmedSurface { surface: plane, bounds: loops(&f) }.get_triangle_mesh());
        }
        15 => {
            let rad = 1.0 + s.w[0];
            let l = fine(&[Point2::new(0.2, 0.0), Point2::new(1.0 + at(r), 0.0), Point2::new(1.7, 2.0), Point2::new(0.4, 2.5)], 5);
            let l: Vec<Point3> = l.iter().map(|p| s.shift + Vec3::new(p.x.cos() * rad, p.x.sin() * rad, p.y)).collect();
            let t = Cylinder { origin: s.shift, axis: Vec3::Z, ref_dir: Vec3::X, radius: rad };
            o.mesh(&TrimmedSurface { surface: t, bounds: vec![lines(&l)] }.get_triangle_mesh());
        }
        16 => {
            let l = fine(&[Point2::new(0.2, 0.2), Point2::new(0.5 + 0.4 * at(r), 0.15), Point2::new(0.8, 0.8), Point2::new(0.3, 0.7)], 3);
            let l: Vec<Point3> = l.iter().map(|p| s.sheet.eval(u0 + (u1 - u0) * p.x, v0 + (v1 - v0) * p.y)).collect();
            let t = BSplineSurface::new(s.sheet.grid3(), (gen::knot_vector(&s.sheet.uk), gen::knot_vector(&s.sheet.vk)), (s.sheet.p, s.sheet.q));
            o.mesh(&TrimmedSurface { surface: t, bounds: vec![lines(&l)] }.get_triangle_mesh());
        }
        17 => {
            let mut pts = s.outer.clone();
            let mut marks = vec![0, pts.len()];
            for h in &s.holes {
                pts.extend(h);
                marks.push(pts.len());
            }
            let (v, t) = utils::generate_triangular_mesh(&pts, &marks);
            o.qs(&v);
            t.iter().for_each(|i| o.n(*i as usize));
        }
        18 => {
            let (mut v, mut c) = utils::compute_vertex_convexity(&s.outer);
            v.iter().for_each(|i| o.n(*i));
            c.iter().for_each(|i| o.n(*i));
            let mut t = vec![];
            c.truncate(usize::MAX);
            t.extend(utils::find_concave_vertices(&s.outer, &mut v).iter().map(|i| *i as u32));
            t.iter().for_each(|i| o.n(*i as usize));
            o.n(utils::is_polygon_counter_clockwise(&s.outer) as usize);
            let mut pts = s.outer.clone();
            let mut marks = vec![0, pts.len()];
            for h in &s.holes {
                pts.extend(h);
                marks.push(pts.len());
            }
            utils::merge_polygons(&pts, &marks).iter().for_each(|i| o.n(*i));
        }
        19 => {
            o.n(utils::find_nearest_point(&s.pts, q));
            let g = utils::find_nearest_point_in_grid(&s.sheet.grid3(), q);
            o.fs(&[g.0 as f64, g.1 as f64]);
            o.f(utils::distance_to_line_segment(s.pts[0], s.pts[1], q));
            o.fs(&utils::uniform_divide((a, b), 1 + r.below(5)));
            let m = utils::get_min_max_by_key(&s.pts, |p| p.y);
            o.fs(&[m.0, m.1, utils::clamp_in_range(u, (b, a)), utils::range_at((a, b), at(r)), utils::inv_or_zero(u)]);
        }
        20 => {
            let patch = |t: Vec3| SurfacePatch {
                surface: Plane { origin: t, normal: Vec3::Z, u_axis: Vec3::X, v_axis: s.pts[0] },
                parameter_range: ((0.0, 1.0), (0.0, 2.0)),
                parameter_division: (1 + op.arg as usize % 3, 2),
            };
            let mut m = Model::new();
            m.add_face(patch(s.shift));
            if r.chance(0.5) {
                m.add_face(patch(s.pts[1]));
            }
            let f = format!("m.obj{}", tag);
            o.file(m.save_as_obj(&f), &f);
            o.file(patch(s.shift).get_triangle_mesh().save_as_obj(&f), &f);
            let f = format!("m.stl{}", tag);
            o.file(m.save_as_stl(&f), &f);
        }
        21 => {
            let mut m: Model<TriangleMesh> = Model::new();
            for w in s.pts.windows(2) {
                let curve: Box<dyn Curve> = if s.p % 2 == 0 {
                    Box::new(Line { origin: w[0], direction: w[1] - w[0] })
                } else {
                    Box::new(Polyline::new(vec![w[0], (w[0] + w[1]) * 0.5 + Vec3::X, w[1]]))
                };
                let segments = vec![CurveSegment { curve, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 }];
                m.add_curve(Polycurve { segments });
            }
            let f = format!("m.svg{}", tag);
            o.file(m.save_as_svg(&f, (100.0 + op.arg as f64 % 3.0, 80.0)), &f);
        }
        22 => {
            let f = format!("m.xyz{}", tag);
            let r = points::save_point_cloud(&s.pts, &f);
            o.ps(&points::load_point_cloud(&f).unwrap_or_default());
            o.file(r, &f);
            o.file(points::save_points(&s.outer, &f), &f);
            o.ps(&points::scale_points(&s.pts, 0.5));
        }
        _ => {
            // a planar face with straight edges; entities are written in an order of their own
            let mut st = Step::new();
            let v: Vec<Point3> = s.outer.iter().map(|p| Point3::new(p.x, p.y, s.shift.z)).collect();
            let ids: Vec<_> = v.iter().map(|p| st.vertex(r, *p)).collect();
            let n = v.len();
            let edges: Vec<Edge> = (0..n).map(|i| sf::write_edge(&mut st, r, &Piece::Line(v[i], v[(i + 1) % n]), ids[i], ids[(i + 1) % n])).collect();
            let bound: Vec<(&Edge, bool)> = edges.iter().map(|e| (e, true)).collect();
            let bound = sf::write_bound(&mut st, r, &bound, true);
            let (plane, same) = sf::write_plane(&mut st, r, v[0], Vec3::Z);
            sf::write_face(&mut st, r, &[bound], plane, same);
            let f = format!("m.stp{}", tag);
            std::fs::write(&f, st.render(r)).unwrap();
            match StepReader::read_model(&f) {
                Ok(m) => {
                    o.n(m.faces.len());
                    for f in &m.faces {
                        o.p(f.surface.get_point(0.5, 2.0));
                        for l in &f.bounds {
                            o.ps(&l.to_polygon());
                            for e in &l.edges {
                                o.fs(&[e.parameter_range.0, e.parameter_range.1]);
                            }
                        }
                        o.mesh(&f.get_triangle_mesh());
                    }
                }
                Err(_) => o.n(0),
            }
            let _ = std::fs::remove_file(&f);
        }
    }
    o
}

fn result(op: Op, s: &Shape, tag: usize) -> u64 {
    match catch_unwind(AssertUnwindSafe(|| run(op, s, tag))) {
        Ok(b) => hash_bytes(&b.0),
        Err(_) => PANIC,
    }
}

/// Run f in a child process, with a limit on its CPU time; false if it died.
fn child(f: impl FnOnce()) -> bool {
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        sys::limit(sys::RLIMIT_CPU, 40 + sys::cpu_seconds() as u64);
        f();
        unsafe { sys::_exit(0) }
    }
    let mut status = 0;
    loop {
        let k = unsafe { sys::waitpid(pid, &mut status, 0) };
        if k == pid {
            break;
        }
        assert!(std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted, "waitpid failed");
    }
    status == 0
}

fn files() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(".").map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}

fn history(cx: &mut Ctx) -> Case {
    let seed = cx.rng.next();
    let shapes = *cx.rng.pick(&[2, 3, 6]);
    let count = 8 + cx.rng.below(MAX_OPS - 7);
    // few kinds, so that operations of one kind meet with nearly the same arguments
    let few = cx.rng.chance(0.7);
    let kinds: Vec<usize> = if few { (0..1 + cx.rng.below(4)).map(|_| cx.rng.below(KINDS.len())).collect() } else { (0..KINDS.len()).collect() };
    let args = 1 + cx.rng.below(3);
    let ops: Vec<Op> = (0..count)
        .map(|_| Op { kind: *cx.rng.pick(&kinds), shape: cx.rng.below(shapes), arg: seed.wrapping_add(cx.rng.below(args) as u64) })
        .collect();
    let mut order: Vec<usize> = (0..count).collect();
    cx.rng.shuffle(&mut order);
    let orders: Vec<Vec<usize>> = (0..THREADS)
        .map(|_| {
            let mut v = order.clone();
            cx.rng.shuffle(&mut v);
            v
        })
        .collect();
    let mut text = format!("seed {} shapes {}", seed, shapes);
    for o in &ops {
        let _ = write!(text, " {}#{}.{}", KINDS[o.kind], o.shape, o.arg.wrapping_sub(seed));
    }
    cx.input = text;
    cx.nontrivial();
    for o in &ops {
        let n = if o.kind == 5 { 2 } else { 1 };
        *cx.ops.entry(KINDS[o.kind].to_string()).or_insert(0) += n * (4 + 2 * THREADS as u64);
    }
    cx.seen_n("results compared", (count * (3 + 2 * THREADS)) as u64);
    cx.seen_n("processes", count as u64 + 3);

    // results: [0] alone, [1] in order then again, [2] shuffled, then threads twice
    let rows = 4 + 2 * THREADS;
    let page = SHARED.with(|p| *p);
    let slot = |row: usize, i: usize| unsafe { (page as *mut u64).add(row * MAX_OPS + i) };
    let flags = |i: usize| unsafe { (page as *mut u64).add(rows * MAX_OPS + i) };
    for row in 0..rows {
        for i in 0..MAX_OPS {
            unsafe { slot(row, i).write_volatile(EMPTY) }
        }
    }
    unsafe { flags(0).write_volatile(0) };
    let before = files();
    let set = |row: usize, i: usize, v: u64| unsafe { slot(row, i).write_volatile(v) };
    let get = |row: usize, i: usize| unsafe { slot(row, i).read_volatile() };
    for i in 0..count {
        // one operation and nothing else
        child(|| {
            let s = shape(seed, ops[i].shape);
            set(0, i, result(ops[i], &s, 0));
        });
    }
    let lone: Vec<u64> = (0..count).map(|i| get(0, i)).collect();
    let all = || (0..shapes).map(|k| shape(seed, k)).collect::<Vec<_>>();
    let ok = child(|| {
        let s = all();
        let shown: Vec<String> = s.iter().map(Shape::show).collect();
        for i in 0..count {
            set(1, i, result(ops[i], &s[ops[i].shape], 0));
        }
        for i in 0..count {
            set(2, i, result(ops[i], &s[ops[i].shape], 0));
        }
        if s.iter().zip(&shown).any(|(s, t)| s.show() != *t) {
            unsafe { flags(0).write_volatile(1) }
        }
    });
    let ok2 = child(|| {
        // objects come and go
        for &i in &order {
            let s = shape(seed, ops[i].shape);
            set(3, i, result(ops[i], &s, 0));
        }
    });
    let ok3 = child(|| {
        std::thread::scope(|scope| {
            for t in 0..THREADS {
                let (ops, order) = (&ops, &orders[t]);
                let base = page as usize;
                scope.spawn(move || {
                    let s: Vec<Shape> = (0..shapes).map(|k| shape(seed, k)).collect();
                    for round in 0..2 {
                        for &i in order {
                            let v = result(ops[i], &s[ops[i].shape], t + 1);
                            unsafe { (base as *mut u64).add((4 + 2 * t + round) * MAX_OPS + i).write_volatile(v) }
                        }
                    }
                });
            }
        });
    });
    let silent = lone.iter().filter(|v| **v == EMPTY).count();
    cx.seen_n("operations that panicked alone", lone.iter().filter(|v| **v == PANIC).count() as u64);
    if silent > 0 {
        // does not end or dies alone: other checks judge that
        cx.seen("operations that did not return alone");
        return Ok(());
    }
    cx.check(ok && ok2 && ok3, "history.died", || format!("a history died whose operations end alone (in order {}, shuffled {}, threads {})", ok, ok2, ok3));
    cx.check(unsafe { flags(0).read_volatile() } == 0, "history.objects", || "an object was altered by queries".into());
    let after = files();
    cx.check(before == after, "history.files", || format!("the working directory held {:?}, then {:?}", before, after));
    for row in 1..rows {
        let how = ["", "in a history", "repeated in a history", "in another order"].get(row).copied().unwrap_or("on several threads");
        for i in 0..count {
            let v = get(row, i);
            if v != EMPTY && v != lone[i] {
                cx.fail(&format!("history.{}", ["", "serial", "again", "order"].get(row).copied().unwrap_or("threads")), format!("operation {} ({} on object {}) gives another result {} than alone", i, KINDS[ops[i].kind], ops[i].shape, how));
                break;
            }
        }
    }
    Ok(())
}

thread_local! {
    static SHARED: *mut u8 = sys::anonymous_shared((4 + 2 * THREADS + 1) * MAX_OPS * 8);
}

/// The operations once more without child processes, for an interpreter that watches memory and threads.
pub fn interpret(seed: u64, count: usize) -> usize {
    let mut r = Rng::new(seed);
    let at = r.below(KINDS.len());
    let mut done = 0;
    for k in 0..count {
        let base = r.next();
        let ops: Vec<Op> = (0..2).map(|i| Op { kind: (at + 2 * k + i) % KINDS.len(), shape: i, arg: base }).collect();
        std::thread::scope(|scope| {
            for t in 0..2 {
                let ops = &ops;
                scope.spawn(move || {
                    let s: Vec<Shape> = (0..2).map(|k| shape(base, k)).collect();
                    for op in ops {
                        let _ = result(*op, &s[op.shape], t);
                    }
                });
            }
        });
        done += 4;
        println!("done {}", done);
    }
    done
}
