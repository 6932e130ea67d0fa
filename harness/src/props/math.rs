//! C20 and C21: the geometry and the scalar helpers, over grids of arguments.

use super::pose::Truth;
use crate::engine::*;
use crate::world::*;
use crate::{ensure, fail};
use traffic_sim::cgmath::prelude::*;
use traffic_sim::math::*;
use traffic_sim::Interval;

const TS: [f64; 11] = [0.0, 0.07, 0.2, 0.25, 1.0 / 3.0, 0.5, 0.6, 0.75, 0.9, 0.97, 1.0];

fn near(a: Point2d, b: Point2d, tol: f64) -> bool {
    (a - b).magnitude() <= tol
}

/// The point of the Bézier curve, by repeated interpolation.
fn casteljau(p: &[Point2d], t: f64) -> Point2d {
    let mut q: Vec<Point2d> = p.to_vec();
    while q.len() > 1 {
        q = q.windows(2).map(|w| w[0] + (w[1] - w[0]) * t).collect();
    }
    q[0]
}

/// Derivatives of the Bézier curve: curves of differences.
fn diffs(p: &[Point2d]) -> Vec<Point2d> {
    let n = (p.len() - 1) as f64;
    p.windows(2).map(|w| Point2d::from_vec((w[1] - w[0]) * n)).collect()
}

fn grid_points(ctx: &mut Ctx, n: usize, g: &[f64]) -> Vec<Point2d> {
    let first = ctx.pick(&[pt(0.0, 0.0), pt(-3.0, 11.0)]);
    let mut p = vec![first];
    for _ in 1..n {
        let x = ctx.pick(g);
        let y = ctx.pick(g);
        p.push(pt(x, y));
    }
    p
}

/// A curve that only says where it is, so that the default derivatives are used.
struct Bare<'a, C>(&'a C);
impl<C: ParametricCurve2d> ParametricCurve2d for Bare<'_, C> {
    fn sample(&self, t: f64) -> Point2d {
        self.0.sample(t)
    }
    fn bounds(&self) -> Interval<f64> {
        self.0.bounds()
    }
}

/// The same curve with another range of parameters: `from` to `from + by`.
struct Moved<C> {
    c: C,
    from: f64,
    by: f64,
    /// Whether it states its derivative.
    smooth: bool,
}
impl<C: ParametricCurve2d> Moved<C> {
    fn own(&self, t: f64) -> f64 {
        self.c.bounds().lerp((t - self.from) / self.by)
    }
    /// The parameter of a fraction of the way.
    fn par(&self, f: f64) -> f64 {
        self.from + f * self.by
    }
}
impl<C: ParametricCurve2d> ParametricCurve2d for Moved<C> {
    fn sample(&self, t: f64) -> Point2d {
        self.c.sample(self.own(t))
    }
    fn bounds(&self) -> Interval<f64> {
        Interval::new(self.from, self.from + self.by)
    }
    fn sample_dt(&self, t: f64) -> Vector2d {
        if self.smooth {
            self.c.sample_dt(self.own(t)) * self.c.bounds().length() / self.by
        } else {
            Bare(&self.c).sample_dt(self.own(t)) * self.c.bounds().length() / self.by
        }
    }
}

/// Ranges of parameters.
const RANGES: [(f64, f64); 4] = [(0.0, 1.0), (-7.0, 3.0), (2.5, 0.5), (100.0, 40.0)];

fn moved<C: ParametricCurve2d>(ctx: &mut Ctx, c: C) -> Moved<C> {
    let (from, by) = ctx.pick(&RANGES);
    Moved { c, from, by, smooth: ctx.choose(2) == 0 }
}

fn check_samples(ctx: &mut Ctx, c: &impl ParametricCurve2d, p: &[Point2d]) -> Res {
    let b = c.bounds();
    ensure!(b.min == 0.0 && b.max == 1.0, "the curve's bounds are {:?}", b);
    let d = diffs(p);
    let size = p.iter().map(|q| q.to_vec().magnitude()).fold(1.0, f64::max);
    let mut m = Mix::new();
    for t in TS.iter().copied().chain([-0.2, 1.3]) {
        ctx.checked();
        let q = c.sample(t);
        m.f(q.x).f(q.y);
        ensure!(near(q, casteljau(p, t), 1e-9 * size), "at {} the curve is at {:?} but should be at {:?}", t, q, casteljau(p, t));
        let want = casteljau(&d, t).to_vec();
        let got = c.sample_dt(t);
        ensure!((got - want).magnitude() < 1e-8 * size, "the derivative at {} is {:?} but should be {:?}", t, got, want);
        let want2 = casteljau(&diffs(&d), t).to_vec();
        let got2 = c.sample_dt2(t);
        ensure!((got2 - want2).magnitude() < 0.01 * size, "the second derivative at {} is {:?} but should be {:?}", t, got2, want2);
        let r = &c;
        ensure!(r.sample(t) == q && (&r).sample_dt(t) == got && (&r).sample_dt2(t) == got2 && (&r).bounds() == b, "a reference to the curve differs from it");
        let bare = Bare(c);
        ensure!((bare.sample_dt(t) - want).magnitude() < 2e-2 * size, "the approximate derivative at {} is {:?} but should be {:?}", t, bare.sample_dt(t), want);
        ensure!((bare.sample_dt2(t) - want2).magnitude() < 4e-2 * size, "the approximate second derivative at {} is {:?} but should be {:?}", t, bare.sample_dt2(t), want2);
        ensure!(!t.eq(&0.0) || near(q, p[0], 1e-12), "the curve does not start at its first point");
    }
    ctx.state(m.0);
    ctx.observe(m.0);
    Ok(())
}

fn quadratic(ctx: &mut Ctx, g: &[f64]) -> Res {
    let p = grid_points(ctx, 3, g);
    let q = [p[0], p[1], p[2]];
    let c = QuadraticBezier2d::new(&q);
    check_samples(ctx, &c, &p)?;
    // Raising the degree.
    let r = CubicBezier2d::quadratic(&q);
    for t in TS {
        ctx.checked();
        ensure!(near(r.sample(t), c.sample(t), 1e-9), "as a cubic the curve is elsewhere at {}", t);
    }
    Ok(())
}

fn cubic(ctx: &mut Ctx, g: &[f64]) -> Res {
    let p = grid_points(ctx, 4, g);
    let q = [p[0], p[1], p[2], p[3]];
    let c = CubicBezier2d::new(&q);
    check_samples(ctx, &c, &p)?;
    for s in [0.0, 0.2, 0.5, 0.9, 1.0] {
        let [a, b] = c.subdivide(s);
        for t in TS {
            ctx.checked();
            ensure!(near(a.sample(t), c.sample(s * t), 1e-8), "the first part of the curve split at {} is elsewhere at {}", s, t);
            ensure!(near(b.sample(t), c.sample(s + (1.0 - s) * t), 1e-8), "the second part of the curve split at {} is elsewhere at {}", s, t);
        }
    }
    let mut r = c;
    r.reverse();
    for t in TS {
        ensure!(near(r.sample(t), c.sample(1.0 - t), 1e-9), "the reversed curve is elsewhere at {}", t);
    }
    Ok(())
}

fn segment(ctx: &mut Ctx) -> Res {
    let g = [-40.0, -3.0, 0.0, 0.4, 25.0];
    let p = grid_points(ctx, 2, &g);
    let l = LineSegment2d::from_ends(p[0], p[1]);
    let len = (p[1] - p[0]).magnitude();
    ctx.checked();
    ensure!(l.start() == p[0] && near(l.end(), p[1], 1e-9), "the segment's ends are {:?} and {:?}", l.start(), l.end());
    ensure!(l.bounds().min == 0.0 && (l.bounds().max - len).abs() < 1e-12, "the segment's bounds are {:?}", l.bounds());
    let c = CubicBezier2d::line(p[0], p[1]);
    let mut m = Mix::new();
    for t in TS {
        let want = p[0] + (p[1] - p[0]) * t;
        m.f(want.x).f(want.y);
        ensure!(near(l.sample(t * len), want, 1e-9), "the segment is at {:?} instead of {:?}", l.sample(t * len), want);
        ensure!(near(c.sample(t), want, 1e-9), "the straight cubic is at {:?} instead of {:?}", c.sample(t), want);
        if len > 0.0 {
            ensure!(l.sample_dt2(t * len).magnitude() < 1e-6, "the segment bends");
            ensure!((l.sample_dt(t * len) - (p[1] - p[0]) / len).magnitude() < 1e-9, "the segment's direction is {:?}", l.sample_dt(t * len));
        }
    }
    ctx.state(m.0);
    ctx.observe(m.0);
    if len < 0.5 {
        return Ok(());
    }
    // Projections are exact, beyond the ends too.
    let u = (p[1] - p[0]) / len;
    for t in [-7.0, -0.5, 0.0, 0.13 * len, 0.5 * len, 0.77 * len, len, len + 0.5, len + 9.0] {
        for off in [0.0, 0.3, -6.0, 40.0] {
            for t0 in [None, Some(0.0), Some(0.4 * len)] {
                ctx.checked();
                let q = p[0] + u * t + rot90(u) * off;
                let Some(x) = project_point_onto_curve(&l, q, 0.01, t0) else { fail!("a point cannot be projected onto a segment") };
                ensure!((x - t).abs() < 1e-6, "a point at {:.3} m along a segment is projected to {:.3} m", t, x);
            }
        }
    }
    Ok(())
}

/// The curves for which the foot of the perpendicular is unique and the projection well behaved:
/// gentle, with a speed that does not vary too much.
fn tame(shape: &Shape, deriv: &[Point2d]) -> bool {
    let truth = Truth::new(shape);
    let speeds: Vec<f64> = (0..=50).map(|i| casteljau(deriv, i as f64 / 50.0).to_vec().magnitude()).collect();
    let (lo, hi) = speeds.iter().fold((f64::INFINITY, 0.0f64), |a, s| (a.0.min(*s), a.1.max(*s)));
    truth.len() > 4.0 && hi < 4.0 * lo && truth.gentle() && truth.min_radius() > 12.0
}

fn check_projection<C: ParametricCurve2d>(ctx: &mut Ctx, c: &Moved<C>, d: &[Point2d]) -> Res {
    for t in [0.02, 0.12, 0.3, 0.5, 0.66, 0.81, 0.98] {
        let p = c.sample(c.par(t));
        let n = rot90(casteljau(d, t).to_vec().normalize());
        for off in [0.0, 0.5, -0.5, 3.5, -3.5] {
            let q = p + n * off;
            for t0 in [None, Some(t), Some((t + 0.1).min(0.95)), Some((t - 0.1).max(0.05))] {
                for err in [0.1, 0.001] {
                    ctx.checked();
                    let Some(x) = project_point_onto_curve(c, q, err, t0.map(|t| c.par(t))) else {
                        fail!("the point {} m beside the curve at {} of its way cannot be projected (started at {:?})", off, t, t0)
                    };
                    let far = (c.sample(x) - p).magnitude();
                    let x = (x - c.from) / c.by;
                    // The search ends when it runs over an end, if the foot is close to that end.
                    if (t < 0.1 && (-0.1..=0.0).contains(&x)) || (t > 0.9 && (1.0..=1.1).contains(&x)) {
                        continue;
                    }
                    ctx.max("error of the projection relative to the permitted one", far / err);
                    ensure!(far < 2.5 * err + 1e-6, "the point {} m beside the curve at {} of its way is projected to {} (started at {:?}), {:.4} m away; permitted {}", off, t, x, t0, far, err);
                }
            }
        }
    }
    // Points before the start and beyond the end belong to the ends.
    for (t, s) in [(0.0, -1.0), (1.0, 1.0)] {
        let u = casteljau(d, t).to_vec().normalize();
        for far in [0.5, 4.0] {
            let Some(x) = project_point_onto_curve(c, c.sample(c.par(t)) + u * s * far, 0.01, None) else { fail!("a point beyond the end cannot be projected") };
            let x = (x - c.from) / c.by;
            ensure!((x - t) * s > -1e-3, "a point {} m beyond the end {} is projected to {}", far, t, x);
        }
    }
    Ok(())
}

fn projections(ctx: &mut Ctx, deg: usize, g: &[f64]) -> Res {
    let mut p = vec![pt(0.0, 0.0)];
    for _ in 0..deg {
        let x = ctx.pick(g);
        let y = ctx.pick(g);
        p.push(pt(x, y));
    }
    let d = diffs(&p);
    let shape = if deg == 2 { Shape::Quad([0.0, 0.0, p[1].x, p[1].y, p[2].x, p[2].y]) } else { Shape::Cubic([0.0, 0.0, p[1].x, p[1].y, p[2].x, p[2].y, p[3].x, p[3].y]) };
    if !tame(&shape, &d) {
        return ctx.prune();
    }
    let mut m = Mix::new();
    for q in &p {
        m.f(q.x).f(q.y);
    }
    ctx.state(m.0);
    if deg == 2 {
        let c = moved(ctx, QuadraticBezier2d::new(&[p[0], p[1], p[2]]));
        check_projection(ctx, &c, &d)
    } else {
        let c = moved(ctx, CubicBezier2d::new(&[p[0], p[1], p[2], p[3]]));
        check_projection(ctx, &c, &d)
    }
}

/// Evenly spaced points and subdivisions.
fn spacing(ctx: &mut Ctx, deg: usize, g: &[f64]) -> Res {
    let mut p = vec![pt(0.0, 0.0)];
    for _ in 0..deg {
        let x = ctx.pick(g);
        let y = ctx.pick(g);
        p.push(pt(x, y));
    }
    let f = |k: usize| [p[k].x, p[k].y];
    let shape = match deg {
        1 => Shape::Line([0.0, 0.0, p[1].x, p[1].y]),
        2 => Shape::Quad([0.0, 0.0, f(1)[0], f(1)[1], f(2)[0], f(2)[1]]),
        _ => Shape::Cubic([0.0, 0.0, f(1)[0], f(1)[1], f(2)[0], f(2)[1], f(3)[0], f(3)[1]]),
    };
    let truth = Truth::new(&shape);
    let mut m = Mix::new();
    for q in &p {
        m.f(q.x).f(q.y);
    }
    ctx.state(m.0);
    match deg {
        1 => {
            let c = moved(ctx, LineSegment2d::from_ends(p[0], p[1]));
            subdivided(ctx, &c)?;
            even(ctx, &c, &truth, true)
        }
        2 => {
            let c = moved(ctx, QuadraticBezier2d::new(&[p[0], p[1], p[2]]));
            subdivided(ctx, &c)?;
            even(ctx, &c, &truth, false)
        }
        _ => {
            let c = moved(ctx, CubicBezier2d::new(&[p[0], p[1], p[2], p[3]]));
            subdivided(ctx, &c)?;
            even(ctx, &c, &truth, false)
        }
    }
}

fn subdivided(ctx: &mut Ctx, c: &impl ParametricCurve2d) -> Res {
    let b = c.bounds();
    for max in [0.7, 3.0, 1000.0] {
        let s: Vec<(f64, Point2d)> = subdivided_samples_along_curve(c, max).collect();
        let q = subdivided_points_along_curve(c, max);
        ctx.checked();
        ensure!(q.len() == s.len() && q.iter().zip(&s).all(|(q, s)| *q == s.1), "the points and the samples of a subdivision differ");
        ensure!(s.len() >= 2 && s[0].0 == b.min && s[s.len() - 1].0 == b.max, "the subdivision goes from {} to {}", s[0].0, s[s.len() - 1].0);
        for (t, q) in &s {
            ensure!(near(c.sample(*t), *q, 1e-9), "a point of the subdivision is off the curve");
        }
        for w in s.windows(2) {
            ensure!(w[0].0 < w[1].0 || b.length() == 0.0, "the subdivision is out of order: {} then {}", w[0].0, w[1].0);
            let d = (w[1].1 - w[0].1).magnitude();
            ensure!(d <= max + 1e-9, "two points of the subdivision are {:.4} m apart; permitted {}", d, max);
        }
        // Not needlessly fine: two neighbours together are longer, unless they are the two halves.
        if s.len() > 3 {
            let n = s.len() as f64;
            let chord: f64 = s.windows(2).map(|w| (w[1].1 - w[0].1).magnitude()).sum();
            ctx.max("points of a subdivision per needed point", n / (1.0 + chord / max));
        }
    }
    Ok(())
}

fn even(ctx: &mut Ctx, c: &impl ParametricCurve2d, truth: &Truth, straight: bool) -> Res {
    for dist in [0.5, 1.0, 2.5] {
        if truth.len() < 1e-9 || (!straight && (truth.min_radius() < 4.0 * dist || truth.closes_within(2.5 * dist))) {
            continue;
        }
        ctx.checked();
        ctx.cover("evenly spaced");
        let (q, len) = equidistant_points_along_curve(c, dist);
        let tol = if straight { 1e-9 } else { 0.02 };
        ctx.max("relative error of the length", (len / truth.len() - 1.0).abs());
        ensure!((len - truth.len()).abs() <= tol * truth.len() + 0.00101 * dist, "the length of the curve is {:.4} m, not {:.4} m", truth.len(), len);
        ensure!(near(q[0], truth.at(0.0).0, 1e-9), "the evenly spaced points do not begin at the start");
        ensure!((q.len() as f64 - 1.0) * dist >= len - 1e-6 - 0.001 * dist && (q.len() as f64 - 2.0) * dist < len, "{} points at a distance of {} m do not fit a length of {:.4} m", q.len(), dist, len);
        let mut last = 0.0;
        for (i, w) in q.windows(2).enumerate() {
            let d = (w[1] - w[0]).magnitude();
            ctx.max("relative error of the spacing", (d / dist - 1.0).abs());
            ensure!((d / dist - 1.0).abs() < 0.0101 + 1e-9, "points {} and {} are {:.4} m apart instead of {}", i, i + 1, d, dist);
            if i + 2 < q.len() {
                // On the curve, further along.
                let (x, off) = truth.nearest(w[1], last);
                ensure!(off < if straight { 1e-6 } else { 0.02 }, "point {} is {:.4} m off the curve", i + 1, off);
                ensure!(x > last, "point {} is not further along the curve", i + 1);
                last = x;
            } else {
                // The last one is one spacing towards the end.
                let end = truth.at(truth.len()).0;
                let rest = (end - w[0]).magnitude();
                ensure!(rest < 1.011 * dist && ((w[1] - w[0]).dot(end - w[0]) - d * rest).abs() < 1e-6, "the last point is not in the direction of the end");
            }
        }
    }
    Ok(())
}

/// Intersections of segments, and of links.
fn intersections(ctx: &mut Ctx) -> Res {
    let g = [-30.0, -11.0, 4.0, 27.0];
    let a = [pt(-20.0, 0.0), pt(ctx.pick(&[0.0, 15.0, 40.0]), ctx.pick(&[0.0, 9.0]))];
    let b = [pt(ctx.pick(&g), ctx.pick(&g)), pt(ctx.pick(&g), ctx.pick(&g))];
    let (u, v) = (a[1] - a[0], b[1] - b[0]);
    let det = u.perp_dot(v);
    if v.magnitude() < 1.0 || det.abs() < 0.15 * u.magnitude() * v.magnitude() {
        return ctx.prune();
    }
    let w = b[0] - a[0];
    let (s, t) = (w.perp_dot(v) / det, w.perp_dot(u) / det);
    let m = |x: f64, l: f64| (x.abs().min((x - 1.0).abs())) * l;
    // Too close to call.
    if m(s, u.magnitude()) < 0.2 || m(t, v.magnitude()) < 0.2 {
        return ctx.prune();
    }
    let meet = s > 0.0 && s < 1.0 && t > 0.0 && t < 1.0;
    let (c1, c2) = (LineSegment2d::from_ends(a[0], a[1]), LineSegment2d::from_ends(b[0], b[1]));
    ctx.checked();
    let mut mix = Mix::new();
    mix.f(s).f(t).f(det);
    ctx.state(mix.0);
    ctx.observe(mix.0);
    ctx.cover(if meet { "the segments meet" } else { "the segments do not meet" });
    check_meet(meet, intersect_curves(&c1, &c2), s * u.magnitude(), t * v.magnitude(), u, v)?;
    // With parameters that begin elsewhere.
    let (m1, m2) = (Moved { c: c1, from: 50.0, by: u.magnitude(), smooth: true }, Moved { c: c2, from: -8.0, by: v.magnitude(), smooth: true });
    check_meet(meet, intersect_curves(&m1, &m2).map(|(x, y)| (x - 50.0, y + 8.0)), s * u.magnitude(), t * v.magnitude(), u, v)?;
    // The same as links.
    let mut net = Net::new();
    net.line(a[0].x, a[0].y, a[1].x, a[1].y, 10.0);
    net.line(b[0].x, b[0].y, b[1].x, b[1].y, 10.0);
    let w = net.build();
    check_meet(meet, intersect_curves(w.sim.get_link(w.l[0]).curve(), w.sim.get_link(w.l[1]).curve()), s * u.magnitude(), t * v.magnitude(), u, v)
}

fn check_meet(meet: bool, got: Option<(f64, f64)>, s: f64, t: f64, u: Vector2d, v: Vector2d) -> Res {
    match got {
        None => ensure!(!meet, "the intersection at {:.3} m and {:.3} m is not found", s, t),
        Some((x, y)) => {
            ensure!(meet, "an intersection at {:.3} m and {:.3} m is reported, but the lines do not meet", x, y);
            let sin = (u.normalize().perp_dot(v.normalize())).abs();
            let tol = 0.03 / sin + 0.02;
            ensure!((x - s).abs() < tol && (y - t).abs() < tol, "the intersection at {:.3} m and {:.3} m is reported at {:.3} m and {:.3} m", s, t, x, y);
        }
    }
    Ok(())
}

pub fn curves(t: bool) -> Vec<Suite> {
    let q: &'static [f64] = if t { &[-20.0, -7.0, 0.0, 0.5, 1.0, 3.0, 13.0, 22.0, 40.0, 90.0] } else { &[-20.0, -7.0, 0.0, 1.0, 13.0, 40.0] };
    let c: &'static [f64] = if t { &[-25.0, -4.0, 0.0, 1.0, 11.0, 30.0] } else { &[-25.0, 0.0, 1.0, 30.0] };
    let pq: &'static [f64] = if t { &[-60.0, -45.0, -30.0, -10.0, 0.0, 12.0, 20.0, 30.0, 60.0, 80.0] } else { &[-60.0, -30.0, 0.0, 12.0, 30.0, 60.0] };
    let pc: &'static [f64] = if t { &[-50.0, -25.0, 0.0, 12.0, 30.0, 45.0, 60.0] } else { &[-50.0, 0.0, 12.0, 30.0, 60.0] };
    vec![
        Suite::new("segments", "segments with ends on a grid of 2 x 25, at 11 parameters; projections of 9 x 4 points from 3 starts", segment),
        Suite::new("quadratics", "quadratic curves with control points on a grid of 2 x 6^4 (quick) / 10^4 (thorough), at 13 parameters", move |x| quadratic(x, q)),
        Suite::new("cubics", "cubic curves with control points on a grid of 2 x 4^6 (quick) / 6^6 (thorough), at 13 parameters, split at 5", move |x| cubic(x, c)),
        Suite::new("projection-quadratics", "projections of 35 points beside and 4 beyond each well-behaved quadratic curve on a grid, from 4 starts, to 2 accuracies, with 4 ranges of the parameter and with and without stated derivatives", move |x| projections(x, 2, pq)),
        Suite::new("projection-cubics", "projections of 35 points beside and 4 beyond each well-behaved cubic curve on a grid, from 4 starts, to 2 accuracies, with 4 ranges of the parameter and with and without stated derivatives", move |x| projections(x, 3, pc)),
        Suite::new("spacing-segments", "evenly spaced and subdivided points of segments to 100 ends, 3 distances each, with 4 ranges of the parameter", |x| spacing(x, 1, &[-41.0, -3.2, -0.4, 0.0, 0.25, 0.5, 1.0, 5.05, 17.0, 60.0])),
        Suite::new("spacing-quadratics", "evenly spaced and subdivided points of quadratic curves on a grid, 3 distances each, with 4 ranges of the parameter", move |x| spacing(x, 2, pq)).reaching(&["evenly spaced"]),
        Suite::new("spacing-cubics", "evenly spaced and subdivided points of cubic curves on a grid, 3 distances each, with 4 ranges of the parameter", move |x| spacing(x, 3, pc)).reaching(&["evenly spaced"]),
        Suite::new("intersections", "6 segments x 256 segments, also as links and with other ranges of the parameter; near misses and grazing angles left out", intersections).reaching(&["the segments meet", "the segments do not meet"]),
    ]
}

/// C21: fitted cubics.
fn fit(ctx: &mut Ctx, g: &[f64]) -> Res {
    let x1 = ctx.pick(&[-50.0, 0.0, 3.0, 20.0]);
    let w = ctx.pick(&[-30.0, -1.0, 0.5, 4.0, 60.0]);
    let (y1, y2) = (ctx.pick(g), ctx.pick(g));
    let (d1, d2) = (ctx.pick(&[-2.0, 0.0, 0.3, 1.0]), ctx.pick(&[-2.0, 0.0, 0.3, 1.0]));
    let x2 = x1 + w;
    let f = CubicFn::fit(x1, y1, d1, x2, y2, d2);
    ctx.checked();
    let eq = |a: f64, b: f64| (a - b).abs() < 1e-6;
    ensure!(eq(f.y(x1), y1) && eq(f.y(x2), y2), "the cubic takes {} and {} instead of {} and {}", f.y(x1), f.y(x2), y1, y2);
    ensure!(eq(f.dy(x1), d1) && eq(f.dy(x2), d2), "the cubic has the slopes {} and {} instead of {} and {}", f.dy(x1), f.dy(x2), d1, d2);
    let mut m = Mix::new();
    for k in [-0.3, 0.0, 0.2, 0.5, 0.8, 1.0, 1.4] {
        let x = x1 + k * w;
        // Hermite's form.
        let h = (1.0 + 2.0 * k) * (1.0 - k) * (1.0 - k) * y1 + k * (1.0 - k) * (1.0 - k) * w * d1 + k * k * (3.0 - 2.0 * k) * y2 + k * k * (k - 1.0) * w * d2;
        let tol = 1e-7 * (1.0 + y1.abs() + y2.abs() + (w * d1).abs() + (w * d2).abs());
        ensure!((f.y(x) - h).abs() < tol, "the cubic is {} instead of {} at {}", f.y(x), h, x);
        let e = 1e-4 * w.abs();
        let num = (f.y(x + e) - f.y(x - e)) / (2.0 * e);
        ensure!((f.dy(x) - num).abs() < 1e-4 * (1.0 + num.abs()), "the derivative is {} instead of {} at {}", f.dy(x), num, x);
        let both = f.y_and_dy(x);
        ensure!((both.0 - f.y(x)).abs() < tol && (both.1 - f.dy(x)).abs() < tol, "value and derivative differ when asked for together");
        for s in [-7.0, 0.0, 2.5] {
            let g = f.translate_x(s);
            ensure!((g.y(x - s) - f.y(x)).abs() < tol * 10.0 && (g.dy(x - s) - f.dy(x)).abs() < 1e-5, "translated by {} the cubic is {} instead of {}", s, g.y(x - s), f.y(x));
            let h = g.translate_x(1.5);
            ensure!((h.y(x - s - 1.5) - f.y(x)).abs() < tol * 10.0, "translated twice the cubic is {} instead of {}", h.y(x - s - 1.5), f.y(x));
        }
        m.f(f.y(x));
    }
    let c = CubicFn::constant(y1);
    for x in [-1000.0, 0.0, 3.7] {
        ensure!(c.y(x) == y1 && c.dy(x) == 0.0, "the constant function is {} with slope {}", c.y(x), c.dy(x));
    }
    ctx.state(m.0);
    ctx.observe(m.0);
    Ok(())
}

/// C21: lookup tables.
fn table(ctx: &mut Ctx) -> Res {
    let min = ctx.pick(&[-37.5, -1.0, 0.0, 12.0]);
    let len = ctx.pick(&[0.75, 3.0, 10.0, 64.0]);
    let step = ctx.pick(&[0.25, 0.5, 1.0, 5.0]);
    let range = Interval::new(min, min + len);
    let mut asked = vec![];
    let lut = LookupTable::from_samples(range, step, |x| {
        asked.push(x);
        3.0 * x - 1.0
    });
    let n = (len / step).ceil() as usize;
    ctx.checked();
    ensure!(asked.len() == n, "{} samples were taken for {} cells", asked.len(), n);
    for (i, x) in asked.iter().enumerate() {
        ensure!((x - (min + (i as f64 + 0.5) * step)).abs() < 1e-9, "cell {} was sampled at {}", i, x);
    }
    let mut m = Mix::new();
    m.f(min).f(len).f(step);
    ctx.state(m.0);
    ctx.observe(m.0);
    for k in -8i32..(4 * n as i32 + 12) {
        let x = min + k as f64 * 0.25 * step;
        let cell = ((k.max(0) / 4) as usize).min(n - 1);
        let want = 3.0 * (min + (cell as f64 + 0.5) * step) - 1.0;
        let got = *lut.sample(x);
        ctx.checked();
        ensure!((got - want).abs() < 1e-9, "at {} the table returns {} instead of {}", x, got, want);
    }
    ensure!(*lut.sample(-1e12) == 3.0 * asked[0] - 1.0 && *lut.sample(1e12) == 3.0 * asked[n - 1] - 1.0, "far outside the table does not return the end cells");
    Ok(())
}

/// C21: intervals, over all pairs with ends on a grid.
fn intervals(ctx: &mut Ctx) -> Res {
    let n = 9i32;
    let a0 = ctx.choose(n as usize) as i32;
    let a1 = a0 + ctx.choose((n - a0) as usize) as i32;
    let b0 = ctx.choose(n as usize) as i32;
    let b1 = b0 + ctx.choose((n - b0) as usize) as i32;
    let f = |x: i32| 0.5 * x as f64 - 1.0;
    let a = Interval::new(f(a0), f(a1));
    let b = Interval::new(f(b0), f(b1));
    ctx.state((a0 + n * (a1 + n * (b0 + n * b1))) as u64);
    ctx.observe((a0 + a1 * 10) as u64);
    ctx.checked();
    ensure!(a.min == f(a0) && a.max == f(a1) && a.as_array() == [f(a0), f(a1)], "the interval's ends are {:?}", a);
    // The open intervals have a common point if the larger start is below the smaller end.
    let common = if a0 < a1 && b0 < b1 { a0.max(b0) < a1.min(b1) } else { a0 < b1 && b0 < a1 };
    ensure!(a.overlaps(&b) == common && b.overlaps(&a) == common, "overlap of {:?} and {:?}", a, b);
    let clear = f64::max(b.min - a.max, a.min - b.max);
    ensure!(a.clearance_with(&b) == clear && b.clearance_with(&a) == clear, "clearance of {:?} and {:?} is {}", a, b, a.clearance_with(&b));
    ensure!(a.length() == f(a1) - f(a0), "length of {:?}", a);
    ensure!(a.midpoint() == 0.5 * (f(a0) + f(a1)), "middle of {:?}", a);
    for k in -1..n + 1 {
        let x = f(k);
        ensure!(a.contains(x) == (k >= a0 && k <= a1), "containment of {} in {:?}", x, a);
        let d = if k < a0 { f(a0) - x } else if k > a1 { x - f(a1) } else { -f64::min(x - f(a0), f(a1) - x) };
        ensure!(a.distance(x) == d, "distance of {} from {:?} is {}", x, a, a.distance(x));
        let y = a.lerp(0.25 * k as f64);
        ensure!((y - (f(a0) + 0.25 * k as f64 * (f(a1) - f(a0)))).abs() < 1e-12, "interpolation in {:?}", a);
        if a1 > a0 {
            ensure!((a.inv_lerp(y) - 0.25 * k as f64).abs() < 1e-12, "inverse interpolation in {:?}", a);
        }
        let (p, q) = (a + x, a - x);
        ensure!(p.min == a.min + x && p.max == a.max + x && q.min == a.min - x && q.max == a.max - x, "shifting {:?} by {}", a, x);
        let r = f(b1) - f(b0);
        let disc = Interval::disc(x, r);
        ensure!(disc.min == x - r && disc.max == x + r, "disc of {} around {} is {:?}", r, x, disc);
    }
    if a1 > a0 {
        ensure!(a.lerp(0.0) == a.min && a.lerp(1.0) == a.max, "interpolation at the ends of {:?}", a);
    }
    let (i, j) = (Interval::new(a0, a1), Interval::new(b0, b1));
    ensure!(i.overlaps(&j) == common && i.length() == a1 - a0 && i.contains(b0) == (b0 >= a0 && b0 <= a1), "interval of integers {:?}", i);
    ensure!((i == j) == (a0 == b0 && a1 == b1), "equality of {:?} and {:?}", i, j);
    Ok(())
}

/// C21: vectors.
fn vectors(ctx: &mut Ctx) -> Res {
    let g = [-3.0, -0.5, 0.0, 1.0, 4.0];
    let v = Vector2d::new(ctx.pick(&g), ctx.pick(&g));
    let dv = Vector2d::new(ctx.pick(&g), ctx.pick(&g));
    ctx.checked();
    let r = rot90(v);
    ensure!(r.x == -v.y && r.y == v.x, "{:?} turned is {:?}", v, r);
    let mut m = Mix::new();
    m.f(v.x).f(v.y).f(dv.x).f(dv.y);
    ctx.state(m.0);
    ctx.observe(m.0);
    if v.magnitude() > 0.0 {
        let (s, ds) = normalize_with_derivative(v, dv);
        ensure!((s.magnitude() - 1.0).abs() < 1e-12 && s.perp_dot(v).abs() < 1e-9 && s.dot(v) > 0.0, "{:?} normalised is {:?}", v, s);
        let e = 1e-6;
        let num = ((v + dv * e).normalize() - (v - dv * e).normalize()) / (2.0 * e);
        ensure!((ds - num).magnitude() < 1e-6 * (1.0 + num.magnitude()), "the derivative of the normalised vector is {:?} instead of {:?}", ds, num);
        // Local coordinates: an orthonormal frame, and a point given in it.
        let (ux, uy) = (s, rot90(s));
        for (a, b) in [(0.0, 0.0), (3.0, -2.0), (-7.5, 0.25)] {
            for o in [pt(0.0, 0.0), pt(-11.0, 4.0)] {
                let q = project_local(o + ux * a + uy * b, o, ux, uy);
                ensure!((q.x - a).abs() < 1e-9 && (q.y - b).abs() < 1e-9, "({}, {}) in the local frame is found at {:?}", a, b, q);
            }
        }
    }
    Ok(())
}

pub fn scalars(t: bool) -> Vec<Suite> {
    let g: &'static [f64] = if t { &[-40.0, -3.5, 0.0, 1.0, 3.5, 12.0] } else { &[-3.5, 0.0, 1.0, 12.0] };
    vec![
        Suite::new("cubic-functions", "fits to 4 places x 5 widths x 4^2 (quick) / 6^2 (thorough) values x 4^2 slopes, at 7 arguments, 3 translations", move |x| fit(x, g)),
        Suite::new("lookup-tables", "4 starts x 4 lengths x 4 steps, at every quarter of a cell from 2 cells before to 2 beyond", table),
        Suite::new("intervals", "all pairs of intervals with ends on a grid of 9 points, and all points of the grid", intervals),
        Suite::new("vectors", "all pairs of vectors on a grid of 5 x 5", vectors),
    ]
}
