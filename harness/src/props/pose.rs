//! C16: where vehicles are in the world.

use crate::driver::*;
use crate::engine::*;
use crate::ensure;
use crate::scen::*;
use crate::world::*;
use traffic_sim::cgmath::prelude::*;
use traffic_sim::math::{Point2d, Vector2d};

/// The true curve, from its definition.
fn point(s: &Shape, t: f64) -> Point2d {
    let u = 1.0 - t;
    match s {
        Shape::Line(p) => pt(u * p[0] + t * p[2], u * p[1] + t * p[3]),
        Shape::Quad(p) => {
            let f = |i: usize| u * u * p[i] + 2.0 * u * t * p[2 + i] + t * t * p[4 + i];
            pt(f(0), f(1))
        }
        Shape::Cubic(p) => {
            let f = |i: usize| u * u * u * p[i] + 3.0 * u * u * t * p[2 + i] + 3.0 * u * t * t * p[4 + i] + t * t * t * p[6 + i];
            pt(f(0), f(1))
        }
        Shape::Arc([x, y, r, a0, a1, _, _]) => {
            let a = u * a0 + t * a1;
            pt(x + r * a.cos(), y + r * a.sin())
        }
    }
}

/// A fine polyline with its cumulative length.
pub struct Truth {
    pts: Vec<(f64, Point2d)>,
}

impl Truth {
    pub fn new(s: &Shape) -> Truth {
        let n = if matches!(s, Shape::Line(_)) { 64 } else { 1200 };
        let mut pts = vec![(0.0, point(s, 0.0))];
        for i in 1..=n {
            let p = point(s, i as f64 / n as f64);
            let (l, q) = pts[i - 1];
            pts.push((l + (p - q).magnitude(), p));
        }
        Truth { pts }
    }
    pub fn len(&self) -> f64 {
        self.pts[self.pts.len() - 1].0
    }
    /// The point and tangent at arc length `x`.
    pub fn at(&self, x: f64) -> (Point2d, Vector2d) {
        let x = x.clamp(0.0, self.len());
        let i = self.pts.partition_point(|p| p.0 < x).clamp(1, self.pts.len() - 1);
        let (a, b) = (self.pts[i - 1], self.pts[i]);
        let f = (x - a.0) / (b.0 - a.0);
        (a.1 + (b.1 - a.1) * f, (b.1 - a.1).normalize())
    }
    /// The smallest radius of curvature, by finite differences.
    pub fn min_radius(&self) -> f64 {
        let mut r = f64::INFINITY;
        let k = 8;
        for i in (k..self.pts.len() - k).step_by(2) {
            let (a, b, c) = (self.pts[i - k], self.pts[i], self.pts[i + k]);
            let d1 = (b.1 - a.1).normalize();
            let d2 = (c.1 - b.1).normalize();
            let turn = d1.angle(d2).0.abs();
            let ds = 0.5 * (c.0 - a.0);
            r = f64::min(r, ds / turn.max(1e-12));
        }
        r
    }
    /// Whether the curve heads within 60 degrees of its end throughout.
    pub fn gentle(&self) -> bool {
        let chord = (self.pts[self.pts.len() - 1].1 - self.pts[0].1).normalize();
        self.pts.windows(2).all(|w| (w[1].1 - w[0].1).normalize().dot(chord) > 0.5)
    }
    /// Whether the curve comes back close to its end (the step of the sampling is 0.5 m).
    fn closes(&self) -> bool {
        self.closes_within(1.5)
    }
    pub fn closes_within(&self, d: f64) -> bool {
        let end = self.pts[self.pts.len() - 1].1;
        self.pts.iter().any(|(l, p)| *l < self.len() - 2.0 * d && (*p - end).magnitude() < d)
    }
    /// The arc length of the nearest point from `from` on (within 8 m), and its distance.
    pub fn nearest(&self, q: Point2d, from: f64) -> (f64, f64) {
        let i = self.pts.partition_point(|p| p.0 < from).max(1) - 1;
        let mut best = (from, f64::INFINITY);
        for w in self.pts[i..].windows(2) {
            if w[0].0 > from + 8.0 {
                break;
            }
            let v = w[1].1 - w[0].1;
            let f = if v.magnitude2() > 0.0 { ((q - w[0].1).dot(v) / v.magnitude2()).clamp(0.0, 1.0) } else { 0.0 };
            let d = (w[0].1 + v * f - q).magnitude();
            if d < best.1 {
                best = (w[0].0 + f * (w[1].0 - w[0].0), d);
            }
        }
        best
    }
}

/// Compares a link's curve with its definition.
fn check_curve(ctx: &mut Ctx, shape: &Shape) -> Res {
    let truth = Truth::new(shape);
    if truth.len() < 1.2 {
        return ctx.prune();
    }
    if !matches!(shape, Shape::Line(_)) && (truth.min_radius() < 6.0 || truth.closes()) {
        return ctx.prune();
    }
    let mut net = Net::new();
    net.links.push((*shape, 10.0));
    let w = net.build();
    let l = w.sim.get_link(w.l[0]);
    let c = l.curve();
    ctx.checked();
    // The spacing of the sampled points is accurate to a percent.
    let tight = matches!(shape, Shape::Line(_));
    let rel = if tight { 1e-9 } else { 0.008 };
    let err = (l.length() - truth.len()).abs();
    ctx.max("relative error of the length", err / truth.len());
    ensure!(err <= rel * truth.len() + 1e-3, "the link is {:.4} m long but its curve {:.4} m", l.length(), truth.len());
    ensure!((c.length() - l.length()).abs() < 1e-12, "the link and its curve differ in length");
    ensure!((c.sample_centre(0.0).pos - truth.at(0.0).0).magnitude() < 1e-6, "the link does not start where its curve starts");
    let n = (l.length() / 0.7).ceil() as usize;
    let mut prev: Option<Point2d> = None;
    // On a curve that turns back there may be several feet of the perpendicular.
    let gentle = truth.gentle();
    let mut m = Mix::new();
    for i in 0..=n {
        let x = l.length() * i as f64 / n as f64;
        let s = c.sample_centre(x);
        let (p, t) = truth.at(x * truth.len() / l.length());
        let d = (s.pos - p).magnitude();
        // Distance from the true curve, and along it.
        let lat = (s.pos - p).dot(Vector2d::new(-t.y, t.x)).abs();
        ctx.max("distance from the curve (m)", d);
        ctx.max("distance beside the curve (m)", lat);
        ctx.checked();
        m.f(s.pos.x).f(s.pos.y);
        let tol = if tight { 1e-6 } else { 0.03 + 0.02 * x.min(l.length() - x) };
        ensure!(d <= tol, "at {:.2} m the link is {:.4} m off its curve", x, d);
        ensure!(lat <= if tight { 1e-6 } else { 0.01 }, "at {:.2} m the link is {:.4} m beside its curve", x, lat);
        ensure!((s.tan.magnitude() - 1.0).abs() < 1e-9, "the tangent at {:.2} m is not a unit vector", x);
        let a = s.tan.angle(t).0.abs();
        ctx.max("error of the tangent (rad)", a);
        ensure!(a <= if tight { 1e-6 } else { 0.06 }, "the tangent at {:.2} m is off by {:.4} rad", x, a);
        // Offsets are perpendicular, to the left for positive values.
        let o = c.sample(x, 2.0).pos;
        ensure!((o - (s.pos + Vector2d::new(-s.tan.y, s.tan.x) * 2.0)).magnitude() < 1e-9, "the point beside the link at {:.2} m is wrong", x);
        if let Some(q) = prev {
            let step = (s.pos - q).magnitude();
            let want = l.length() / n as f64;
            ctx.max("relative error of the spacing", (step / want - 1.0).abs());
            ensure!((step / want - 1.0).abs() < if tight { 1e-6 } else { 0.03 }, "{:.4} m of the link at {:.2} m are {:.4} m in the world", want, x, step);
        }
        prev = Some(s.pos);
        // The slope of a line across the road, as its offset per metre of the road.
        if gentle && x > 0.6 && x < l.length() - 0.6 && i % 4 == 1 {
            for off in [0.0, 2.0, -2.0] {
                let q = c.sample(x, off);
                let h = 0.3;
                let along = (c.sample(x + h, off).pos - c.sample(x - h, off).pos) / (2.0 * h);
                let left = Vector2d::new(-q.tan.y, q.tan.x);
                for ang in [-0.6f64, -0.15, 0.3] {
                    let dir = q.tan * ang.cos() + left * ang.sin();
                    if let Some((x2, off2, slope)) = c.inverse_sample(q.pos, dir) {
                        if (x2 - x).abs() < 0.05 && (off2 - off).abs() < 0.02 {
                            let want = along.dot(q.tan) * ang.tan() - along.dot(left);
                            ctx.max("error of the slope", (slope - want).abs());
                            ctx.checked();
                            ensure!((slope - want).abs() <= if tight { 1e-6 } else { 0.1 }, "a line at {} rad to the link at {:.2} m, {} m beside it, has slope {:.4} instead of {:.4}", ang, x, off, slope, want);
                        }
                    }
                }
            }
        }
        // And back.
        if gentle && x > 0.1 && x < l.length() - 0.1 && i % 3 == 0 {
            for off in [0.0, 1.7, -1.7] {
                let q = c.sample(x, off);
                match c.inverse_sample(q.pos, q.tan) {
                    None => crate::fail!("the point beside the link at {:.2} m cannot be found again", x),
                    Some((x2, off2, slope)) => {
                        let bad = (x2 - x).abs() > 0.05 || (off2 - off).abs() > 0.02 || slope.abs() > 0.06;
                        let near = (c.sample(x2, off2).pos - q.pos).magnitude() < 0.02 && x2 >= 0.0 && x2 <= l.length();
                        ctx.max("error of the way back (m)", if near { 0.0 } else { (x2 - x).abs() });
                        // Another foot of the perpendicular is just as good.
                        ensure!(!bad || near, "the point {} m beside the link at {:.3} m is found at {:.3} m, {:.3} m beside", off, x, x2, off2);
                    }
                }
            }
        }
    }
    ctx.state(m.0);
    ctx.observe(m.0);
    Ok(())
}

fn lines(ctx: &mut Ctx) -> Res {
    let g = [-31.0, -7.5, 0.0, 2.3, 40.0];
    let (x0, y0) = ctx.pick(&[(0.0, 0.0), (-13.0, 55.5)]);
    let dx = ctx.pick(&g);
    let dy = ctx.pick(&g);
    let k = ctx.pick(&[1.0, 0.13, 1.017]);
    check_curve(ctx, &Shape::Line([x0, y0, x0 + k * dx, y0 + k * dy]))
}

fn quads(ctx: &mut Ctx, g: &[f64]) -> Res {
    let mut p = [0.0; 6];
    for x in p.iter_mut().skip(2) {
        *x = ctx.pick(g);
    }
    check_curve(ctx, &Shape::Quad(p))
}

fn cubics(ctx: &mut Ctx, g: &[f64]) -> Res {
    let mut p = [0.0; 8];
    for x in p.iter_mut().skip(2) {
        *x = ctx.pick(g);
    }
    check_curve(ctx, &Shape::Cubic(p))
}

/// Curves defined by the user, with a parameter that may begin anywhere.
fn arcs(ctx: &mut Ctx) -> Res {
    let r = ctx.pick(&[7.0, 15.0, 60.0, 250.0]);
    let a0 = ctx.pick(&[0.0, 2.0, -1.3]);
    let turn = ctx.pick(&[0.3, 1.0, 1.57, 3.0]) * ctx.pick(&[1.0, -1.0]);
    let (from, by) = ctx.pick(&[(0.0, 1.0), (5.0, 2.0), (-30.0, 11.0), (-0.5, 0.25)]);
    check_curve(ctx, &Shape::Arc([3.0, -8.0, r, a0, a0 + turn, from, by]))
}

/// Vehicles are on the centre line, heading along the road.
struct OnRoad {
    truths: Vec<Truth>,
    /// The tightest bend.
    radius: f64,
    /// Vehicles that have changed lanes are left out until they have settled.
    until: Vec<f64>,
    /// Per vehicle: distance since it was added.
    fresh: Vec<f64>,
}

impl OnRoad {
    fn new(sc: &Scene) -> OnRoad {
        let truths: Vec<Truth> = sc.net.links.iter().map(|l| Truth::new(&l.0)).collect();
        let bends = truths.iter().zip(&sc.net.links).filter(|(_, l)| !matches!(l.0, Shape::Line(_)));
        let radius = bends.map(|(t, _)| t.min_radius()).fold(f64::INFINITY, f64::min);
        OnRoad { truths, radius, until: vec![], fresh: vec![] }
    }
}

impl Monitor for OnRoad {
    fn op(&mut self, _ctx: &mut Ctx, _sc: &Scene, w: &World, op: &Op) -> Res {
        if let Op::Lane(v, _, dist) = *op {
            self.until.resize(w.v.len(), 0.0);
            self.fresh.resize(w.v.len(), 0.0);
            self.until[v] = dist + 1.0;
            self.fresh[v] = 0.0;
        }
        Ok(())
    }

    fn step(&mut self, ctx: &mut Ctx, sc: &Scene, before: &[Option<Snap>], w: &World, _dt: f64) -> Res {
        self.until.resize(w.v.len(), 0.0);
        self.fresh.resize(w.v.len(), 0.0);
        for (v, a) in before.iter().enumerate() {
            let (Some(a), Some(b)) = (a, w.snap(v)) else { continue };
            if sc.same_group(a.link, b.link) {
                self.until[v] = 60.0;
            }
            self.until[v] -= (b.p - a.p).magnitude();
            if self.until[v] > 0.0 {
                self.fresh[v] = 0.0;
                continue;
            }
            ctx.checked();
            if a.vel == 0.0 && b.vel == 0.0 && a.link == b.link && a.pos == b.pos && self.fresh[v] != 0.0 {
                ctx.cover("stands");
                let turn = a.d.angle(b.d).0.abs();
                ensure!((b.p - a.p).magnitude() < 1e-6 && turn < 1e-6, "v{} turns by {:.4} rad while it stands", v, turn);
            }
            let x = w.sim.get_vehicle(w.v[v]);
            let l = w.sim.get_link(w.l[b.link]);
            let c = l.curve().sample_centre(b.pos);
            ensure!((c.pos - b.p).magnitude() < 1e-6, "v{} is {:.4} m away from position {:.3} m of link {}", v, (c.pos - b.p).magnitude(), b.pos, b.link);
            let truth = &self.truths[b.link];
            let (p, t) = truth.at(b.pos * truth.len() / l.length());
            let d = (p - b.p).magnitude();
            ctx.max("distance from the curve (m)", d);
            ensure!(d < 0.15, "v{} is {:.3} m away from position {:.3} m of the curve of link {}", v, d, b.pos, b.link);
            ensure!((b.d.magnitude() - 1.0).abs() < 1e-9, "v{}'s heading is not a unit vector", v);
            let ang = t.angle(b.d).0.abs();
            ctx.max("heading off the road (rad)", ang);
            // The axle behind the middle trails, so the heading lags in a bend.
            let wheel_base = KINDS.iter().find(|k| (k.length - 2.0 * b.half_len).abs() < 1e-9).map_or(6.0, |k| k.wheel_base);
            let lag = ((wheel_base + (b.p - a.p).magnitude()) / self.radius).min(1.0).asin();
            ctx.max("heading off the road beyond the lag (rad)", ang - lag);
            ensure!(ang < lag + 0.12, "v{} heads {:.3} rad away from the road", v, ang);
            let straight = matches!(sc.net.links[b.link].0, Shape::Line(_));
            if straight {
                self.fresh[v] += (b.p - a.p).magnitude();
            } else {
                self.fresh[v] = 0.0;
                ctx.cover("drives on a curve");
            }
            if straight && self.fresh[v] > 40.0 {
                ctx.max("heading off a straight road (rad)", ang);
                ensure!(ang < 0.02, "v{} heads {:.4} rad away from a straight road", v, ang);
            }
            // The line behind the vehicle.
            let r = x.rear_coords();
            let mid = c.pos - c.tan * b.half_len;
            let lat = |q: Point2d| (q - mid).dot(Vector2d::new(-c.tan.y, c.tan.x));
            let lon = |q: Point2d| (q - mid).dot(c.tan);
            for q in r {
                ensure!(lon(q).abs() < 1e-6, "v{}'s rear line is {:.4} m off its rear", v, lon(q));
            }
            let (lo, hi) = (lat(r[0]).min(lat(r[1])), lat(r[0]).max(lat(r[1])));
            let wide = b.half_len * c.tan.angle(b.d).0.sin().abs();
            ensure!(lo <= -b.half_wid + 1e-6 && hi >= b.half_wid - 1e-6, "v{}'s rear line does not cover its width: {:.3} to {:.3} m", v, lo, hi);
            // It covers the rear of the body, on whichever side of the centre line it sticks out.
            let tail = lat(b.p - b.d * b.half_len);
            ensure!(tail - b.half_wid > lo - 1e-3 && tail + b.half_wid < hi + 1e-3, "v{}'s rear is {:.3} m beside the road but its rear line reaches from {:.3} to {:.3} m", v, tail, lo, hi);
            ensure!(hi - lo <= 2.0 * b.half_wid + wide + 1e-6, "v{}'s rear line is {:.3} m wide", v, hi - lo);
            ensure!((x.pos_front() - b.front()).abs() < 1e-9 && (x.pos_rear() - b.rear()).abs() < 1e-9, "v{}'s ends are not half its length from its middle", v);
        }
        Ok(())
    }
}

fn on_road(ctx: &mut Ctx, t: bool) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.25), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let plan = Plan { slots: 7, slot_s: 2.0, budget: 3 + t as usize, tail_s: 12.0, every: 2, vehicles: 3, dest: true, lane: true };
    let mut m = OnRoad::new(&sc);
    drive(ctx, &sc, &mut w, dt, &plan, &mut Now::default(), &mut m)
}

pub fn suites(t: bool) -> Vec<Suite> {
    let q: &'static [f64] = if t { &[-60.0, -35.0, -15.0, 0.0, 15.0, 35.0, 60.0] } else { &[-50.0, -20.0, 0.0, 20.0, 50.0] };
    let c: &'static [f64] = if t { &[-45.0, -15.0, 0.0, 15.0, 45.0] } else { &[-40.0, 0.0, 15.0, 40.0] };
    vec![
        Suite::new("lines", "straight links: 2 starts x 25 directions x 3 scales", lines),
        Suite::new(
            "quadratics",
            "quadratic curves from the origin with both other control points on a grid of 5x5 (quick) / 7x7 (thorough); curves with a radius under 6 m or returning to their end are left out",
            move |x| quads(x, q),
        ),
        Suite::new(
            "cubics",
            "cubic curves from the origin with all other control points on a grid of 4x4 (quick) / 5x5 (thorough); curves with a radius under 6 m or returning to their end are left out",
            move |x| cubics(x, c),
        ),
        Suite::new("arcs", "user-defined arcs: 4 radii x 3 starts x 8 angles x 4 ranges of the parameter", arcs),
        Suite::new(
            "histories",
            "9 networks x 3 step patterns x every history of at most 3 (quick) / 4 (thorough) operations at 7 instants",
            move |x| on_road(x, t),
        )
        .reaching(&["drives on a curve"]),
    ]
}
