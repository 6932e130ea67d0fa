//! C25: what vehicles report about themselves.

use crate::driver::*;
use crate::engine::*;
use crate::ensure;
use crate::scen::*;
use crate::world::*;

/// The way after `t` seconds of full acceleration from `v` up to `top`.
fn way(v: f64, acc: f64, top: f64, t: f64) -> f64 {
    let ramp = ((top - v) / acc).min(t);
    v * ramp + 0.5 * acc * ramp * ramp + top * (t - ramp)
}

/// The time after which that way is `dist`, by bisection.
fn earliest(v: f64, acc: f64, top: f64, dist: f64) -> f64 {
    let (mut lo, mut hi) = (0.0, 1.0);
    while way(v, acc, top, hi) < dist {
        hi *= 2.0;
    }
    for _ in 0..60 {
        let m = 0.5 * (lo + hi);
        if way(v, acc, top, m) < dist {
            lo = m;
        } else {
            hi = m;
        }
    }
    hi
}

/// Every speed, distance and top speed of the grid.
fn grid(ctx: &mut Ctx, frames: usize) -> Res {
    let mut a = ctx.pick(&[CAR, TRUCK, SPORTY]);
    a.max_acc *= ctx.pick(&[1.0, 0.4, 2.5]);
    let lim = ctx.pick(&[12.0, 30.0]);
    let mut net = Net::new();
    net.line(0.0, 0.0, 2000.0, 0.0, lim);
    let mut w = net.build();
    w.add(&a, 0, Some(0));
    for _ in 0..5 * ctx.choose(frames) {
        w.step(ctx, 0.1);
    }
    let x = w.sim.get_vehicle(w.v[0]);
    let (pos, vel) = (x.pos_mid(), x.vel());
    let more = ctx.pick(&[0.0, 0.3, 2.0, 10.0, 40.0]);
    let top = if more == 0.0 && vel == 0.0 { 0.1 } else { vel + more };
    for dist in [-40.0, -1.0, 0.0, 0.1, 1.0, 3.3, 10.0, 25.0, 60.0, 140.0, 400.0] {
        let got = x.min_reach_time(pos + dist, top);
        let want = if dist > 0.0 { earliest(vel, a.max_acc, top, dist) } else { 0.0 };
        ctx.checked();
        ctx.max("error of the time (s)", (got - want).abs());
        ensure!((got - want).abs() <= 1e-6 * (1.0 + want), "with {:.2} m/s, at most {:.2} m/s and {} m/s2 it takes {:.4} s to drive {} m, not {:.4} s", vel, top, a.max_acc, want, dist, got);
    }
    if dist_ramp(vel, a.max_acc, top) > 60.0 {
        ctx.cover("still accelerating after 60 m");
    }
    ctx.state(w.hash());
    Ok(())
}

fn dist_ramp(v: f64, acc: f64, top: f64) -> f64 {
    (top * top - v * v) / (2.0 * acc)
}

/// No vehicle is anywhere before the time estimated at any earlier moment.
struct Early {
    /// Per vehicle: link, target, and the time before which it must not be there.
    marks: Vec<Vec<(usize, f64, f64)>>,
    top: f64,
}

impl Monitor for Early {
    fn step(&mut self, ctx: &mut Ctx, _sc: &Scene, before: &[Option<Snap>], w: &World, _dt: f64) -> Res {
        self.marks.resize(w.v.len(), vec![]);
        for v in 0..w.v.len() {
            let Some(s) = w.snap(v) else { continue };
            let x = w.sim.get_vehicle(w.v[v]);
            ctx.checked();
            ensure!(x.has_stopped() == (s.vel < 0.1), "v{} drives at {:.3} m/s and reports has_stopped={}", v, s.vel, x.has_stopped());
            ensure!(
                (x.pos_front() - x.pos_mid() - 0.5 * w.attr[v].length).abs() < 1e-9 && (x.pos_mid() - x.pos_rear() - 0.5 * w.attr[v].length).abs() < 1e-9,
                "v{} reaches from {:.3} to {:.3} m around {:.3} m", v, x.pos_rear(), x.pos_front(), x.pos_mid()
            );
            if x.has_stopped() {
                ctx.cover("stands");
            }
            if before[v].is_some_and(|b| b.link != s.link) {
                self.marks[v].clear();
            }
            for (link, at, t) in &self.marks[v] {
                if *link == s.link && s.pos >= *at {
                    ctx.cover("passes a mark");
                    ctx.max("earlier than estimated (s)", t - w.time);
                    ensure!(w.time >= t - 1e-6, "v{} is at {:.2} m of link {} at {:.3} s, before the earliest time {:.3} s", v, at, link, w.time, t);
                }
            }
            self.marks[v].retain(|m| s.pos < m.1);
            if self.marks[v].len() < 24 {
                for d in [0.5, 6.0, 30.0] {
                    self.marks[v].push((s.link, s.pos + d, w.time + x.min_reach_time(s.pos + d, self.top)));
                }
            }
        }
        Ok(())
    }
}

fn histories(ctx: &mut Ctx, t: bool) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let top = sc.net.links.iter().map(|l| l.1).fold(0.0, f64::max) + 1.0;
    let plan = Plan { slots: if t { 9 } else { 7 }, slot_s: 2.4, budget: if t { 3 } else { 2 }, tail_s: 6.0, every: 2, vehicles: 3, dest: true, lane: false };
    drive(ctx, &sc, &mut w, dt, &plan, &mut Now::default(), &mut Early { marks: vec![], top })
}

pub fn suites(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "grid",
            "9 kinds x 2 limits, at 30 (quick) / 60 (thorough) moments while speeding up x 5 top speeds x 11 distances",
            move |c| grid(c, if t { 60 } else { 30 }),
        )
        .reaching(&["still accelerating after 60 m"]),
        Suite::new(
            "histories",
            "9 networks x 3 step patterns x every history of at most 2 (quick) / 3 (thorough) operations at 7/9 instants; estimates made at every moment for 0.5, 6 and 30 m ahead",
            move |c| histories(c, t),
        )
        .reaching(&["passes a mark", "stands"]),
    ]
}
