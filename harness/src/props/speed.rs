//! C09: speed limits.

use crate::driver::*;
use crate::engine::*;
use crate::ensure;
use crate::scen::*;
use crate::world::*;
use traffic_sim::VehicleAttributes;

/// How far (m/s) a limit may be exceeded in the first seconds on a slower link: accelerations are
/// held for the update interval, and the braking converges on the boundary itself.
const OVER_ENTRY: f64 = 1.6;
/// How far a limit may be exceeded otherwise.
const OVER: f64 = 0.3;
const SETTLE_S: f64 = 3.0;

#[derive(Default)]
struct Limits {
    /// Per vehicle: time since it entered its link.
    since: Vec<f64>,
}

impl Monitor for Limits {
    fn step(&mut self, ctx: &mut Ctx, sc: &Scene, before: &[Option<Snap>], w: &World, dt: f64) -> Res {
        self.since.resize(w.v.len(), SETTLE_S);
        for v in 0..w.v.len() {
            let Some(s) = w.snap(v) else { continue };
            ctx.checked();
            let lim = sc.net.links[s.link].1;
            self.since[v] += dt;
            if before[v].is_some_and(|b| b.link != s.link && sc.net.links[b.link].1 > lim) {
                ctx.cover("enters a slower link");
                self.since[v] = 0.0;
            }
            let over = if self.since[v] < SETTLE_S {
                ctx.max("excess over the limit after entering (m/s)", s.vel - lim);
                OVER_ENTRY
            } else {
                ctx.max("excess over the limit (m/s)", s.vel - lim);
                OVER
            };
            ensure!(s.vel <= lim + over, "v{} drives at {:.3} m/s on link {} whose limit is {} m/s", v, s.vel, s.link, lim);
        }
        Ok(())
    }
}

/// The time an ideal driver needs from rest at 0: full acceleration, comfortable braking.
fn ideal(lens: &[f64], lims: &[f64], a: &VehicleAttributes) -> f64 {
    let ds = 0.25;
    let total: f64 = lens.iter().sum();
    let n = (total / ds) as usize;
    let lim = |i: usize| {
        let mut x = i as f64 * ds;
        for (l, v) in lens.iter().zip(lims) {
            if x < *l {
                return *v;
            }
            x -= l;
        }
        *lims.last().unwrap()
    };
    let mut v: Vec<f64> = (0..=n).map(lim).collect();
    v[0] = 0.0;
    for i in 1..=n {
        v[i] = v[i].min((v[i - 1] * v[i - 1] + 2.0 * a.max_acc * ds).sqrt());
    }
    for i in (1..n).rev() {
        v[i] = v[i].min((v[i + 1] * v[i + 1] + 2.0 * a.comf_dec * ds).sqrt());
    }
    (1..=n).map(|i| ds / (0.5 * (v[i] + v[i - 1]))).sum()
}

/// A lone vehicle on a chain of links with every combination of limits and lengths.
fn profile(ctx: &mut Ctx, n: usize, shapes: &[f64]) -> Res {
    let menu = [6.0, 13.0, 22.0];
    let mut lens = vec![];
    let mut lims = vec![];
    for _ in 0..n {
        lims.push(ctx.pick(&menu));
        lens.push(ctx.pick(shapes));
    }
    lens[0] = lens[0].max(30.0);
    let attr = kind(ctx);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let net = chain(&lens, &lims);
    let sc = Scene { net, trips: vec![(0, n - 1)], closable: vec![], lanes: vec![], dests: vec![] };
    let mut w = sc.net.build();
    w.add(&attr, 0, Some(n - 1));
    let t0 = ideal(&lens, &lims, &attr);
    let mut m = Limits::default();
    let mut f = 0;
    while w.alive(0) {
        let before = w.snaps();
        w.step(ctx, dt.at(f));
        f += 1;
        m.step(ctx, &sc, &before, &w, dt.at(f - 1))?;
        if f % 20 == 0 {
            ctx.state(w.hash());
        }
        let ratio = w.time / t0;
        ensure!(ratio <= SLACK, "the trip takes more than {:.2} times the {:.1} s an ideal driver needs: {}", SLACK, t0, w.describe());
    }
    ctx.max("travel time / ideal travel time", w.time / t0);
    ctx.state(w.hash() ^ (w.time * 1000.0) as u64);
    ctx.observe((w.time * 1e6) as u64);
    Ok(())
}

/// A trip takes at most this many times an ideal driver's time.
const SLACK: f64 = 1.25;

/// On a long link the limit is reached and held.
fn reached(ctx: &mut Ctx) -> Res {
    let lim = ctx.pick(&[3.0, 6.0, 9.0, 13.0, 18.0, 22.0, 30.0, 36.0]);
    let next = ctx.pick(&[0.2, 0.35, 0.5, 1.0, 1.5]);
    if next * lim < 3.0 {
        return ctx.prune();
    }
    let attr = kind(ctx);
    let dt = ctx.pick(&DTS);
    // Beyond this the drop cannot be braked off within the five seconds that vehicles look ahead,
    // at twice their comfortable deceleration.
    if lim - next * next * lim > 18.0 * attr.comf_dec {
        return ctx.prune();
    }
    let d1 = 3.0 * lim * lim / attr.max_acc + 50.0;
    let d2 = 20.0 * lim + 300.0 + 2.0 * lim * lim / attr.max_acc;
    let net = chain(&[d1, d2], &[lim, next * lim]);
    let mut w = net.build();
    w.add(&attr, 0, Some(1));
    let mut f = 0;
    let mut up = false;
    let mut held = 0.0;
    let mut on2 = 0.0;
    while let Some(s) = w.snap(0) {
        let l = if s.link == 0 { lim } else { next * lim };
        if s.link == 1 && on2 < SETTLE_S {
            ctx.max("excess over the limit after entering (m/s)", s.vel - l);
        } else {
            ctx.max("excess over the limit (m/s)", s.vel - l);
        }
        ensure!(s.vel <= l + if s.link == 1 && on2 < SETTLE_S { OVER_ENTRY } else { OVER }, "{:.3} m/s where the limit is {} m/s", s.vel, l);
        ctx.checked();
        if s.link == 0 {
            if s.vel > 0.97 * lim {
                up = true;
            }
            // The approach to a slower link begins at the comfortable braking distance.
            let brake = (lim * lim * (1.0 - next * next) / (2.0 * attr.comf_dec)).max(0.0) + 0.5 * lim + 5.0;
            let approaching = s.pos + brake > d1;
            if up && !approaching {
                held += dt.at(f);
                ensure!(s.vel > 0.97 * lim, "the speed falls to {:.3} m/s on a free road with a limit of {} m/s", s.vel, lim);
            }
        } else {
            on2 += dt.at(f);
            if on2 > 2.0 + 3.5 * l / attr.max_acc {
                ensure!(s.vel > 0.97 * l, "after {:.1} s on a free road with a limit of {:.1} m/s the speed is {:.3} m/s", on2, l, s.vel);
                ctx.cover("holds the second limit");
            }
        }
        w.step(ctx, dt.at(f));
        f += 1;
    }
    ensure!(up, "the limit of {} m/s is not reached within {:.0} m", lim, d1);
    if held > 1.0 {
        ctx.cover("holds the first limit");
    }
    ctx.state(w.hash());
    ctx.observe((w.time * 1e6) as u64);
    Ok(())
}

fn histories(ctx: &mut Ctx, t: bool) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let plan = Plan { slots: 7, slot_s: 2.0, budget: 3 + t as usize, tail_s: 8.0, every: 2, vehicles: 3, dest: true, lane: true };
    drive(ctx, &sc, &mut w, dt, &plan, &mut Now::default(), &mut Limits::default())
}

pub fn suites(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "profiles",
            "a lone vehicle on every chain of 4 (quick) / 5 (thorough) links with limits of 6, 13 or 22 m/s and lengths of 6, 25 or 70 m; 3 kinds x 2 step patterns",
            move |c| profile(c, if t { 5 } else { 4 }, &[6.0, 25.0, 70.0]),
        )
        .reaching(&["enters a slower link"]),
        Suite::new(
            "reached-and-held",
            "8 limits x 5 following limits x 3 kinds x 4 step patterns on long links",
            reached,
        )
        .reaching(&["holds the first limit", "holds the second limit"]),
        Suite::new(
            "histories",
            "9 networks x 2 step patterns x every history of at most 3 (quick) / 4 (thorough) operations at 7 instants",
            move |c| histories(c, t),
        ),
    ]
}
