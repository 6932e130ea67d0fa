//! C30: nobody waits longer than necessary.

use crate::engine::*;
use crate::props::junction::{start_free, yield_net};
use crate::scen::*;
use crate::world::*;
use crate::{ensure, fail};
use traffic_sim::{TrafficControl, VehicleAttributes};

/// What ends the waiting of a queue.
#[derive(Clone, Copy, PartialEq)]
enum Cause {
    Opened,
    Released,
    Removed,
    Signal,
}

const CALM_TRUCK: VehicleAttributes = VehicleAttributes { headway: 2.0, ..TRUCK };

/// A queue that has come to a standstill starts again.
fn restart(ctx: &mut Ctx, most: usize) -> Res {
    let cause = ctx.pick(&[Cause::Opened, Cause::Released, Cause::Removed, Cause::Signal]);
    let lim = ctx.pick(&[7.0, 15.0]);
    let dt = ctx.pick(&DTS);
    let kinds: &[VehicleAttributes] = ctx.pick(&[&[CAR] as &[_], &[TRUCK, CAR], &[CAR, SPORTY], &[CALM_TRUCK]]);
    let n = 2 + ctx.choose(most - 1);
    let at = ctx.pick(&[181.0, 187.3]);
    let lens: Vec<f64> = match ctx.choose(4) {
        0 => vec![at, 200.0],
        1 => vec![at - 40.0, 25.0, 15.0, 200.0],
        2 => vec![at - 18.0, 6.0, 6.0, 6.0, 200.0],
        _ => vec![60.0, at - 60.0, 200.0],
    };
    let later = ctx.choose(4);
    let last = lens.len() - 1;
    let mut net = chain(&lens, &[lim]);
    match cause {
        Cause::Opened => net.controls.push((last, CLOSED)),
        Cause::Signal => net.lights.push(LightSpec {
            movements: vec![
                MoveSpec { conflict: 2, amber: 3.0, red: 2.0, links: vec![last] },
                MoveSpec { conflict: 1, amber: 3.0, red: 2.0, links: vec![] },
            ],
            phases: vec![(2, 150.3), (1, 500.0)],
        }),
        _ => {}
    }
    let mut w = net.build();
    let mut frame = 0;
    let standing = |w: &World| w.snaps().iter().flatten().all(|s| s.vel < 0.02);
    // The head of the queue stops at the line, or is halted near it.
    while w.time < 150.0 {
        if w.v.len() < n && start_free(&w, 0, 12.0) {
            w.add(&kinds[w.v.len() % kinds.len()], 0, Some(last));
        }
        w.step(ctx, dt.at(frame));
        frame += 1;
        if matches!(cause, Cause::Released | Cause::Removed) && w.snap(0).is_some_and(|s| chain_pos(&w, &s) > at - 15.0) {
            w.freeze(0, true);
        }
        if w.v.len() == n && standing(&w) && cause != Cause::Signal && w.time > 20.0 {
            break;
        }
    }
    for _ in 0..later {
        w.step(ctx, dt.at(frame));
        frame += 1;
    }
    ensure!(w.v.len() == n && standing(&w), "the queue does not come to a standstill: {}", w.describe());
    let at0: Vec<f64> = w.snaps().iter().map(|s| chain_pos(&w, s.as_ref().unwrap())).collect();
    ctx.log(|| format!("the queue may start | {}", w.describe()));
    match cause {
        Cause::Opened => w.control(last, OPEN),
        Cause::Released => w.freeze(0, false),
        Cause::Removed => w.remove(0),
        Cause::Signal => {}
    }
    let first = (cause == Cause::Removed) as usize;
    let mut began = w.time;
    let mut moved = vec![None; n];
    let mut passed = vec![None; n];
    for _ in 0..dt.frames(150.0) {
        w.step(ctx, dt.at(frame));
        frame += 1;
        if frame % 16 == 0 {
            ctx.log(|| w.describe());
            ctx.state(w.hash());
        }
        if cause == Cause::Signal && moved[0].is_none() {
            let green = w.sim.iter_lights().any(|(_, l)| l.state().any(|(i, s)| i == 0 && s == traffic_sim::LightState::Green));
            if !green {
                began = w.time;
            }
        }
        for v in first..n {
            let x = w.snap(v).map_or(f64::MAX, |s| chain_pos(&w, &s));
            if moved[v].is_none() && x > at0[v] + 0.5 {
                moved[v] = Some(w.time);
            }
            if passed[v].is_none() && x > at0[0] + 5.0 {
                passed[v] = Some(w.time);
            }
        }
        if passed[n - 1].is_some() {
            break;
        }
    }
    let mut prev = began;
    for v in first..n {
        let (Some(m), Some(p)) = (moved[v], passed[v]) else {
            fail!("v{} does not start again: {}", v, w.describe());
        };
        let a = kinds[v % kinds.len()];
        // With full acceleration it has moved that far after this time.
        let soonest = (2.0f64 * 0.5 / a.max_acc).sqrt();
        let wait = m - prev - soonest;
        ctx.checked();
        if v == first {
            ctx.max("the first one starts after", wait);
            ensure!(wait < 0.7, "the first vehicle starts only {:.2} s after it may", m - began);
        } else {
            ctx.max("each further one starts after", wait);
            ensure!(wait < 1.3, "v{} starts only {:.2} s after the one ahead", v, m - prev);
        }
        prev = m;
        // Driving up to the line with full acceleration, plus the time between vehicles.
        let d = at0[0] + 5.0 - at0[v];
        let full = f64::min((2.0 * d / a.max_acc).sqrt(), lim / a.max_acc);
        let free = full + f64::max(d - 0.5 * a.max_acc * full * full, 0.0) / lim;
        let lost = (p - began - free) / (1 + v - first) as f64;
        ctx.max("time lost per vehicle", lost);
        ensure!(lost < 3.0, "v{} needs {:.1} s to pass the line, {:.1} s more than alone", v, p - began, p - began - free);
        ctx.cover("starts again");
    }
    ctx.observe((w.time * 1000.0) as u64);
    Ok(())
}

/// A vehicle waits at a sign until one with right of way has passed; the next one is far away.
fn gaps(ctx: &mut Ctx, fine: bool) -> Res {
    let lim = ctx.pick(&[9.0, 16.0]);
    let sign = ctx.pick(&[give_way(10.0, false, 0), give_way(5.0, true, 0), give_way(3.0, false, 5), give_way(20.0, false, -5)]);
    let (mut n, ysrc, ydst, mdst, is_merge) = yield_net(ctx, lim, OPEN, sign);
    // The main road is seen from far away; the other one is shorter.
    for (link, len) in [(0, 330.0), (ysrc, 45.0)] {
        let Shape::Line([a, b, c, d]) = n.links[link].0 else { unreachable!() };
        let f = len / (c - a).hypot(d - b);
        n.links[link].0 = Shape::Line([c + f * (a - c), d + f * (b - d), c, d]);
    }
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let y = kind(ctx);
    let m = ctx.pick(&[CAR, TRUCK]);
    let step = if fine { 0.5 } else { 1.0 };
    let second = 6.0 + step * ctx.choose((18.0 / step) as usize) as f64;
    // How far the first one is away when the other vehicle sets out.
    let away = 130.0 - 15.0 * step * ctx.choose((8.0 / step) as usize) as f64;
    let mut w = n.build();
    let (m1, mut m2, mut v) = (w.add(&m, 0, Some(mdst)), None, None);
    let yin = if is_merge { 3 } else { 4 };
    let mut gone: Option<(f64, f64)> = None;
    let mut frame = 0;
    while frame < dt.frames(120.0) {
        if frame == dt.frames(second) {
            m2 = Some(w.add(&m, 0, Some(mdst)));
        }
        if v.is_none() && w.snap(m1).map_or(true, |s| s.link > 0 || w.len(0) - s.pos < away) {
            v = Some(w.add(&y, ysrc, Some(ydst)));
        }
        w.step(ctx, dt.at(frame));
        frame += 1;
        if frame % 16 == 0 {
            ctx.log(|| w.describe());
            ctx.state(w.hash());
        }
        let cleared = w.snap(m1).map_or(true, |s| s.link == mdst && s.rear() > 0.0);
        let Some(v) = v else { continue };
        let Some(s) = w.snap(v) else { break };
        if s.link == yin {
            match gone {
                Some((t, d)) => {
                    // The time from standing to the line with full acceleration is not counted.
                    let wait = w.time - t - (2.0 * d / y.max_acc).sqrt();
                    ctx.checked();
                    ctx.max("enters after", wait);
                    ctx.cover("enters the gap");
                    ensure!(wait < 1.6, "the vehicle enters the junction only {:.1} s after its way is free", w.time - t);
                }
                // Did not have to wait.
                None => return ctx.prune(),
            }
            ctx.observe((w.time * 1000.0) as u64);
            return Ok(());
        }
        // At a stop sign it stops first.
        let stopped = s.vel < 0.1 || matches!(sign, TrafficControl::Yield { must_stop: false, .. });
        if cleared && stopped && gone.is_none() {
            // It has come up to the line, and what comes next is far enough.
            let room = w.len(ysrc) - s.front();
            let next = m2.and_then(|o| w.snap(o));
            let eta = match next {
                Some(o) if o.link == 0 => (w.len(0) - o.front()) / lim,
                Some(_) => 0.0,
                None if m2.is_none() => (second - w.time).max(0.0) + w.len(0) / lim,
                None => f64::MAX,
            };
            // The gap in which it could drive the length of its own approach and the junction.
            let len = w.len(ysrc) + w.len(yin) + y.length;
            let top = w.sim.get_link(w.l[yin]).speed_limit();
            let full = f64::min((2.0 * len / y.max_acc).sqrt(), top / y.max_acc);
            let need = full + f64::max(len - 0.5 * y.max_acc * full * full, 0.0) / top + 2.0;
            if s.link != ysrc || room > 6.0 || s.vel > 1.5 || eta < need {
                return ctx.prune();
            }
            gone = Some((w.time, w.len(ysrc) - s.pos));
            ctx.log(|| format!("the way is free for {:.1} s | {}", eta, w.describe()));
        }
        if let (Some(_), Some(o)) = (gone, m2.and_then(|o| w.snap(o))) {
            ensure!(o.link == 0, "the vehicle has not used a gap: {}", w.describe());
        }
    }
    fail!("the vehicle does not get on: {}", w.describe())
}

/// A junction whose other road is closed, or where the traffic halts well before a sign: it
/// must not matter to a vehicle that drives through.
fn unhindered(ctx: &mut Ctx) -> Res {
    let lim = ctx.pick(&[9.0, 16.0]);
    let way = ctx.choose(2);
    let (mut n, ysrc, ydst, mdst, is_merge) = yield_net(ctx, lim, OPEN, OPEN);
    let other = ctx.pick(&[CLOSED, give_way(8.0, true, 0), give_way(12.0, false, 3)]);
    n.controls.last_mut().unwrap().1 = other;
    // The vehicle drives on either of the roads; the other one is the one that is closed.
    let yin = if is_merge { 3 } else { 4 };
    let (msrc, mdst, osrc, odst) = match way {
        1 => {
            n.controls = vec![(1, other)];
            (ysrc, ydst, 0, mdst)
        }
        _ => (0, mdst, ysrc, ydst),
    };
    let oin = if way == 1 { 1 } else { yin };
    let dt = ctx.pick(&DTS);
    let m = kind(ctx);
    let o = kind(ctx);
    let count = 1 + ctx.choose(2);
    let room = ctx.pick(&[16.0, 25.0, 40.0]);
    let after = ctx.pick(&[24.0, 25.3, 27.9]);
    let mut runs = vec![];
    for with in [false, true] {
        let mut w = n.build();
        let (mut v, mut frame, mut track) = (None, 0, vec![]);
        let mut others = vec![];
        while frame < dt.frames(100.0) {
            if with && others.len() < count && start_free(&w, osrc, 14.0) {
                others.push(w.add(&o, osrc, Some(odst)));
            }
            // What is not held by the closed line is halted well before it.
            if let Some(s) = others.first().and_then(|x| w.snap(*x)) {
                if !matches!(other, TrafficControl::Closed) && s.link == osrc && w.len(osrc) - s.front() < room {
                    w.freeze(others[0], true);
                }
            }
            if frame == dt.frames(after) {
                // One that stands within the sign's distance has the right to enter.
                let near = others.first().and_then(|x| w.snap(*x)).map_or(0.0, |s| w.len(osrc) - s.front());
                if with && matches!(other, TrafficControl::Yield { distance, .. } if near < distance + 0.5) {
                    return ctx.prune();
                }
                v = Some(w.add(&m, msrc, Some(mdst)));
            }
            w.step(ctx, dt.at(frame));
            frame += 1;
            if frame % 16 == 0 {
                ctx.log(|| w.describe());
                ctx.state(w.hash());
            }
            if let Some(v) = v {
                match w.snap(v) {
                    Some(s) => track.push((s.link, s.pos, s.vel)),
                    None => break,
                }
            }
            if w.snaps().iter().flatten().any(|s| s.link == oin) {
                return ctx.prune();
            }
        }
        runs.push(track);
    }
    ctx.checked();
    let late = (runs[1].len() as f64 - runs[0].len() as f64) / dt.frames(1.0) as f64;
    ctx.max("delay", late);
    ctx.cover("drives through");
    ensure!(late < 0.3, "traffic that stands before the junction delays a vehicle by {:.1} s", late);
    for (a, b) in runs[0].iter().zip(&runs[1]) {
        ctx.max("difference of speed", (a.2 - b.2).abs());
        ensure!((a.2 - b.2).abs() < 0.2, "a vehicle drives at {:.2} m/s on link {} because of traffic that stands before the junction, and otherwise at {:.2} m/s", b.2, b.0, a.2);
    }
    ctx.observe(runs[1].len() as u64);
    Ok(())
}

pub fn suites(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "restart",
            "queues of 2 to 5 (quick) / 9 (thorough) vehicles of 4 mixes, on 4 chains of links, 2 places and 2 limits, that start because a link opens, the first is released or removed, or a signal turns green, at 4 instants; 4 step patterns",
            move |c| restart(c, if t { 9 } else { 5 }),
        )
        .reaching(&["starts again"]),
        Suite::new(
            "gaps",
            "a vehicle with right of way and the next one 6 to 24 s later (in steps of 1 s quick, 0.5 s thorough), a waiting vehicle that sets out when the first is 25 to 130 m away (15 m / 7.5 m); crossings and merges, 4 signs, 2 limits, 3 x 2 kinds, 2 step patterns",
            move |c| gaps(c, t),
        )
        .reaching(&["enters the gap"]),
        Suite::new(
            "unhindered",
            "a vehicle on either road of 2 crossings (2 limits of the other road) and 2 merges; 1 or 2 vehicles of the other road stand before a closed line or are halted 16, 25 or 40 m before a sign; 2 limits, 3 x 3 kinds, 3 instants, 4 step patterns",
            unhindered,
        )
        .reaching(&["drives through"]),
    ]
}
