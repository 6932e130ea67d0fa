//! C24: individual desired speeds.
//!
//! The random numbers cannot be chosen, but with an enormous deviation each factor is cut to one of
//! the two ends of the permitted range. Every assignment of ends to vehicles is taken as target, and
//! the run is begun again until the vehicles have got that one, so that each one is explored.

use crate::engine::*;
use crate::props::junction::check_bodies;
use crate::scen::*;
use crate::world::*;
use crate::{ensure, fail};
use traffic_sim::VehicleAttributes;

const ENDS: [f64; 2] = [0.75, 1.25];
const HUGE: f64 = 1e15;
/// Attempts until an assignment to three vehicles is given up; chance alone leads there once in 10^34 runs.
const ATTEMPTS: usize = 600;
const ROAD: f64 = 4500.0;

/// Drives for `t` seconds. No vehicle exceeds what the highest factor permits.
fn go(ctx: &mut Ctx, w: &mut World, net: &Net, dt: Dt, frame: &mut usize, t: f64) -> Res {
    for _ in 0..dt.frames(t) {
        w.step(ctx, dt.at(*frame));
        *frame += 1;
        if *frame % 64 == 0 {
            ctx.log(|| w.describe());
        }
        for s in w.snaps().iter().flatten() {
            let lim = net.links[s.link].1;
            ctx.checked();
            ensure!(s.vel <= ENDS[1] * lim + 0.01, "a vehicle drives at {:.3} m/s where the limit is {} m/s", s.vel, lim);
        }
    }
    Ok(())
}

/// The factor a vehicle that drives freely has settled at.
fn factor(net: &Net, w: &World, v: usize) -> f64 {
    let s = w.snap(v).unwrap();
    s.vel / net.links[s.link].1
}

fn is(ctx: &mut Ctx, what: &str, got: f64, want: &[f64]) -> Res {
    let off = want.iter().map(|x| (x - got).abs()).fold(f64::INFINITY, f64::min);
    ctx.checked();
    ctx.max("distance from a permitted factor", off);
    ensure!(off < 0.012, "{} drives at {:.4} of the limit instead of {:?}", what, got, want);
    Ok(())
}

/// Vehicles on roads of their own, one of which comes later.
fn alone(ctx: &mut Ctx) -> Res {
    let lim = ctx.pick(&[8.0, 14.0, 22.0]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2)]);
    let kinds: [VehicleAttributes; 3] = ctx.pick(&[[CAR, CAR, CAR], [CAR, TRUCK, SPORTY]]);
    let k = kinds.len();
    let mut net = Net::new();
    for i in 0..=k {
        net.line(0.0, 30.0 * i as f64, ROAD, 30.0 * i as f64, lim);
    }
    let target: Vec<f64> = (0..k).map(|_| ctx.pick(&ENDS)).collect();
    let before = ctx.pick(&[0.0, 4.0, 40.0]);
    let then = ctx.choose(4);
    for _ in 0..ATTEMPTS {
        let mut w = net.build();
        let mut frame = 0;
        for i in 0..k {
            w.add(&kinds[i], i, Some(i));
        }
        go(ctx, &mut w, &net, dt, &mut frame, before)?;
        w.sim.randomise_velocity_adjusts(HUGE);
        let late = w.add(&CAR, k, Some(k));
        go(ctx, &mut w, &net, dt, &mut frame, 50.0)?;
        let got: Vec<f64> = (0..k).map(|v| factor(&net, &w, v)).collect();
        for (v, f) in got.iter().enumerate() {
            is(ctx, &format!("v{}", v), *f, &ENDS)?;
        }
        is(ctx, "the one that came later", factor(&net, &w, late), &[1.0])?;
        if got.iter().zip(&target).any(|(a, b)| (a - b).abs() > 0.1) {
            continue;
        }
        ctx.state(w.hash());
        match then {
            0 => {}
            1 => w.sim.randomise_velocity_adjusts(0.0),
            2 => w.sim.randomise_velocity_adjusts(HUGE),
            _ => {
                w.sim.randomise_velocity_adjusts(HUGE);
                w.sim.randomise_velocity_adjusts(0.0);
            }
        }
        go(ctx, &mut w, &net, dt, &mut frame, 40.0)?;
        for v in 0..=k {
            let f = factor(&net, &w, v);
            match then {
                0 => is(ctx, "one that was left alone", f, &[if v == k { 1.0 } else { target[v] }])?,
                2 => is(ctx, "one with a new factor", f, &ENDS)?,
                _ => is(ctx, "one with deviation 0", f, &[1.0])?,
            }
        }
        ctx.cover(["factors kept", "back to the limit", "new factors", "new factors, then back"][then]);
        ctx.state(w.hash());
        return Ok(());
    }
    fail!("the factors {:?} are never given", target)
}

/// Two vehicles on one road, with every pair of factors, the second of which may catch up; at the
/// end both stop at a closed link.
fn pairs(ctx: &mut Ctx) -> Res {
    let lim = ctx.pick(&[8.0, 14.0]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let kinds = [kind(ctx), kind(ctx)];
    let mut net = Net::new();
    let y = ctx.pick(&[0.0, 1.0]) * 400.0;
    net.line(0.0, 0.0, ROAD, 0.0, lim);
    net.quad([ROAD, 0.0, ROAD + 150.0, 0.0, ROAD + 300.0, y], lim);
    net.line(ROAD + 300.0, y, ROAD + 400.0, 1.0 + y, lim);
    net.conn(0, 1);
    net.conn(1, 2);
    net.controls.push((2, CLOSED));
    let target = [ctx.pick(&ENDS), ctx.pick(&ENDS)];
    let gap = ctx.pick(&[20.0, 40.0]);
    for _ in 0..ATTEMPTS {
        let mut w = net.build();
        let mut frame = 0;
        w.add(&kinds[0], 0, Some(2));
        go(ctx, &mut w, &net, dt, &mut frame, 20.0 + gap)?;
        w.add(&kinds[1], 0, Some(2));
        w.sim.randomise_velocity_adjusts(HUGE);
        // The second one cannot have caught up yet, but shows which factor it has.
        go(ctx, &mut w, &net, dt, &mut frame, 25.0)?;
        let f = [factor(&net, &w, 0), factor(&net, &w, 1)];
        let got = [if f[0] > 1.0 { ENDS[1] } else { ENDS[0] }, if f[1] > 0.86 { ENDS[1] } else { ENDS[0] }];
        if got != target {
            continue;
        }
        ctx.state(w.hash());
        let mut near = false;
        for _ in 0..180 {
            go(ctx, &mut w, &net, dt, &mut frame, 5.0)?;
            check_bodies(ctx, &w)?;
            let (Some(a), Some(b)) = (w.snap(0), w.snap(1)) else { fail!("a vehicle has passed the closed link: {}", w.describe()) };
            let along = |s: &Snap| s.pos + (0..s.link).map(|l| w.len(l)).sum::<f64>();
            let net_gap = along(&a) - along(&b) - 0.5 * (kinds[0].length + kinds[1].length);
            ctx.max("smallest distance, negated (m)", -net_gap);
            ensure!(net_gap > 1.9, "the second vehicle comes up to {:.2} m", net_gap);
            near |= net_gap < 60.0 && a.vel > 2.0;
        }
        ctx.cover(if near { "catches up" } else { "stays behind" });
        let (a, b) = (w.snap(0).unwrap(), w.snap(1).unwrap());
        ensure!(a.link == 1 && a.vel < 0.01 && b.vel < 0.01, "not both of them stand before the closed link: {}", w.describe());
        w.control(2, OPEN);
        for _ in 0..40 {
            if w.sim.iter_vehicles().next().is_none() {
                ctx.cover("cleared");
                return Ok(());
            }
            go(ctx, &mut w, &net, dt, &mut frame, 5.0)?;
        }
        fail!("they do not drive on: {}", w.describe())
    }
    fail!("the factors {:?} are never given", target)
}

/// A vehicle with either factor passes a change of the limit at its own speed.
fn changes(ctx: &mut Ctx) -> Res {
    let (a, b) = ctx.pick(&[(14.0, 9.0), (22.0, 14.0), (22.0, 8.0), (9.0, 14.0), (14.0, 22.0)]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let k = kind(ctx);
    let len = ctx.pick(&[1500.0, 2000.0]);
    let net = chain(&[len, 2500.0], &[a, b]);
    let target = ctx.pick(&ENDS);
    for _ in 0..ATTEMPTS {
        let mut w = net.build();
        let mut frame = 0;
        w.add(&k, 0, Some(1));
        w.sim.randomise_velocity_adjusts(HUGE);
        go_unlimited(ctx, &mut w, dt, &mut frame, 50.0);
        let f = factor(&net, &w, 0);
        is(ctx, "the vehicle", f, &ENDS)?;
        if (f - target).abs() > 0.1 {
            continue;
        }
        let (own_a, own_b) = (target * a, target * b);
        let mut passed = None;
        for _ in 0..dt.frames(400.0) {
            w.step(ctx, dt.at(frame));
            frame += 1;
            let Some(s) = w.snap(0) else { break };
            ctx.checked();
            if frame % 64 == 0 {
                ctx.log(|| w.describe());
                ctx.state(w.hash());
            }
            let low = own_a.min(own_b);
            ctx.max("below the lower desired speed (m/s)", low - s.vel);
            ensure!(s.vel > low - 1.2, "it drives at {:.2} m/s although it never wants to be slower than {:.2} m/s", s.vel, low);
            if s.link == 1 && passed.is_none() {
                passed = Some(w.time);
                if b < a {
                    ctx.max("too fast at the change (m/s)", s.vel - own_b);
                    ensure!(s.vel < own_b + 1.2, "it drives at {:.2} m/s at the start of a link where it wants {:.2} m/s", s.vel, own_b);
                }
            }
            if passed.is_some_and(|t| w.time > t + 60.0) {
                ensure!((s.vel - own_b).abs() < 0.3, "it drives at {:.2} m/s instead of {:.2} m/s", s.vel, own_b);
            }
        }
        ensure!(passed.is_some(), "it never came to the change of the limit");
        ctx.cover(if b < a { "slower" } else { "faster" });
        return Ok(());
    }
    fail!("the factor {:?} is never given", target)
}

/// The factor outlasts whatever happens to the vehicle on the way, and is given to it whatever it is doing.
fn events(ctx: &mut Ctx) -> Res {
    let lim = ctx.pick(&[8.0, 14.0]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let k = kind(ctx);
    let mut net = Net::new();
    for (i, (a, b)) in [(0.0, 1300.0), (1300.0, 4000.0)].into_iter().enumerate() {
        for y in [0.0, -3.5] {
            net.line(a, y, b, y, lim);
        }
        net.groups.push((vec![2 * i, 2 * i + 1], all_changes(2)));
    }
    net.conn(0, 2);
    net.conn(1, 3);
    let target = ctx.pick(&ENDS);
    let event = ctx.choose(7);
    // Whether the factor is given in the middle of it.
    let during = ctx.choose(2) == 1;
    for _ in 0..ATTEMPTS {
        let mut w = net.build();
        let mut frame = 0;
        w.add(&k, 0, Some(2));
        if event == 6 {
            w.control(2, CLOSED);
        }
        if !during {
            w.sim.randomise_velocity_adjusts(HUGE);
        }
        let kept = |w: &World| factor(&net, w, 0);
        go(ctx, &mut w, &net, dt, &mut frame, 45.0)?;
        let before = kept(&w);
        match event {
            // A lane change by hand, to and fro, one by itself, and another destination ahead.
            0 => w.sim.do_lane_change(w.v[0], w.l[1], 25.0),
            1 => {
                w.sim.do_lane_change(w.v[0], w.l[1], 25.0);
                go(ctx, &mut w, &net, dt, &mut frame, 1.0)?;
                w.sim.do_lane_change(w.v[0], w.l[0], 25.0);
            }
            2 => w.dest(0, 3),
            3 => {
                w.dest(0, 3);
                go(ctx, &mut w, &net, dt, &mut frame, 0.5)?;
                w.dest(0, 2);
            }
            // A halt; a halt that has only begun; a closed link ahead.
            4 => {
                w.freeze(0, true);
                go(ctx, &mut w, &net, dt, &mut frame, 15.0)?;
            }
            5 => {
                w.freeze(0, true);
                go(ctx, &mut w, &net, dt, &mut frame, 0.2)?;
            }
            _ => go(ctx, &mut w, &net, dt, &mut frame, 250.0)?,
        }
        if during {
            w.sim.randomise_velocity_adjusts(HUGE);
        }
        if event == 2 || event == 3 {
            for _ in 0..60 {
                if w.snap(0).unwrap().link >= 2 {
                    break;
                }
                go(ctx, &mut w, &net, dt, &mut frame, 5.0)?;
            }
        }
        w.freeze(0, false);
        w.control(2, OPEN);
        go(ctx, &mut w, &net, dt, &mut frame, 50.0)?;
        let after = kept(&w);
        is(ctx, "the vehicle", after, &ENDS)?;
        if !during {
            is(ctx, "the vehicle", after, &[before])?;
        }
        if (after - target).abs() > 0.1 {
            continue;
        }
        ctx.state(w.hash());
        ctx.cover(if during { "factor given meanwhile" } else { "factor kept" });
        return Ok(());
    }
    fail!("the factor {:?} is never given", target)
}

fn go_unlimited(ctx: &mut Ctx, w: &mut World, dt: Dt, frame: &mut usize, t: f64) {
    for _ in 0..dt.frames(t) {
        w.step(ctx, dt.at(*frame));
        *frame += 1;
    }
}

/// Calls with deviation 0, at any instants, change nothing.
fn zero(ctx: &mut Ctx, instants: usize) -> Res {
    let sc = crate::driver::scene(ctx.choose(crate::driver::SCENES));
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let (mut a, mut b) = (sc.net.build(), sc.net.build());
    let mut frame = 0;
    for slot in 0..instants {
        if ctx.choose(2) == 1 {
            b.sim.randomise_velocity_adjusts(0.0);
            ctx.cover("called");
        }
        let (src, dst) = sc.trips[slot % sc.trips.len()];
        if crate::props::junction::start_free(&a, src, CAR.length) {
            for w in [&mut a, &mut b] {
                w.add(&CAR, src, Some(dst));
            }
        }
        for _ in 0..dt.frames(3.0) {
            for w in [&mut a, &mut b] {
                w.step(ctx, dt.at(frame));
            }
            frame += 1;
            ctx.checked();
            ensure!(a.hash() == b.hash(), "deviation 0 changes the traffic:\n    {}\n    {}", a.describe(), b.describe());
        }
        ctx.state(b.hash());
    }
    Ok(())
}

pub fn suites(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "alone",
            "three vehicles of 2 mixes on roads of their own, every assignment of the extreme factors, at 3 instants, and a fourth that comes later; then nothing, deviation 0, a new call, or both; 3 limits x 2 time steps",
            alone,
        )
        .reaching(&["factors kept", "back to the limit", "new factors", "new factors, then back"]),
        Suite::new(
            "pairs",
            "two vehicles of every pair of 3 kinds, one after the other on one road, every pair of extreme factors; 2 distances x 2 limits x 2 shapes x 3 step patterns; both stop at a closed link and drive on when it opens",
            pairs,
        )
        .reaching(&["catches up", "stays behind", "cleared"]),
        Suite::new(
            "changes",
            "a vehicle of 3 kinds with either extreme factor passes one of 5 changes of the limit; 2 lengths x 3 step patterns",
            changes,
        )
        .reaching(&["slower", "faster"]),
        Suite::new(
            "events",
            "a vehicle of 3 kinds with either extreme factor, given before or in the middle of it, that changes lanes by hand once or twice or by itself, is told other destinations, is halted, has just been halted or waits at a closed link; 2 limits x 3 step patterns",
            events,
        )
        .reaching(&["factor kept", "factor given meanwhile"]),
        Suite::new(
            "zero",
            "every subset of 7 (quick) / 9 (thorough) instants at which deviation 0 is set, in the traffic of 9 networks; 2 step patterns; compared with the run without",
            move |c| zero(c, if t { 9 } else { 7 }),
        )
        .reaching(&["called"]),
    ]
}
