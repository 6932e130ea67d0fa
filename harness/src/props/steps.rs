//! C28: the length of the time step hardly matters.

use crate::engine::*;
use crate::scen::*;
use crate::world::*;
use crate::{ensure, fail};
use traffic_sim::VehicleAttributes;

/// What happens at a moment that is a multiple of every step.
#[derive(Clone, Copy)]
enum Event {
    Add(VehicleAttributes),
    Freeze(usize, bool),
    Control(usize, bool),
}

/// How far the vehicles have come along a chain of links at every second.
fn progress(ctx: &mut Ctx, net: &Net, lens: &[f64], events: &[(usize, Event)], dt: Dt) -> Result<Vec<Vec<Option<f64>>>, Stop> {
    let mut w = net.build();
    let mut out = vec![];
    let mut frame = 0;
    let mut next = 0;
    for sec in 0.. {
        while next < events.len() && events[next].0 == sec {
            match events[next].1 {
                Event::Add(a) => {
                    w.add(&a, 0, Some(lens.len() - 1));
                }
                Event::Freeze(v, f) => w.freeze(v, f),
                Event::Control(l, open) => w.control(l, if open { OPEN } else { CLOSED }),
            }
            next += 1;
        }
        for _ in 0..dt.frames(1.0) {
            w.step(ctx, dt.at(frame));
            frame += 1;
        }
        ctx.log(|| w.describe());
        ctx.state(w.hash());
        out.push(w.snaps().iter().map(|s| s.map(|s| lens[..s.link].iter().sum::<f64>() + s.pos)).collect());
        if next == events.len() && w.sim.iter_vehicles().next().is_none() {
            break;
        }
        if sec > 400 {
            fail!("vehicles are still there after {} s", sec);
        }
    }
    Ok(out)
}

/// How far a vehicle may be from where it is with small steps (m).
fn tolerance(dt: Dt) -> f64 {
    if dt.max() < 0.11 {
        3.0
    } else {
        12.0
    }
}

/// Compares with a run with small steps.
fn compare(ctx: &mut Ctx, net: &Net, lens: &[f64], events: &[(usize, Event)], dt: Dt) -> Res {
    let fine = progress(ctx, net, lens, events, Dt::Const(0.025))?;
    let coarse = progress(ctx, net, lens, events, dt)?;
    let tol = tolerance(dt);
    let total: f64 = lens.iter().sum();
    for sec in 0..fine.len().max(coarse.len()) {
        // A vehicle that has left has come to the end at least.
        let get = |x: &[Vec<Option<f64>>], v: usize| x.get(sec).map_or(total, |x| x[v].unwrap_or(total));
        let n = fine.get(sec).or(coarse.get(sec)).unwrap().len();
        for v in 0..n {
            let (a, b) = (get(&fine, v), get(&coarse, v));
            ctx.checked();
            ctx.max(if dt.max() < 0.11 { "difference for steps up to 0.1 s (m)" } else { "difference for steps over 0.1 s (m)" }, (a - b).abs());
            ensure!((a - b).abs() < tol, "v{} has come {:.2} m far after {} s with small steps and {:.2} m with {:?}", v, a, sec + 1, b, dt);
        }
    }
    ctx.observe(coarse.len() as u64);
    Ok(())
}

/// When and how a vehicle is told to change lanes.
#[derive(Clone, Copy)]
enum Order {
    /// By its destination, from a moment on.
    Destination(usize),
    /// By hand, at a moment, over a distance.
    Hand(usize, f64),
}

/// Where the vehicles are at every second.
fn places(ctx: &mut Ctx, net: &Net, k: usize, src: usize, dst: usize, order: Order, dt: Dt) -> Result<Vec<Vec<Option<Snap>>>, Stop> {
    let mut w = net.build();
    let mut out = vec![];
    let mut frame = 0;
    w.add(&CAR, src, Some(k + src));
    for sec in 0..30 {
        match order {
            Order::Destination(at) if sec == at => w.dest(0, k + dst),
            Order::Hand(at, dist) if sec == at => {
                w.sim.do_lane_change(w.v[0], w.l[dst], dist);
                w.dest(0, k + dst);
            }
            _ => {}
        }
        if sec == 3 {
            w.add(&TRUCK, src, Some(k + src));
        }
        for _ in 0..dt.frames(1.0) {
            w.step(ctx, dt.at(frame));
            frame += 1;
        }
        ctx.log(|| w.describe());
        ctx.state(w.hash());
        out.push(w.snaps());
    }
    Ok(out)
}

/// Lane changes, of one's own accord or by hand.
fn lanes(ctx: &mut Ctx, k: usize) -> Res {
    let curved = ctx.choose(2) == 1;
    let mut net = super::routing::lane_net(ctx, k, 203.37, curved);
    for i in 0..k {
        let y = -3.5 * i as f64;
        if curved {
            net.line(120.0 - y, 120.0, 120.0 - y, 180.0, 14.0);
        } else {
            net.line(203.37, y, 263.42, y, 14.0);
        }
        net.conn(i, k + i);
    }
    let src = ctx.choose(k);
    let dst = ctx.choose(k);
    if src == dst {
        return ctx.prune();
    }
    let order = match ctx.choose(8) {
        c if c < 6 => Order::Destination(c),
        6 => Order::Hand(3, 20.0),
        _ => Order::Hand(4, 40.0),
    };
    let dt = ctx.pick(&STEPS);
    let fine = places(ctx, &net, k, src, dst, order, Dt::Const(0.025))?;
    let coarse = places(ctx, &net, k, src, dst, order, dt)?;
    let mut apart = [0; 2];
    for (sec, (a, b)) in fine.iter().zip(&coarse).enumerate() {
        for (v, (a, b)) in a.iter().zip(b).enumerate() {
            let (Some(a), Some(b)) = (a, b) else { continue };
            ctx.checked();
            let d = a.p - b.p;
            let d = (d.x * d.x + d.y * d.y).sqrt();
            ctx.max(if dt.max() < 0.11 { "difference for steps up to 0.1 s (m)" } else { "difference for steps over 0.1 s (m)" }, d);
            ensure!(d < tolerance(dt), "v{} is {:.2} m from where it is with small steps after {} s with {:?}", v, d, sec + 1, dt);
            let other = a.link % k != b.link % k;
            if a.link != src && a.link < k {
                ctx.cover("another lane");
            }
            apart[v] = if other { apart[v] + 1 } else { 0 };
            ctx.max("in different lanes (s)", apart[v] as f64);
            ensure!(apart[v] < 6, "v{} is in lane {} or {} for 6 s, depending on whether the steps are small or {:?}", v, a.link % k, b.link % k, dt);
        }
    }
    ctx.observe(coarse.iter().flatten().flatten().map(|s| s.link as u64).sum());
    Ok(())
}

const STEPS: [Dt; 5] = [Dt::Const(0.05), Dt::Const(0.1), Dt::Const(0.125), Dt::Const(0.2), Dt::Alt(0.05, 0.15)];

fn alone(ctx: &mut Ctx, n: usize) -> Res {
    let mut lens = vec![];
    let mut lims = vec![];
    for _ in 0..n {
        lens.push(ctx.pick(&[8.0, 47.0, 130.0]));
        lims.push(ctx.pick(&[7.0, 16.0]));
    }
    let mut net = chain(&lens, &lims);
    let a = kind(ctx);
    let dt = ctx.pick(&STEPS);
    let l = 1 + ctx.choose(n - 1);
    let mut events = vec![(0, Event::Add(a))];
    match ctx.choose(5) {
        0 => {}
        1 => net.controls.push((l, give_way(3.0, true, 0))),
        2 => net.controls.push((l, give_way(12.0, false, 0))),
        3 => {
            events.insert(0, (0, Event::Control(l, false)));
            events.push((60, Event::Control(l, true)));
        }
        _ => {
            events.push((4, Event::Freeze(0, true)));
            events.push((12, Event::Freeze(0, false)));
        }
    }
    compare(ctx, &net, &lens, &events, dt)
}

fn queue(ctx: &mut Ctx, n: usize) -> Res {
    let lim = ctx.pick(&[9.0, 17.0]);
    let lens: &[f64] = [&[150.0, 150.0] as &[f64], &[90.0, 12.0, 12.0, 140.0]][ctx.choose(2)];
    let net = chain(lens, &[lim]);
    let gap = ctx.pick(&[6, 8]);
    let dt = ctx.pick(&STEPS);
    let mut events = vec![];
    for k in 0..n {
        events.push((k * gap, Event::Add(kind(ctx))));
    }
    match ctx.choose(3) {
        0 => {}
        1 => {
            events.insert(0, (0, Event::Control(1, false)));
            events.push((60, Event::Control(1, true)));
        }
        _ => {
            let v = ctx.choose(n);
            events.push((gap * (n - 1) + 1, Event::Freeze(v, true)));
            events.push((gap * (n - 1) + 15, Event::Freeze(v, false)));
        }
    }
    compare(ctx, &net, lens, &events, dt)
}

pub fn suites(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "alone",
            "one vehicle on 3 (quick) / 4 (thorough) links of 3 lengths and 2 limits each; free road, stop sign, give-way sign, closed and then opened link or halt; 3 kinds, 5 step patterns up to 0.2 s; every second compared with steps of 0.025 s",
            move |x| alone(x, 3 + t as usize),
        ),
        Suite::new(
            "queues",
            "3 (quick) / 4 (thorough) vehicles of every kind on 2 chains of links, 2 limits, 2 headways; free road, closed and then opened link or halt of any of them; 5 step patterns up to 0.2 s; every second compared with steps of 0.025 s",
            move |x| queue(x, 3 + t as usize),
        ),
        Suite::new(
            "lanes",
            "all masks of 2 or 3 lanes, straight and curved, every origin and exit, of its own accord at 6 moments or by hand at 2; 5 step patterns up to 0.2 s; every second compared with steps of 0.025 s",
            move |x| {
                let k = 2 + x.choose(2);
                lanes(x, k)
            },
        )
        .reaching(&["another lane"]),
    ]
}
