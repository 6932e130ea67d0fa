//! C07: car following.

use crate::engine::*;
use crate::scen::*;
use crate::world::*;
use crate::{ensure, fail};

/// The gap every vehicle must keep to the vehicle ahead, in m. The simulation promises a minimum
/// gap of 2 m; 0.1 m is allowed for the discretisation.
const MIN_GAP: f64 = 1.9;

/// Checks the gaps between consecutive vehicles of a chain, in order of insertion.
fn check_gaps(ctx: &mut Ctx, w: &World) -> Res {
    let mut ahead: Option<(usize, f64)> = None;
    for i in 0..w.v.len() {
        if let Some(s) = w.snap(i) {
            let p = chain_pos(w, &s);
            if let Some((j, rear)) = ahead {
                let gap = rear - (p + s.half_len);
                ctx.max("closest gap (negated)", -gap);
                ctx.checked();
                if gap < MIN_GAP {
                    ctx.log(|| w.describe());
                    fail!("v{} is {:.3} m behind v{}: closer than the minimum gap", i, gap, j);
                }
            }
            ahead = Some((i, p - s.half_len));
        }
    }
    Ok(())
}

/// Whether a vehicle of the given length may be added at the start of the chain.
fn clear(w: &World, len: f64) -> bool {
    w.snaps()
        .iter()
        .flatten()
        .all(|s| chain_pos(w, s) - s.half_len > 0.5 * len + 2.1)
}

fn histories(ctx: &mut Ctx, nets: &[(&[f64], &[f64])], dts: &[Dt], depth: usize, kinds: &[traffic_sim::VehicleAttributes], maxv: usize, control: bool) -> Res {
    let (lens, lims) = ctx.pick(nets);
    let dt = ctx.pick(dts);
    let last = lens.len() - 1;
    let mut n = chain(lens, lims);
    n.controls.clear();
    let mut w = n.build();
    let lead = ctx.pick(kinds);
    let rest = ctx.pick(kinds);
    w.add(&lead, 0, Some(last));
    let mut frozen = vec![false; maxv];
    let mut closed = false;
    let mut frame = 0;
    for _ in 0..depth {
        let nv = w.v.len();
        // wait | add | toggle control | freeze/unfreeze i | remove i
        let op = ctx.choose(3 + 2 * nv);
        if op == 0 {
        } else if op == 1 {
            if nv >= maxv || !clear(&w, rest.length) {
                return ctx.prune();
            }
            w.add(&rest, 0, Some(last));
        } else if op == 2 {
            if !control {
                return ctx.prune();
            }
            closed = !closed;
            w.control(last, if closed { CLOSED } else { OPEN });
        } else if op < 3 + nv {
            let i = op - 3;
            if !w.alive(i) {
                return ctx.prune();
            }
            frozen[i] = !frozen[i];
            w.freeze(i, frozen[i]);
        } else {
            let i = op - 3 - nv;
            if !w.alive(i) {
                return ctx.prune();
            }
            w.remove(i);
        }
        ctx.log(|| format!("op {} | {}", op, w.describe()));
        for _ in 0..dt.frames(2.0) {
            w.step(ctx, dt.at(frame));
            frame += 1;
            check_gaps(ctx, &w)?;
        }
        ctx.state(w.hash());
    }
    ctx.observe(w.hash());
    Ok(())
}

/// A platoon whose leader brakes to a stand at every possible moment, for every duration.
fn platoon(ctx: &mut Ctx, kinds: &[traffic_sim::VehicleAttributes], size: usize, starts: usize) -> Res {
    let lim = ctx.pick(&[8.0, 16.0, 33.0]);
    let dt = ctx.pick(&DTS);
    let shape = ctx.choose(4);
    let n = match shape {
        0 => chain(&[900.0], &[lim]),
        1 => chain(&[100.0, 60.0, 100.0, 640.0], &[lim]),
        2 => chain(&[150.0, 150.0, 600.0], &[lim, 0.5 * lim, lim]),
        _ => {
            let mut n = Net::new();
            n.quad([0.0, 0.0, 120.0, 0.0, 160.0, 110.0], lim);
            n.cubic([160.0, 110.0, 200.0, 220.0, 330.0, 260.0, 480.0, 210.0], lim);
            n.line(480.0, 210.0, 480.0 + 0.9487 * 400.0, 210.0 - 0.3162 * 400.0, lim);
            n.conn(0, 1);
            n.conn(1, 2);
            n
        }
    };
    let a = ctx.pick(kinds);
    let b = ctx.pick(kinds);
    let last = n.links.len() - 1;
    let mut w = n.build();
    let headway = ctx.pick(&[0.0, 4.0]);
    let start = 1.5 * ctx.choose(starts) as f64;
    let dur = ctx.pick(&[1.5, 6.0, 18.0]);
    // The vehicle that brakes: the leader, or the one in the middle.
    let who = ctx.choose(2);
    let (mut last_add, mut full) = (0, None);
    let mut frame = 0;
    let total = dt.frames(70.0);
    let mut braked = false;
    while frame < total {
        if w.v.len() < size && clear(&w, 12.0) && frame >= last_add + dt.frames(headway) {
            let k = if w.v.len() % 2 == 0 { a } else { b };
            w.add(&k, 0, Some(last));
            last_add = frame;
            if w.v.len() == size {
                full = Some(frame);
            }
        }
        if let Some(f) = full {
            if w.alive(who) {
                if frame == f + dt.frames(start) {
                    w.freeze(who, true);
                    braked = true;
                    ctx.log(|| format!("freeze v{} | {}", who, w.describe()));
                }
                if frame == f + dt.frames(start + dur) {
                    w.freeze(who, false);
                    ctx.log(|| format!("release v{} | {}", who, w.describe()));
                }
            }
        }
        w.step(ctx, dt.at(frame));
        frame += 1;
        check_gaps(ctx, &w)?;
        if frame % dt.frames(2.0) == 0 {
            ctx.state(w.hash());
        }
    }
    if braked {
        ctx.cover("platoon braked");
    }
    ctx.observe(w.hash());
    Ok(())
}

/// A road that splits: vehicles alternate between the branches in every combination.
fn diverge(ctx: &mut Ctx, vehicles: usize) -> Res {
    let lim = ctx.pick(&[10.0, 20.0]);
    let dt = ctx.pick(&DTS);
    let stem = ctx.pick(&[80.0, 200.0]);
    let mut n = Net::new();
    n.line(0.0, 0.0, stem, 0.0, lim);
    n.line(stem, 0.0, stem + 200.0, 60.0, lim);
    n.line(stem, 0.0, stem + 200.0, -60.0, lim);
    n.conn(0, 1);
    n.conn(0, 2);
    let mut w = n.build();
    let k = kind(ctx);
    let mut branch = vec![];
    for _ in 0..vehicles {
        branch.push(1 + ctx.choose(2));
    }
    // Vehicle `who` freezes `start` seconds after the last one was added.
    let who = ctx.choose(vehicles);
    let start = 2.0 * ctx.choose(12) as f64;
    let mut full = usize::MAX;
    for frame in 0..dt.frames(60.0) {
        if w.v.len() < vehicles && clear_link0(&w, k.length) {
            let d = branch[w.v.len()];
            w.add(&k, 0, Some(d));
            if w.v.len() == vehicles {
                full = frame;
            }
        }
        if full != usize::MAX && frame == full + dt.frames(start) {
            if !w.alive(who) {
                return ctx.prune();
            }
            w.freeze(who, true);
            ctx.log(|| format!("freeze v{} | {}", who, w.describe()));
        }
        w.step(ctx, dt.at(frame));
        // Vehicles that share a link, or are bound for the same branch, keep their distance.
        let s = w.snaps();
        for i in 0..s.len() {
            for j in i + 1..s.len() {
                if let (Some(a), Some(b)) = (s[i], s[j]) {
                    let g = |x: &Snap| if x.link == 0 { x.pos } else { w.len(0) + x.pos };
                    if a.link == b.link || (branch[i] == branch[j]) {
                        let gap = g(&a) - a.half_len - g(&b) - b.half_len;
                        ctx.checked();
                        ctx.max("closest gap (negated)", -gap);
                        if gap < MIN_GAP {
                            ctx.log(|| w.describe());
                            fail!("v{} is {:.3} m behind v{}", j, gap, i);
                        }
                    }
                }
            }
        }
        if frame % dt.frames(2.0) == 0 {
            ctx.state(w.hash());
        }
    }
    ctx.observe(w.hash());
    Ok(())
}

/// A road that many others lead to: a vehicle on it is followed by vehicles from each of them.
fn many_approaches(ctx: &mut Ctx, fine: bool) -> Res {
    let roads = ctx.pick(&[2, 3, 4, 6]);
    let from = ctx.choose(roads);
    let lim = ctx.pick(&[10.0, 20.0]);
    let dt = ctx.pick(&DTS);
    let mut n = Net::new();
    n.line(0.0, 0.0, 250.0, 0.0, lim);
    let mut src = vec![];
    // Either every road leads to the link itself or they meet just before it.
    let stub = ctx.choose(2) == 1;
    let x = if stub {
        n.line(-6.0, 0.0, 0.0, 0.0, lim);
        n.conn(1, 0);
        -6.0
    } else {
        0.0
    };
    for i in 0..roads {
        let a = 0.2 * (i as f64 - 0.5 * (roads - 1) as f64);
        let (dx, dy) = (-f64::cos(a), f64::sin(a));
        let near = n.line(x + 15.0 * dx, 15.0 * dy, x, 0.0, lim);
        let far = n.line(x + 115.0 * dx, 115.0 * dy, x + 15.0 * dx, 15.0 * dy, lim);
        n.conn(far, near);
        n.conn(near, stub as usize);
        src.push((far, near));
    }
    let mut w = n.build();
    let k = kind(ctx);
    w.add(&CAR, 0, Some(0));
    w.add(&k, src[from].0, Some(0));
    let halt = if fine { 0.5 } else { 1.0 } * ctx.choose(if fine { 24 } else { 12 }) as f64;
    let again = ctx.choose(2) == 1;
    for f in 0..dt.frames(40.0) {
        if f == dt.frames(halt) || f == dt.frames(20.0) {
            w.freeze(0, f < dt.frames(20.0) || !again);
        }
        w.step(ctx, dt.at(f));
        let (Some(a), Some(b)) = (w.snap(0), w.snap(1)) else { break };
        let before = match b.link {
            0 => 0.0,
            1 if stub => 6.0,
            l if l == src[from].1 => 15.0 - x,
            _ => 115.0 - x,
        };
        let gap = a.rear() - (b.front() - before);
        ctx.checked();
        ctx.max("closest gap (negated)", -gap);
        ensure!(gap >= MIN_GAP, "the vehicle from road {} of {} is {:.3} m behind the one ahead", from, roads, gap);
        if gap < 6.0 {
            ctx.cover("close behind");
        }
        if f % dt.frames(2.0) == 0 {
            ctx.state(w.hash());
        }
    }
    ctx.observe(w.hash());
    Ok(())
}

fn clear_link0(w: &World, len: f64) -> bool {
    w.snaps()
        .iter()
        .flatten()
        .all(|s| s.link > 0 || s.pos - s.half_len > 0.5 * len + 2.1)
}

/// Known finding: the tail of a vehicle that stands across a closed line is ignored by a follower
/// while that follower is more than one link before the line.
fn known_overhang(ctx: &mut Ctx) -> Res {
    let mut w = chain(&[40.0, 10.0, 2.0, 1.0, 50.0], &[20.0]).build();
    w.add(&TRUCK, 0, Some(4));
    for frame in 0..300 {
        match frame {
            80 => drop(w.add(&CAR, 0, Some(4))),
            100 => w.freeze(0, true),
            120 => w.control(4, CLOSED),
            _ => {}
        }
        w.step(ctx, 0.1);
        check_gaps(ctx, &w)?;
    }
    Ok(())
}

/// A vehicle at full speed comes up behind one that stands anywhere on the road.
fn approach(ctx: &mut Ctx, grid: usize, followers: &[traffic_sim::VehicleAttributes]) -> Res {
    let lims: &[f64] = [&[10.0] as &[f64], &[20.0], &[33.0], &[25.0, 6.0], &[15.0, 8.0, 5.0, 15.0], &[8.0, 33.0]][ctx.choose(6)];
    let dt = ctx.pick(&DTS);
    let lens: &[f64] = match ctx.choose(3) {
        0 => &[900.0],
        1 => &[300.0, 30.0, 30.0, 30.0, 30.0, 480.0],
        _ => &[250.0, 650.0],
    };
    if lims.len() > 1 && lens.len() == 1 {
        return ctx.prune();
    }
    let a = kind(ctx);
    let b = ctx.pick(followers);
    // The leader stops after covering a multiple of 800 / grid metres.
    let at = 40.0 + 800.0 * ctx.choose(grid) as f64 / grid as f64;
    let last = lens.len() - 1;
    let mut w = chain(lens, lims).build();
    w.add(&a, 0, Some(last));
    let mut frozen = false;
    let mut frame = 0;
    let mut after = 0;
    while after < dt.frames(20.0) && frame < dt.frames(300.0) {
        if let Some(s) = w.snap(0) {
            let p = chain_pos(&w, &s);
            if !frozen && p >= at {
                w.freeze(0, true);
                frozen = true;
            }
            if frozen && s.vel == 0.0 && w.v.len() == 1 {
                w.add(&b, 0, Some(last));
                ctx.log(|| w.describe());
            }
        } else {
            return ctx.prune();
        }
        if w.v.len() == 2 && w.snap(1).is_some_and(|s| s.vel < 0.1) {
            after += 1;
        }
        w.step(ctx, dt.at(frame));
        frame += 1;
        check_gaps(ctx, &w)?;
        if frame % dt.frames(2.0) == 0 {
            ctx.state(w.hash());
        }
    }
    let (s0, s1) = (w.snap(0), w.snap(1));
    if let (Some(s0), Some(s1)) = (s0, s1) {
        let gap = chain_pos(&w, &s0) - s0.half_len - chain_pos(&w, &s1) - s1.half_len;
        ctx.max("widest final gap", gap);
        ctx.cover("queued up");
        ensure!(s1.vel < 0.1 && gap < 6.0, "the vehicle did not queue up behind the standing one: gap {:.2}", gap);
    }
    ctx.observe(w.hash());
    Ok(())
}

pub fn suites(thorough: bool) -> Vec<Suite> {
    let d = if thorough { 8 } else { 6 };
    let d1 = if thorough { 10 } else { 8 };
    let p = if thorough { 5 } else { 4 };
    let starts = if thorough { 16 } else { 10 };
    let dv = if thorough { 5 } else { 4 };
    vec![
        Suite::new(
            "op-histories",
            "every sequence of d operations (wait, add, close/open the last link, freeze/unfreeze any, remove any; 2 s apart) on 4 chains x 2 time steps x 9 vehicle mixes, at most 3 vehicles; d = 6 (quick), 8 (thorough)",
            move |c| {
                histories(
                    c,
                    &[(&[100.0, 100.0], &[16.0]), (&[60.0, 15.0, 60.0], &[12.0, 20.0, 12.0]), (&[150.0, 150.0], &[33.0]), (&[50.0, 20.0, 20.0, 60.0], &[20.0, 8.0, 20.0])],
                    &[Dt::Const(0.1), Dt::Const(0.2)],
                    d,
                    &[CAR, TRUCK, SPORTY],
                    3,
                    true,
                )
            },
        ),
        Suite::new(
            "op-histories-short-links",
            "every sequence of d operations (as above but all links open) on chains with links shorter than a vehicle; d = 8 (quick), 10 (thorough)",
            move |c| {
                histories(
                    c,
                    &[(&[40.0, 10.0, 2.0, 1.0, 50.0], &[20.0]), (&[60.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 40.0], &[15.0])],
                    &[Dt::Const(0.1)],
                    d1,
                    &[CAR],
                    3,
                    false,
                )
            },
        ),
        Suite::new(
            "platoon-braking",
            "platoons of 4/5 vehicles x 9 mixes x 3 speed limits x 4 road shapes x 4 step patterns x 2 headways; leader or second vehicle brakes at every 1.5 s instant for 3 durations",
            move |c| platoon(c, &[CAR, TRUCK, SPORTY], p, starts),
        )
        .reaching(&["platoon braked"]),
        Suite::new(
            "diverge",
            "4/5 vehicles choosing branches in every combination at a diverge, any one of them freezing at any 2 s instant",
            move |c| diverge(c, dv),
        ),
        Suite::new(
            "many-approaches",
            "2, 3, 4 or 6 roads lead to a link directly or through a short one; a vehicle of 3 kinds from any of them comes up behind one that halts there at every second (quick) / half second (thorough) of 12 s, for good or up to 20 s; 2 limits x all step patterns",
            move |c| many_approaches(c, thorough),
        )
        .reaching(&["close behind"]),
        Suite::new(
            "approach",
            "a vehicle at full speed comes up behind one standing at each of 24/80 places; 3 speed limits and 3 sequences of limits x 3 roads x 9 mixes x 4 step patterns",
            move |c| approach(c, if thorough { 80 } else { 24 }, &[CAR, TRUCK, SPORTY]),
        )
        .reaching(&["queued up"]),
        Suite::new(
            "approach-unequal",
            "as approach, by a vehicle that accelerates much harder than it likes to brake, or the other way about",
            move |c| approach(c, if thorough { 80 } else { 24 }, &[EAGER, CALM]),
        )
        .reaching(&["queued up"]),
        Suite::new(
            "overhang-at-closed-line",
            "one fixed history: a truck stands across a line that is then closed, behind links shorter than its overhang",
            known_overhang,
        )
        .known(),
    ]
}
