//! C08, C10, C11, C17 (part), C19: properties of every step of every history.

use crate::driver::*;
use crate::engine::*;
use crate::scen::*;
use crate::world::*;
use crate::{ensure, fail};

/// C08: kinematic identities.
struct Kinematics;

/// Whether going from `a` to `b` along connections can cover exactly the distance `d`.
fn route_dist(sc: &Scene, w: &World, a: usize, b: usize, base: f64, d: f64, depth: usize) -> bool {
    if depth > 8 {
        return false;
    }
    sc.succ(a).into_iter().any(|n| {
        (n == b && (base - d).abs() < 1e-6) || (base < d + 1.0 && route_dist(sc, w, n, b, base + w.len(n), d, depth + 1))
    })
}

impl Monitor for Kinematics {
    fn step(&mut self, ctx: &mut Ctx, sc: &Scene, before: &[Option<Snap>], w: &World, dt: f64) -> Res {
        for (v, a) in before.iter().enumerate() {
            let (Some(a), Some(b)) = (a, w.snap(v)) else { continue };
            let attr = &w.attr[v];
            ctx.checked();
            ensure!(b.vel >= 0.0 && b.vel.is_finite(), "v{} has velocity {}", v, b.vel);
            let acc = (b.vel - a.vel) / dt;
            ensure!(acc <= attr.max_acc + 1e-6, "v{} accelerates at {:.4} m/s2, beyond its maximum {}", v, acc, attr.max_acc);
            ensure!(acc >= -6.0 - 1e-6, "v{} brakes at {:.4} m/s2, beyond the maximum 6", v, -acc);
            let want = 0.5 * (a.vel + b.vel) * dt;
            if a.link == b.link {
                let moved = b.pos - a.pos;
                ensure!((moved - want).abs() < 1e-6, "v{} moves {:.6} m in a step but its velocity says {:.6} m", v, moved, want);
            } else if sc.grouped(a.link) {
                // A lane change; the distance is judged in the world.
                let moved = ((b.p.x - a.p.x).powi(2) + (b.p.y - a.p.y).powi(2)).sqrt();
                ensure!((moved - want).abs() < 0.3, "v{} moves {:.6} m while changing lanes but its velocity says {:.6} m", v, moved, want);
                ctx.cover("changes lanes");
            } else {
                ctx.cover("crosses into another link");
                let rest = w.len(a.link) - a.pos + b.pos;
                ensure!(
                    route_dist(sc, w, a.link, b.link, rest, want, 0),
                    "v{} goes from link {} at {:.4} m to link {} at {:.4} m in a step, but its velocity says {:.6} m",
                    v, a.link, a.pos, b.link, b.pos, want
                );
            }
        }
        Ok(())
    }
}

/// C10: frozen vehicles.
#[derive(Default)]
struct Frozen {
    /// Per vehicle: time since it was frozen.
    since: Vec<Option<f64>>,
    react: f64,
}

impl Monitor for Frozen {
    fn op(&mut self, _ctx: &mut Ctx, _sc: &Scene, w: &World, op: &Op) -> Res {
        while self.since.len() < w.v.len() {
            self.since.push(None);
        }
        match *op {
            Op::Freeze(v) => self.since[v] = Some(0.0),
            Op::Release(v) => self.since[v] = None,
            _ => {}
        }
        Ok(())
    }

    fn step(&mut self, ctx: &mut Ctx, sc: &Scene, before: &[Option<Snap>], w: &World, dt: f64) -> Res {
        for (v, a) in before.iter().enumerate() {
            let (Some(a), Some(b)) = (a, w.snap(v)) else { continue };
            if let Some(t) = self.since[v].as_mut() {
                *t += dt;
                ctx.checked();
                if *t > self.react + 1e-9 {
                    ensure!(
                        b.vel <= (a.vel - 6.0 * dt).max(0.0) + 1e-6,
                        "v{} is frozen but goes from {:.3} to {:.3} m/s in {} s", v, a.vel, b.vel, dt
                    );
                    if a.vel == 0.0 {
                        ctx.cover("stands frozen");
                        let d = ((b.p.x - a.p.x).powi(2) + (b.p.y - a.p.y).powi(2)).sqrt();
                        let tol = if sc.grouped(a.link) { 0.02 } else { 1e-6 };
                        ensure!(d <= tol, "v{} is frozen and moves by {:.6} m", v, d);
                    } else {
                        ctx.cover("brakes frozen");
                    }
                }
            }
        }
        Ok(())
    }
}

/// The flags as read back.
fn check_flags(w: &mut World, frozen: &[usize]) -> Res {
    for v in 0..w.v.len() {
        if w.alive(v) {
            let f = w.sim.get_vehicle_frozen(w.v[v]);
            ensure!(f == frozen.contains(&v), "v{} reads frozen={} but was set to {}", v, f, frozen.contains(&v));
        }
    }
    Ok(())
}

/// C11: the population.
#[derive(Default)]
struct Population {
    /// Per vehicle: destination, and whether it should exist.
    dest: Vec<usize>,
    there: Vec<bool>,
}

impl Population {
    fn compare(&self, ctx: &mut Ctx, w: &World) -> Res {
        ctx.checked();
        let ids: Vec<_> = w.sim.iter_vehicles().map(|v| v.id()).collect();
        let want = self.there.iter().filter(|x| **x).count();
        ensure!(ids.len() == want, "{} vehicles are listed instead of {}: {}", ids.len(), want, w.describe());
        for v in 0..w.v.len() {
            let n = ids.iter().filter(|x| **x == w.v[v]).count();
            ensure!(n == self.there[v] as usize, "v{} is listed {} times, expected {}: {}", v, n, self.there[v] as usize, w.describe());
            if n == 1 {
                let x = w.sim.get_vehicle(w.v[v]);
                ensure!(x.id() == w.v[v], "v{} has another identity", v);
                ensure!(
                    (x.length() - w.attr[v].length).abs() < 1e-9 && (x.width() - w.attr[v].width).abs() < 1e-9,
                    "v{} changed its size", v
                );
                ensure!(x.destination() == w.l[self.dest[v]], "v{} changed its destination", v);
                let l = x.link_id().and_then(|l| w.li(l));
                let Some(l) = l else { fail!("v{} is on no link of the network", v) };
                ensure!(
                    x.pos_mid() >= -1e-9 && x.pos_mid() <= w.len(l) + 1e-9,
                    "v{} is at {:.6} m on link {} which is {:.6} m long", v, x.pos_mid(), l, w.len(l)
                );
            }
        }
        Ok(())
    }
}

impl Monitor for Population {
    fn op(&mut self, ctx: &mut Ctx, _sc: &Scene, w: &World, op: &Op) -> Res {
        match *op {
            Op::Add(src, dst, _) => {
                self.dest.push(dst);
                self.there.push(true);
                let s = w.snap(w.v.len() - 1);
                ensure!(s.is_some_and(|s| s.link == src && s.vel == 0.0), "a new vehicle is not at rest on its link");
            }
            Op::Remove(v) => self.there[v] = false,
            Op::Dest(v, d) => self.dest[v] = d,
            _ => {}
        }
        self.compare(ctx, w)
    }

    fn step(&mut self, ctx: &mut Ctx, sc: &Scene, before: &[Option<Snap>], w: &World, dt: f64) -> Res {
        for (v, a) in before.iter().enumerate() {
            let Some(a) = a else { continue };
            if w.alive(v) {
                continue;
            }
            // It may only have left over the end of its destination.
            let reach = a.pos + (a.vel + 0.5 * w.attr[v].max_acc * dt) * dt + 1e-6;
            let d = self.dest[v];
            let ok = (a.link == d && reach >= w.len(d))
                || (sc.succ(a.link).contains(&d) && reach >= w.len(a.link) + w.len(d));
            ensure!(ok, "v{} disappeared from link {} at {:.3} m (destination {})", v, a.link, a.pos, d);
            ctx.cover("left at its destination");
            self.there[v] = false;
        }
        self.compare(ctx, w)
    }
}

fn plan(t: bool, slots: usize, budget: usize) -> Plan {
    Plan {
        slots: slots + if t { 2 } else { 0 },
        slot_s: 2.0,
        budget: budget + t as usize,
        tail_s: 6.0,
        every: 2,
        vehicles: 3,
        dest: true,
        lane: true,
    }
}

fn kinematics(ctx: &mut Ctx, t: bool) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17), Dt::Const(0.25)]);
    let mut w = sc.net.build();
    drive(ctx, &sc, &mut w, dt, &plan(t, 7, 3), &mut Now::default(), &mut Kinematics)
}

/// Every first step length after every other.
fn step_lengths(ctx: &mut Ctx, depth: usize) -> Res {
    let sc = scene(ctx.pick(&[0, 1, 7]));
    let mut w = sc.net.build();
    let (s, d) = sc.trips[0];
    let k = ctx.choose(3);
    w.add(&KINDS[k], s, Some(d));
    let mut m = Kinematics;
    let mut now = Now::default();
    for _ in 0..depth {
        let x = ctx.pick(&[0.01, 0.1, 0.5, 1.0]);
        advance(ctx, &sc, &mut w, Dt::Const(x), (1.5 / x) as usize, &mut now, &mut m)?;
        ctx.state(w.hash());
    }
    ctx.observe(w.hash());
    Ok(())
}

pub fn motion(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "histories",
            "9 networks (chains, short links, curves, diverge, merge, stop-sign crossing, signal, two lanes, roundabout) x 3 step patterns x every history of at most 3 (quick) / 4 (thorough) operations (freeze, release, remove, reroute, lane change, close, open, extra arrival) at 7/9 instants",
            move |c| kinematics(c, t),
        )
        .reaching(&["changes lanes", "crosses into another link"]),
        Suite::new(
            "step-lengths",
            "every sequence of 8 (quick) / 10 (thorough) blocks of 1.5 s with a time step of 0.01, 0.1, 0.5 or 1 s; 3 networks x 3 kinds",
            move |c| step_lengths(c, if t { 10 } else { 8 }),
        ),
    ]
}

fn freezing(ctx: &mut Ctx, t: bool) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let mut m = Frozen { react: dt.reaction(), ..Default::default() };
    let mut now = Now::default();
    drive(ctx, &sc, &mut w, dt, &plan(t, 7, 3), &mut now, &mut m)?;
    check_flags(&mut w, &now.frozen)?;
    // After release everything drives on.
    clear(ctx, &sc, &mut w, dt, &mut now, 300.0)
}

/// Every sequence of flag operations.
fn flags(ctx: &mut Ctx, depth: usize) -> Res {
    let sc = scene(ctx.pick(&[0, 4]));
    let mut w = sc.net.build();
    let mut frozen: Vec<usize> = vec![];
    let n = sc.trips.len();
    let dt = 0.1;
    for (s, d) in &sc.trips {
        w.add(&CAR, *s, Some(*d));
    }
    if n == 1 {
        for _ in 0..40 {
            w.step(ctx, dt);
        }
        w.add(&CAR, sc.trips[0].0, Some(sc.trips[0].1));
    }
    // Steps since each has been frozen.
    let mut since = [0; 8];
    for _ in 0..depth {
        let live: Vec<usize> = (0..w.v.len()).filter(|v| w.alive(*v)).collect();
        let c = ctx.choose(3 * live.len() + 2);
        if c < 3 * live.len() {
            let v = live[c / 3];
            match c % 3 {
                0 => {
                    w.freeze(v, true);
                    if !frozen.contains(&v) {
                        since[v] = 0;
                    }
                    frozen.push(v);
                }
                1 => {
                    w.freeze(v, false);
                    frozen.retain(|x| *x != v);
                }
                _ => {
                    w.remove(v);
                    frozen.retain(|x| *x != v);
                }
            }
        } else if c == 3 * live.len() {
            let (s, d) = sc.trips[0];
            if !crate::props::junction::start_free(&w, s, 5.0) || w.v.len() > 4 {
                return ctx.prune();
            }
            w.add(&CAR, s, Some(d));
        }
        for _ in 0..13 {
            let before = w.snaps();
            w.step(ctx, dt);
            for v in 0..before.len() {
                let (true, Some(a), Some(b)) = (frozen.contains(&v), before[v], w.snap(v)) else { continue };
                since[v] += 1;
                if since[v] > 2 {
                    ctx.cover("frozen");
                    ensure!(b.vel <= (a.vel - 6.0 * dt).max(0.0) + 1e-6, "v{} is frozen but goes from {:.3} to {:.3} m/s", v, a.vel, b.vel);
                }
            }
            check_flags(&mut w, &frozen)?;
            ctx.checked();
        }
        ctx.log(|| w.describe());
        ctx.state(w.hash());
    }
    ctx.observe(w.hash());
    Ok(())
}

/// Flag operations on vehicles some of which take the place of others that were removed, with or
/// without time passing in between.
fn replaced(ctx: &mut Ctx, depth: usize) -> Res {
    let mut n = Net::new();
    for i in 0..3 {
        n.line(0.0, 10.0 * i as f64, 200.0, 10.0 * i as f64, 10.0);
    }
    let mut w = n.build();
    // The vehicle on each road.
    let mut on: [Option<usize>; 3] = [None; 3];
    let mut frozen: Vec<usize> = vec![];
    let mut since = vec![0; 2 * depth + 3];
    let dt = 0.1;
    for i in 0..2 {
        on[i] = Some(w.add(&CAR, i, Some(i)));
    }
    for _ in 0..depth {
        let i = ctx.choose(3);
        match (on[i], ctx.choose(4)) {
            (None, 0) => on[i] = Some(w.add(&CAR, i, Some(i))),
            (None, _) => return ctx.prune(),
            (Some(v), 0) => {
                w.freeze(v, true);
                if !frozen.contains(&v) {
                    since[v] = 0;
                    frozen.push(v);
                }
            }
            (Some(v), 1) => {
                w.freeze(v, false);
                frozen.retain(|x| *x != v);
            }
            (Some(v), c) => {
                w.remove(v);
                frozen.retain(|x| *x != v);
                on[i] = None;
                if c == 3 {
                    on[i] = Some(w.add(&CAR, i, Some(i)));
                    ctx.cover("replaced");
                }
            }
        }
        check_flags(&mut w, &frozen)?;
        for _ in 0..ctx.pick(&[0, 1, 12]) {
            let before = w.snaps();
            w.step(ctx, dt);
            check_flags(&mut w, &frozen)?;
            for v in on.iter().flatten() {
                let (Some(a), Some(b)) = (before[*v], w.snap(*v)) else { continue };
                ctx.checked();
                since[*v] += 1;
                if since[*v] <= 2 {
                    continue;
                }
                if frozen.contains(v) {
                    ensure!(b.vel <= (a.vel - 6.0 * dt).max(0.0) + 1e-6, "v{} is frozen but goes from {:.3} to {:.3} m/s", v, a.vel, b.vel);
                } else {
                    ensure!(b.vel > a.vel || b.vel > 9.0, "v{} is not frozen but goes from {:.3} to {:.3} m/s", v, a.vel, b.vel);
                }
            }
        }
        // What is released needs a moment to react.
        for v in on.iter().flatten() {
            if !frozen.contains(v) {
                since[*v] = since[*v].min(0);
            }
        }
        ctx.log(|| w.describe());
        ctx.state(w.hash());
    }
    ctx.observe(w.hash());
    Ok(())
}

pub fn freeze(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "histories",
            "9 networks x 3 step patterns x every history of at most 3 (quick) / 4 (thorough) operations (freeze, release, remove, reroute, lane change, close, open, extra arrival) at 7/9 instants; afterwards everything is released and must leave",
            move |c| freezing(c, t),
        )
        .reaching(&["stands frozen", "brakes frozen", "cleared"]),
        Suite::new(
            "flags",
            "every sequence of 5 (quick) / 6 (thorough) freeze, release, remove and add calls on up to 4 vehicles",
            move |c| flags(c, if t { 6 } else { 5 }),
        ),
        Suite::new(
            "replaced",
            "every sequence of 4 (quick) / 5 (thorough) freeze, release, remove, add and replace calls on three roads, 0, 1 or 12 steps apart",
            move |c| replaced(c, if t { 5 } else { 4 }),
        )
        .reaching(&["replaced"]),
    ]
}

fn population(ctx: &mut Ctx, t: bool) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.5), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let mut m = Population::default();
    let mut now = Now::default();
    drive(ctx, &sc, &mut w, dt, &plan(t, 7, 3), &mut now, &mut m)?;
    for v in std::mem::take(&mut now.frozen) {
        w.freeze(v, false);
    }
    for l in std::mem::take(&mut now.closed) {
        Op::Open(l).apply(&sc, &mut w);
    }
    advance(ctx, &sc, &mut w, dt, dt.frames(40.0), &mut now, &mut m)
}

/// Adding and removing in every order, on one and several links.
fn add_remove(ctx: &mut Ctx, depth: usize) -> Res {
    let mut n = chain(&[30.0, 4.0, 1.5, 30.0], &[15.0]);
    n.line(0.0, 50.0, 40.0, 50.0, 15.0);
    let dt = ctx.pick(&[0.1, 0.7]);
    let mut w = n.build();
    let mut m = Population::default();
    let sc = Scene { net: n, trips: vec![], closable: vec![], lanes: vec![], dests: vec![] };
    let mut now = Now::default();
    for _ in 0..depth {
        let live: Vec<usize> = (0..w.v.len()).filter(|v| w.alive(*v)).collect();
        let c = ctx.choose(3 + live.len());
        let op = match c {
            0 => None,
            1 => Some(Op::Add(0, 3, 0)),
            2 => Some(Op::Add(4, 4, 1)),
            _ => Some(Op::Remove(live[c - 3])),
        };
        if let Some(Op::Add(s, _, k)) = op {
            if !crate::props::junction::start_free(&w, s, KINDS[k].length) {
                return ctx.prune();
            }
        }
        if let Some(op) = op {
            op.apply(&sc, &mut w);
            m.op(ctx, &sc, &w, &op)?;
        }
        advance(ctx, &sc, &mut w, Dt::Const(dt), (2.1 / dt) as usize, &mut now, &mut m)?;
        ctx.state(w.hash());
    }
    advance(ctx, &sc, &mut w, Dt::Const(dt), (20.0 / dt) as usize, &mut now, &mut m)?;
    ctx.observe(w.hash());
    Ok(())
}

/// Many vehicles on one link, of which any is removed, or changes lanes and halts there.
fn crowded(ctx: &mut Ctx, most: usize) -> Res {
    let n = 2 + ctx.choose(most - 1);
    let i = ctx.choose(n);
    let how = ctx.choose(3);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2)]);
    let kinds = ctx.pick(&[[CAR, CAR], [CAR, TRUCK], [TRUCK, SPORTY]]);
    let halted = ctx.choose(2) == 1;
    let net = lanes(2, 400.0, 3.5, 12.0, 0);
    let mut w = net.build();
    let mut frame = 0;
    while w.v.len() < n {
        if crate::props::junction::start_free(&w, 0, 14.0) {
            w.add(&kinds[w.v.len() % 2], 0, Some(0));
        }
        // Driving, or in a queue.
        w.freeze(0, halted && w.time > 15.0);
        w.step(ctx, dt.at(frame));
        frame += 1;
        // The queue may have become too long.
        if w.time > 120.0 {
            return ctx.prune();
        }
    }
    for _ in 0..dt.frames(3.0) {
        w.step(ctx, dt.at(frame));
        frame += 1;
    }
    if w.snap(i).is_none_or(|s| s.link != 0) {
        return ctx.prune();
    }
    w.freeze(0, false);
    let all = w.sim.iter_vehicles().count();
    match how {
        0 => {
            w.remove(i);
            ensure!(w.sim.iter_vehicles().count() == all - 1, "after the removal of v{} there are {} vehicles instead of {}", i, w.sim.iter_vehicles().count(), all - 1);
        }
        _ => {
            w.sim.do_lane_change(w.v[i], w.l[1], 25.0);
            w.dest(i, 1);
        }
    }
    ctx.log(|| w.describe());
    let begin = w.time;
    let halt = w.snap(i).map_or(0.0, |s| s.pos + 50.0);
    for _ in 0..dt.frames(150.0) {
        w.freeze(i, how == 2 && w.snap(i).is_some_and(|s| s.pos > halt) && w.time < begin + 100.0);
        w.step(ctx, dt.at(frame));
        frame += 1;
        ctx.checked();
        let mut seen = vec![];
        for x in w.sim.iter_vehicles() {
            ensure!(!seen.contains(&x.id()), "a vehicle is listed twice");
            seen.push(x.id());
        }
        for v in 0..n {
            if let Some(x) = w.snap(v) {
                ensure!(x.pos >= 0.0 && x.pos <= w.len(x.link) + 1e-9, "v{} is at {:.2} m of a link of {:.2} m", v, x.pos, w.len(x.link));
                ensure!(x.link == usize::from(v == i), "v{} is on lane {}", v, x.link);
            }
        }
        // The others do not wait for the one that has gone or stands in the other lane.
        if w.time > begin + 95.0 {
            for v in (0..n).filter(|v| *v != i) {
                ensure!(w.snap(v).is_none(), "v{} does not get on after v{} has {}", v, i, if how == 0 { "been removed" } else { "changed lanes" });
            }
            ctx.cover(if how == 0 { "removed" } else { "changed lanes" });
        }
        if frame % 32 == 0 {
            ctx.state(w.hash());
        }
    }
    ensure!(w.sim.iter_vehicles().count() == 0, "{} vehicles are left", w.sim.iter_vehicles().count());
    ctx.observe(w.hash());
    Ok(())
}

/// Vehicles without a destination stay.
fn no_destination(ctx: &mut Ctx) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let dt = ctx.pick(&DTS);
    let k = ctx.choose(3);
    let mut w = sc.net.build();
    let links = sc.net.links.len();
    let l = ctx.choose(links);
    w.add(&KINDS[k], l, None);
    if w.len(l) < KINDS[k].length + 2.0 {
        return ctx.prune();
    }
    for f in 0..dt.frames(60.0) {
        w.step(ctx, dt.at(f));
        ctx.checked();
        let s = w.snap(0);
        ensure!(s.is_some_and(|s| s.link == l && s.pos <= w.len(l)), "a vehicle without destination left its link");
        if f % 50 == 0 {
            ctx.state(w.hash());
        }
    }
    ctx.observe(w.hash());
    Ok(())
}

pub fn conserved(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "histories",
            "9 networks x 3 step patterns x every history of at most 3 (quick) / 4 (thorough) operations (freeze, release, remove, reroute, lane change, close, open, extra arrival) at 7/9 instants",
            move |c| population(c, t),
        )
        .reaching(&["left at its destination"]),
        Suite::new(
            "add-remove",
            "every sequence of 8 (quick) / 9 (thorough) additions and removals on two roads with short links, 2 time steps up to 0.7 s",
            move |c| add_remove(c, if t { 9 } else { 8 }),
        )
        .reaching(&["left at its destination"]),
        Suite::new(
            "crowded",
            "2 to 8 (thorough 12) vehicles on one link, driving or in a queue, of which any is removed, changes lanes, or changes lanes and halts; 3 mixes x 2 time steps",
            move |c| crowded(c, if t { 12 } else { 8 }),
        )
        .reaching(&["removed", "changed lanes"]),
        Suite::new(
            "no-destination",
            "a vehicle without destination on every link of 9 networks; 3 kinds x 4 step patterns",
            no_destination,
        ),
    ]
}
