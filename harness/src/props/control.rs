//! C03 and C04: closed links, signals and signs.

use crate::engine::*;
use crate::scen::*;
use crate::world::*;
use crate::{ensure, fail};
use traffic_sim::{LightState, TrafficControl};

/// Distance (m) kept in hand, beyond the comfortable stopping distance, by a vehicle that is
/// certainly able to stop. The simulation lets vehicles commit 7.5 m before that point.
const MARGIN: f64 = 9.0;

/// Watches the line at the start of link `target` of a chain.
struct Line {
    target: usize,
    /// Vehicles that must not cross as long as the link stays closed.
    blocked: Vec<bool>,
    closed: bool,
}

impl Line {
    fn new(target: usize) -> Self {
        Line {
            target,
            blocked: vec![],
            closed: false,
        }
    }

    /// Position of the line along the chain.
    fn pos(&self, w: &World) -> f64 {
        (0..self.target).map(|i| w.len(i)).sum()
    }

    /// Notes that a vehicle was added.
    fn added(&mut self, w: &World) {
        let v = w.v.len() - 1;
        let s = w.snap(v).unwrap();
        let dist = self.pos(w) - chain_pos(w, &s) - s.half_len;
        self.blocked.push(self.closed && dist > 3.0);
    }

    /// Notes the state of the link after the present step or operation.
    fn set(&mut self, ctx: &mut Ctx, w: &World, closed: bool, react: f64) {
        if closed == self.closed {
            return;
        }
        self.closed = closed;
        let line = self.pos(w);
        for v in 0..w.v.len() {
            self.blocked[v] = false;
            if closed {
                if let Some(s) = w.snap(v) {
                    let dist = line - chain_pos(w, &s) - s.half_len;
                    let stop = s.vel * s.vel / (2.0 * w.attr[v].comf_dec);
                    if dist > stop + MARGIN + react * (s.vel + 1.0) {
                        self.blocked[v] = true;
                        ctx.cover("closed in front of a vehicle");
                    } else {
                        ctx.cover("closed behind a committed vehicle");
                    }
                }
            }
        }
    }

    fn check(&self, ctx: &mut Ctx, w: &World) -> Res {
        let line = self.pos(w);
        for v in 0..w.v.len() {
            if self.blocked[v] {
                ctx.checked();
                let Some(s) = w.snap(v) else { fail!("v{} passed a closed link and left", v) };
                let front = chain_pos(w, &s) + s.half_len;
                ctx.max("closest to a closed line (negated)", front - line);
                if front > line - 1.5 {
                    ctx.log(|| w.describe());
                    fail!("v{} is {:.3} m past the stopping place of a closed link", v, front - line + 1.5);
                }
            }
        }
        Ok(())
    }

    /// Every blocked vehicle must stand in the end, the first of them near the line.
    fn check_standing(&self, ctx: &mut Ctx, w: &World) -> Res {
        let line = self.pos(w);
        let mut best = f64::INFINITY;
        for v in 0..w.v.len() {
            if self.blocked[v] {
                let s = w.snap(v).unwrap();
                ensure!(s.vel < 0.1, "v{} still moves at {:.2} m/s in front of a closed link", v, s.vel);
                ctx.cover("stands at a closed link");
            }
            if let Some(s) = w.snap(v) {
                let dist = line - chain_pos(w, &s) - s.half_len;
                if dist > 0.0 {
                    best = best.min(dist);
                }
            }
        }
        if best.is_finite() && self.blocked.contains(&true) {
            ctx.max("distance of the first standing vehicle", best);
            ensure!(best < 8.0, "the first vehicle stopped {:.1} m before the line", best);
        }
        Ok(())
    }
}

/// Every history of control changes.
fn toggles(ctx: &mut Ctx, changes: usize, slots: usize) -> Res {
    let (lens, lim, target): (&[f64], f64, usize) = ctx.pick(&[
        (&[120.0, 80.0][..], 15.0, 1),
        (&[60.0, 15.0, 15.0, 60.0][..], 12.0, 3),
        (&[80.0, 30.0, 60.0][..], 25.0, 1),
        (&[40.0, 6.0, 40.0, 40.0][..], 10.0, 2),
    ]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let a = kind(ctx);
    let second = ctx.pick(&[usize::MAX, 2, 5]);
    let start_closed = ctx.choose(2) == 1;
    let last = lens.len() - 1;
    let mut w = chain(lens, &[lim]).build();
    let mut line = Line::new(target);
    let react = dt.reaction();
    if start_closed {
        w.control(target, CLOSED);
        line.set(ctx, &w, true, react);
    }
    w.add(&a, 0, Some(last));
    line.added(&w);
    ctx.set_budget(changes);
    let menu = [OPEN, CLOSED, give_way(10.0, false, 0)];
    let mut cur = start_closed as usize;
    let mut frame = 0;
    for slot in 0..slots {
        if slot == second {
            let k = ctx.pick(&[CAR, TRUCK]);
            if w.snap(0).is_none_or(|s| s.link > 0 || s.rear() > 0.5 * k.length + 2.1) {
                w.add(&k, 0, Some(last));
                line.added(&w);
            } else {
                return ctx.prune();
            }
        }
        // 0 keeps the control, otherwise one of the two other controls is set.
        let c = ctx.dev(3);
        if c != 0 {
            cur = (cur + c) % 3;
            w.control(target, menu[cur]);
            line.set(ctx, &w, cur == 1, react);
            ctx.log(|| format!("control {:?} | {}", menu[cur], w.describe()));
        }
        for _ in 0..dt.frames(1.5) {
            w.step(ctx, dt.at(frame));
            frame += 1;
            line.check(ctx, &w)?;
        }
        ctx.state(w.hash());
    }
    for _ in 0..dt.frames(25.0) {
        w.step(ctx, dt.at(frame));
        frame += 1;
        line.check(ctx, &w)?;
    }
    line.check_standing(ctx, &w)?;
    w.control(target, OPEN);
    line.set(ctx, &w, false, react);
    for _ in 0..dt.frames(70.0) {
        w.step(ctx, dt.at(frame));
        frame += 1;
    }
    ctx.log(|| w.describe());
    for v in 0..w.v.len() {
        ensure!(!w.alive(v), "v{} did not drive on within 70 s after the link was opened", v);
    }
    ctx.observe(w.hash());
    Ok(())
}

/// The link closes at every single frame of the approach.
fn every_frame(ctx: &mut Ctx, thorough: bool) -> Res {
    let lim = ctx.pick(&[6.0, 14.0, 22.0, 33.0]);
    let dt = ctx.pick(&DTS);
    let k = kind(ctx);
    let lens: &[f64] = match ctx.choose(3) {
        0 => &[400.0, 60.0],
        1 => &[340.0, 30.0, 30.0, 60.0],
        _ => &[350.0, 20.0, 10.0, 10.0, 10.0, 60.0],
    };
    let target = lens.len() - 1;
    let mut w = chain(lens, &[lim]).build();
    w.add(&k, 0, Some(target));
    let mut line = Line::new(target);
    line.blocked.push(false);
    let every = if thorough { 1 } else { 4 };
    // Close when the vehicle has come within 8 m .. 260 m of the line (step 1 m or 4 m).
    let at = 8.0 + (every * ctx.choose(252 / every)) as f64;
    let mut frame = 0;
    loop {
        let Some(s) = w.snap(0) else { return ctx.prune() };
        if line.pos(&w) - chain_pos(&w, &s) - s.half_len <= at {
            break;
        }
        w.step(ctx, dt.at(frame));
        frame += 1;
        ensure!(frame < 20_000, "the vehicle never came near the line");
    }
    w.control(target, CLOSED);
    line.set(ctx, &w, true, dt.reaction());
    ctx.log(|| format!("closed | {}", w.describe()));
    let mut n = 0;
    while n < dt.frames(120.0) && w.snap(0).is_some_and(|s| s.vel > 0.05) {
        w.step(ctx, dt.at(frame));
        frame += 1;
        n += 1;
        line.check(ctx, &w)?;
        if n % 20 == 0 {
            ctx.state(w.hash());
        }
    }
    for _ in 0..dt.frames(20.0) {
        w.step(ctx, dt.at(frame));
        frame += 1;
        line.check(ctx, &w)?;
    }
    ctx.log(|| w.describe());
    line.check_standing(ctx, &w)?;
    if !line.blocked[0] {
        // Committed or not, the vehicle must not be left standing on the line.
        if let Some(s) = w.snap(0) {
            let front = chain_pos(&w, &s) + s.half_len - line.pos(&w);
            let rear = front - 2.0 * s.half_len;
            ensure!(
                front < 0.0 || rear > -0.01 || s.vel > 0.1,
                "v0 stands across the closed line, {:.2} m over it", front
            );
        }
    }
    ctx.observe(w.hash());
    Ok(())
}

/// A signal controls the link; vehicles arrive at every phase of its cycle.
fn signals(ctx: &mut Ctx, vehicles: usize, slots: usize) -> Res {
    let dt = ctx.pick(&[0.125, 0.0625]);
    let lim = ctx.pick(&[10.0, 20.0]);
    let (green, other, amber, red) = ctx.pick(&[(6.0, 6.0, 3.0, 1.0), (12.0, 4.0, 2.0, 0.5), (3.0, 15.0, 4.0, 2.0)]);
    let ap = ctx.pick(&[70.0, 130.0]);
    // Two crossing roads; movement 0 controls the x road, movement 1 the y road.
    let mut n = cross(ap, 10.0, std::f64::consts::FRAC_PI_2, [lim, lim], 40.0);
    n.lights.push(LightSpec {
        movements: vec![
            MoveSpec { conflict: 2, amber, red, links: vec![1] },
            MoveSpec { conflict: 1, amber, red, links: vec![4] },
        ],
        phases: vec![(1, green), (2, other)],
    });
    let mut w = n.build();
    let mut lines = [Line::new(1), Line::new(1)];
    for l in &mut lines {
        l.closed = false;
    }
    let mut road = vec![];
    let mut slot = 0;
    let mut frame = 0;
    let slot_len = (2.0 / dt) as usize;
    while frame < slots * slot_len || w.sim.iter_vehicles().count() > 0 {
        if frame % slot_len == 0 && slot < slots {
            slot += 1;
            let c = if w.v.len() < vehicles { ctx.choose(3) } else { 0 };
            if c > 0 {
                let r = c - 1;
                if w.snaps().iter().flatten().any(|s| s.link == 3 * r && s.rear() < 4.7) {
                    return ctx.prune();
                }
                w.add(&CAR, 3 * r, Some(3 * r + 2));
                road.push(r);
                ctx.log(|| format!("arrival on road {} | {}", r, w.describe()));
            }
        }
        w.step(ctx, dt);
        frame += 1;
        let st: Vec<LightState> = w.sim.iter_lights().next().unwrap().1.state().map(|x| x.1).collect();
        for r in 0..2 {
            // Per road, the chain is links 3r, 3r+1, 3r+2.
            let closed = st[r] != LightState::Green;
            let l = &mut lines[r];
            while l.blocked.len() < w.v.len() {
                let v = l.blocked.len();
                let fresh = w.snap(v).is_some_and(|s| s.front() < w.len(3 * r) - 9.0);
                l.blocked.push(l.closed && closed && fresh && road[v] == r);
            }
            if closed != l.closed {
                l.closed = closed;
                for v in 0..w.v.len() {
                    l.blocked[v] = false;
                    if let Some(s) = w.snap(v) {
                        if closed && road[v] == r && s.link == 3 * r {
                            let dist = w.len(3 * r) - s.front();
                            let stop = s.vel * s.vel / (2.0 * w.attr[v].comf_dec);
                            if dist > stop + MARGIN + 0.3 * (s.vel + 1.0) {
                                l.blocked[v] = true;
                                ctx.cover("red in front of a vehicle");
                            } else {
                                ctx.cover("red behind a committed vehicle");
                            }
                        }
                    }
                }
            }
            for v in 0..w.v.len() {
                if l.blocked[v] {
                    ctx.checked();
                    let ok = w.snap(v).is_some_and(|s| s.link == 3 * r && s.front() < w.len(3 * r) - 0.5);
                    if !ok {
                        ctx.log(|| w.describe());
                        fail!("v{} passed a red signal", v);
                    }
                }
            }
        }
        if frame % slot_len == 0 {
            ctx.state(w.hash());
        }
        ensure!(frame < (300.0 / dt) as usize, "vehicles are still waiting after 300 s: {}", w.describe());
    }
    ctx.observe(w.hash());
    Ok(())
}

/// A closed branch of a diverge does not hinder traffic to the other branch.
fn closed_branch(ctx: &mut Ctx) -> Res {
    let lim = ctx.pick(&[8.0, 20.0]);
    let dt = ctx.pick(&DTS);
    let k = kind(ctx);
    let mut n = Net::new();
    n.line(0.0, 0.0, 150.0, 0.0, lim);
    n.line(150.0, 0.0, 300.0, 40.0, lim);
    n.line(150.0, 0.0, 300.0, -40.0, lim);
    n.conn(0, 1);
    n.conn(0, 2);
    let closed = 1 + ctx.choose(2);
    let dst = 1 + ctx.choose(2);
    n.controls.push((closed, CLOSED));
    let mut w = n.build();
    w.add(&k, 0, Some(dst));
    for f in 0..dt.frames(120.0) {
        w.step(ctx, dt.at(f));
        if f % 20 == 0 {
            ctx.state(w.hash());
        }
        if dst == closed {
            let s = w.snap(0);
            ctx.checked();
            ensure!(
                s.is_some_and(|s| s.link == 0 && s.front() < w.len(0) - 0.5),
                "v0 entered the closed branch"
            );
        }
    }
    ctx.log(|| w.describe());
    if dst != closed {
        ensure!(!w.alive(0), "v0 was held up by the closure of a branch it does not take");
    } else {
        ensure!(w.snap(0).unwrap().vel < 0.1, "v0 did not stop");
    }
    ctx.observe(w.hash());
    Ok(())
}

/// A vehicle on its way to an open branch is sent to the closed one, at every moment.
fn rerouted(ctx: &mut Ctx) -> Res {
    let lim = ctx.pick(&[2.5, 4.0, 6.0, 10.0, 17.0]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.0625), Dt::Alt(0.03, 0.17)]);
    let k = kind(ctx);
    let (short, second) = ctx.pick(&[(false, false), (true, false), (false, true)]);
    let mut n = Net::new();
    let ap = if short { [52.0, 4.0, 4.0] } else { [20.0, 20.0, 20.0] };
    let mut x = 0.0;
    for (i, a) in ap.iter().enumerate() {
        n.line(x, 0.0, x + a, 0.0, lim);
        x += a;
        if i > 0 {
            n.conn(i - 1, i);
        }
    }
    n.line(x, 0.0, x + 50.0, 30.0, lim);
    n.line(x, 0.0, x + 50.0, -30.0, lim);
    n.conn(2, 3);
    n.conn(2, 4);
    n.controls.push((4, CLOSED));
    let frames = dt.frames(30.0);
    let at = 2 * ctx.choose(frames / 2);
    let mut w = n.build();
    w.add(&k, 0, Some(3));
    let mut held = false;
    for f in 0..frames + dt.frames(20.0) {
        if f == at {
            let Some(s) = w.snap(0) else { return ctx.prune() };
            if s.link > 2 {
                return ctx.prune();
            }
            w.dest(0, 4);
            let dist = x - chain_pos(&w, &s) - s.half_len;
            let stop = s.vel * s.vel / (2.0 * k.comf_dec) + 2.5;
            // The new path is taken within 0.3 s, the braking begins within 0.1 s after it.
            held = dist > stop + (s.vel + 0.3) * (0.4 + 3.0 * dt.max()) + 0.5;
            ctx.cover(if held { "sent to the closed branch in time" } else { "sent there too late" });
            ctx.log(|| w.describe());
            if second {
                w.sim.set_link_control(w.l[4], OPEN);
                w.sim.set_link_control(w.l[4], CLOSED);
            }
        }
        w.step(ctx, dt.at(f));
        if f % 10 == 0 {
            ctx.state(w.hash());
            ctx.log(|| w.describe());
        }
        if held {
            ctx.checked();
            ensure!(
                w.snap(0).is_some_and(|s| s.link <= 2 && chain_pos(&w, &s) + s.half_len < x - 0.5),
                "v0 was sent to a closed branch in time to stop and did not stop before it"
            );
        }
    }
    ctx.observe(w.hash());
    Ok(())
}

pub fn closed(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "control-histories",
            "every history of at most 3 (quick) / 4 (thorough) changes between open, closed and give-way at any of 12/14 instants 1.5 s apart; 4 chains x 3 vehicle kinds x optional second vehicle x 3 step patterns x initially open or closed",
            move |c| toggles(c, if t { 4 } else { 3 }, if t { 14 } else { 12 }),
        )
        .reaching(&["closed in front of a vehicle", "closed behind a committed vehicle", "stands at a closed link"]),
        Suite::new(
            "every-distance",
            "the link closes when the vehicle is at each distance from 8 to 260 m (step 4 m quick, 1 m thorough); 4 limits x 3 kinds x 3 chains x 4 step patterns",
            move |c| every_frame(c, t),
        )
        .reaching(&["closed in front of a vehicle", "closed behind a committed vehicle", "stands at a closed link"]),
        Suite::new(
            "signals",
            "every arrival pattern of at most 3 (quick) / 4 (thorough) vehicles on two signalled crossing roads in 2 s slots over one signal cycle, 3 signal plans x 2 limits x 2 approaches x 2 time steps",
            move |c| signals(c, if t { 4 } else { 3 }, if t { 10 } else { 8 }),
        )
        .reaching(&["red in front of a vehicle", "red behind a committed vehicle"]),
        Suite::new(
            "closed-branch",
            "a diverge with one closed branch, destination either branch; 2 limits x 3 kinds x 4 step patterns",
            closed_branch,
        ),
        Suite::new(
            "sent-to-closed-branch",
            "a vehicle bound for an open branch gets a destination on the closed branch at every second step of 30 s; 5 limits x 3 kinds x 3 approaches x 3 step patterns",
            rerouted,
        )
        .reaching(&["sent to the closed branch in time", "sent there too late"]),
    ]
}

/// The traffic controls at signs, as a menu.
pub const fn stop_sign(distance: f64) -> TrafficControl {
    give_way(distance, true, 0)
}

/// Watches the sign at the start of link `target`, which is reached from link `target - 1`.
struct Sign {
    target: usize,
    distance: f64,
    must_stop: bool,
    /// Per vehicle: whether it has stood within the distance; whether it has crossed.
    stood: Vec<bool>,
    slow: Vec<Option<f64>>,
    crossed: Vec<bool>,
}

impl Sign {
    fn new(target: usize, distance: f64, must_stop: bool) -> Self {
        Sign {
            target,
            distance,
            must_stop,
            stood: vec![],
            slow: vec![],
            crossed: vec![],
        }
    }

    /// Checks every vehicle whose route leads over the line; `road` tells which vehicles do.
    fn check(&mut self, ctx: &mut Ctx, w: &World, road: &[bool]) -> Res {
        let ap = self.target - 1;
        while self.stood.len() < w.v.len() {
            self.stood.push(false);
            self.slow.push(None);
            self.crossed.push(false);
        }
        for v in 0..w.v.len() {
            if !road[v] || self.crossed[v] {
                continue;
            }
            match w.snap(v) {
                Some(s) if s.link == ap || (s.link < ap && s.link + 1 == ap) => {
                    // Position of the front relative to the line.
                    let line = if s.link == ap { w.len(ap) } else { w.len(ap) + w.len(s.link) };
                    let d = line - s.front();
                    if d <= self.distance + 0.05 && s.vel < 0.1 {
                        self.stood[v] = true;
                    }
                    if d <= self.distance && self.slow[v].is_none() {
                        self.slow[v] = Some(s.vel);
                        ctx.checked();
                        // Until it is within the distance the vehicle must be able to stop.
                        let need = s.vel * s.vel / 12.0;
                        ctx.max("emergency stopping distance minus distance left at the sign", need - d);
                        ensure!(
                            need <= d + 0.5,
                            "v{} reaches the sign's distance ({} m) at {:.2} m/s: it cannot stop any more", v, self.distance, s.vel
                        );
                    }
                    if d < 0.0 {
                        self.crossed[v] = true;
                    }
                }
                Some(s) if s.link < ap => {}
                _ => self.crossed[v] = true,
            }
            if self.crossed[v] {
                ctx.checked();
                ctx.cover("crossed a sign");
                if self.must_stop && !self.stood[v] {
                    ctx.log(|| w.describe());
                    fail!("v{} crossed a stop line without having stopped within {} m of it", v, self.distance);
                }
            }
        }
        Ok(())
    }
}

/// A sign on the y road of a crossing, traffic on both roads in every arrival pattern.
fn sign_crossing(ctx: &mut Ctx, vehicles: usize, slots: usize) -> Res {
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2)]);
    let distance = ctx.pick(&[3.0, 8.0, 20.0]);
    let must_stop = ctx.choose(2) == 0;
    let lim = ctx.pick(&[8.0, 16.0]);
    let both = ctx.choose(2) == 1;
    let k = ctx.pick(&[CAR, TRUCK]);
    let mut n = cross(60.0, 8.0, std::f64::consts::FRAC_PI_2, [lim, lim], 30.0);
    n.controls.push((4, give_way(distance, must_stop, 0)));
    if both {
        n.controls.push((1, give_way(distance, must_stop, 0)));
    }
    let mut w = n.build();
    let mut sy = Sign::new(4, distance, must_stop);
    let mut sx = Sign::new(1, distance, must_stop);
    let (mut ry, mut rx) = (vec![], vec![]);
    let mut frame = 0;
    for _ in 0..slots {
        let c = if w.v.len() < vehicles { ctx.choose(3) } else { 0 };
        if c > 0 {
            let r = 2 - c;
            if w.snaps().iter().flatten().any(|s| s.link == 3 * r && s.rear() < 0.5 * k.length + 2.2) {
                return ctx.prune();
            }
            w.add(&k, 3 * r, Some(3 * r + 2));
            ry.push(r == 1);
            rx.push(r == 0 && both);
            ctx.log(|| format!("arrival on road {} | {}", r, w.describe()));
        }
        for _ in 0..dt.frames(2.5) {
            w.step(ctx, dt.at(frame));
            frame += 1;
            sy.check(ctx, &w, &ry)?;
            sx.check(ctx, &w, &rx)?;
        }
        ctx.state(w.hash());
    }
    while w.sim.iter_vehicles().count() > 0 {
        w.step(ctx, dt.at(frame));
        frame += 1;
        sy.check(ctx, &w, &ry)?;
        sx.check(ctx, &w, &rx)?;
        ensure!(frame < dt.frames(200.0), "vehicles are still waiting at the sign after 200 s: {}", w.describe());
    }
    ctx.observe(w.hash());
    Ok(())
}

/// Signs along a chain without any other traffic: a queue of vehicles, several signs in a row.
fn sign_chain(ctx: &mut Ctx, vehicles: usize) -> Res {
    let dt = ctx.pick(&DTS);
    let lim = ctx.pick(&[6.0, 14.0, 28.0]);
    let distance = ctx.pick(&[3.0, 5.0, 12.0, 30.0]);
    let must_stop = ctx.choose(2) == 0;
    let k = kind(ctx);
    let lens: &[f64] = match ctx.choose(4) {
        0 => &[200.0, 60.0],
        1 => &[150.0, 40.0, 40.0],
        2 => &[150.0, 12.0, 40.0],
        _ => &[150.0, 20.0, 20.0, 40.0],
    };
    // Which links carry the sign.
    let set = 1 + ctx.choose((1 << (lens.len() - 1)) - 1);
    let gap = ctx.pick(&[0.0, 3.0, 8.0]);
    let mut n = chain(lens, &[lim]);
    let mut signs = vec![];
    for i in 1..lens.len() {
        if (set >> (i - 1)) & 1 != 0 {
            n.controls.push((i, give_way(distance, must_stop, 0)));
            if lens[i - 1] > distance + 1.0 {
                signs.push(Sign::new(i, distance, must_stop));
            }
        }
    }
    let mut w = n.build();
    let mut road = vec![];
    let mut frame = 0;
    let mut next = 0;
    while frame == 0 || w.v.len() < vehicles || w.sim.iter_vehicles().count() > 0 {
        if w.v.len() < vehicles
            && frame >= next
            && w.snaps().iter().flatten().all(|s| s.link > 0 || s.rear() > 0.5 * k.length + 2.2)
        {
            w.add(&k, 0, Some(lens.len() - 1));
            road.push(true);
            next = frame + dt.frames(gap);
        }
        w.step(ctx, dt.at(frame));
        frame += 1;
        for s in &mut signs {
            s.check(ctx, &w, &road)?;
        }
        if frame % dt.frames(2.0) == 0 {
            ctx.state(w.hash());
        }
        ensure!(frame < dt.frames(300.0), "vehicles are still waiting after 300 s although nothing is in the way: {}", w.describe());
    }
    ctx.observe(w.hash());
    Ok(())
}

/// A vehicle on its way to one branch of a diverge is sent to the other, which has a stop sign, at every moment.
fn sent_to_sign(ctx: &mut Ctx) -> Res {
    let lim = ctx.pick(&[6.0, 10.0, 14.0]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.0625), Dt::Alt(0.03, 0.17)]);
    let k = kind(ctx);
    let last = ctx.pick(&[20.0, 60.0]);
    let distance = ctx.pick(&[4.0, 8.0]);
    // The control of the first branch, and whether something stands across it.
    let (first, blocked) = ctx.pick(&[(OPEN, false), (CLOSED, false), (give_way(30.0, false, 0), false), (give_way(30.0, false, 0), true), (give_way(8.0, false, 0), true), (give_way(8.0, true, 0), true)]);
    let mut n = Net::new();
    n.line(0.0, 0.0, 80.0, 0.0, lim);
    n.line(80.0, 0.0, 80.0 + last, 0.0, lim);
    let x = 80.0 + last;
    n.line(x, 0.0, x + 50.0, 30.0, lim);
    n.line(x, 0.0, x + 50.0, -30.0, lim);
    n.conn(0, 1);
    n.conn(1, 2);
    n.conn(1, 3);
    n.line(x + 25.0, 60.0, x + 25.0, 5.0, lim);
    n.convs.push((2, 4));
    n.controls.push((2, first));
    n.controls.push((3, give_way(distance, true, 0)));
    let frames = dt.frames(30.0);
    let at = 2 * ctx.choose(frames / 2);
    let mut w = n.build();
    let mut frame = 0;
    if blocked {
        let b = w.add(&CAR, 4, Some(4));
        while w.snap(b).is_some_and(|s| s.pos < 42.0) {
            w.step(ctx, dt.at(frame));
            frame += 1;
        }
        w.freeze(b, true);
        for _ in 0..dt.frames(6.0) {
            w.step(ctx, dt.at(frame));
            frame += 1;
        }
    }
    let v = w.add(&k, 0, Some(2));
    let (mut due, mut stood) = (false, false);
    for f in 0..frames + dt.frames(40.0) {
        if f == at {
            let Some(s) = w.snap(v) else { return ctx.prune() };
            if s.link > 1 {
                return ctx.prune();
            }
            w.dest(v, 3);
            let dist = x - chain_pos(&w, &s) - s.half_len;
            let stop = s.vel * s.vel / (2.0 * k.comf_dec) + 2.5;
            due = dist > stop + (s.vel + 0.3) * (0.4 + 3.0 * dt.max()) + 0.5;
            ctx.cover(if due { "sent to the sign in time" } else { "sent there too late" });
            if s.vel < 0.1 {
                ctx.cover("sent there while standing at the line");
            }
            ctx.log(|| w.describe());
        }
        w.step(ctx, dt.at(frame));
        frame += 1;
        if frame % 10 == 0 {
            ctx.state(w.hash());
            ctx.log(|| w.describe());
        }
        let s = w.snap(v);
        if let Some(s) = s.filter(|s| s.link < 2) {
            stood |= s.vel < 0.1 && x - chain_pos(&w, &s) - s.half_len <= distance + 0.05;
        }
        if due && !stood {
            ctx.checked();
            ensure!(
                s.is_some_and(|s| s.link <= 1 && chain_pos(&w, &s) + s.half_len < x),
                "v{} was sent to a branch with a stop sign in time and crossed the line without having stopped within {} m of it", v, distance
            );
        }
    }
    if due {
        ensure!(!w.alive(v), "v{} is still there 40 s after it was sent to another branch", v);
    }
    ctx.observe(w.hash());
    Ok(())
}

/// Up to the moment at which the sign lets it go a vehicle drives as towards a closed link, and then goes.
fn sign_as_closed(ctx: &mut Ctx, thorough: bool) -> Res {
    let dt = ctx.pick(&DTS);
    let lim = ctx.pick(&[6.0, 10.0, 14.0, 20.0]);
    let distance = if thorough { 2.75 + 0.5 * ctx.choose(60) as f64 } else { ctx.pick(&[2.75, 3.5, 4.0, 5.0, 5.5, 6.0, 7.0, 9.0, 14.0, 30.0]) };
    let must_stop = ctx.choose(2) == 0;
    let k = kind(ctx);
    let pair = ctx.choose(2) == 1;
    let lens: &[f64] = match ctx.choose(3) {
        0 => &[150.0, 60.0],
        1 => &[100.0, 45.0, 40.0],
        _ => &[100.0, 33.0, 14.0, 60.0],
    };
    let last = lens.len() - 1;
    let line: f64 = lens[..last].iter().sum();
    let build = |c| {
        let mut n = chain(lens, &[lim]);
        n.controls.push((last, c));
        n.build()
    };
    let mut w = build(give_way(distance, must_stop, 0));
    let mut r = build(CLOSED);
    for w in [&mut w, &mut r] {
        w.add(&k, 0, Some(last));
    }
    let (mut let_go, mut crossed) = (None, false);
    let mut speed = 0.0;
    let mut least: f64 = f64::MAX;
    for f in 0..dt.frames(90.0) {
        let d = dt.at(f);
        if pair && f == dt.frames(4.0) {
            for w in [&mut w, &mut r] {
                w.add(&k, 0, Some(last));
            }
        }
        w.step(ctx, d);
        r.step(ctx, d);
        if f % 20 == 0 {
            ctx.state(w.hash());
            ctx.log(|| w.describe());
        }
        ctx.checked();
        let at = w.snap(0).map(|s| (line - chain_pos(&w, &s) - s.half_len, s.vel));
        let Some((left, vel)) = at else { break };
        if let Some(t) = let_go.filter(|t| left > 0.0 && w.time > t + 0.45 + 3.0 * dt.max()) {
            ctx.max("loss of speed after the sign has let it go", speed - vel);
            ensure!(vel > speed - 0.02, "v0 brakes {:.1} s after it could have passed the sign", w.time - t);
        }
        speed = vel;
        if let_go.is_none() {
            for v in 0..w.v.len() {
                let (Some(a), Some(b)) = (w.snap(v), r.snap(v)) else { fail!("v{} is gone although it has not reached the sign", v) };
                ensure!(
                    (chain_pos(&w, &a) - chain_pos(&r, &b)).abs() < 1e-6,
                    "v{} is not where it would be before a closed link although v0 is {:.2} m from the line: the sign lets it pass too soon", v, left
                );
            }
            if left < distance && (!must_stop || vel < 0.1) {
                let_go = Some(w.time);
                ctx.cover(if must_stop { "let go by a stop sign" } else { "let go by a give-way sign" });
            }
        } else {
            least = least.min(vel);
        }
        if left < 0.0 && !crossed {
            crossed = true;
            let Some(since) = let_go else { fail!("v0 crossed the line before it was let go") };
            let took = w.time - since;
            if must_stop {
                ctx.max("time to cross a stop line after standing (s)", took);
                ensure!(took <= STOP_LEAVE, "v0 needs {:.1} s to cross the line after it has stood before it", took);
            } else if distance >= 4.0 {
                ctx.max("slowness before a give-way line (1/speed)", 1.0 / least);
                ensure!(least > 0.5, "v0 slows down to {:.2} m/s at a give-way sign although its way is free", least);
            }
        }
    }
    ensure!(crossed, "v0 does not cross the line: {}", w.describe());
    ctx.observe(w.hash());
    Ok(())
}

/// The longest time that a vehicle may take to cross a stop line that it has stood before.
const STOP_LEAVE: f64 = 5.0;

/// Every history of changes between a stop sign and other controls.
fn sign_histories(ctx: &mut Ctx, changes: usize, slots: usize) -> Res {
    let (lens, lim, target): (&[f64], f64, usize) = ctx.pick(&[
        (&[120.0, 80.0][..], 12.0, 1),
        (&[60.0, 15.0, 15.0, 60.0][..], 10.0, 3),
        (&[80.0, 30.0, 60.0][..], 16.0, 1),
    ]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let k = kind(ctx);
    let second = ctx.pick(&[usize::MAX, 2]);
    let distance = ctx.pick(&[4.0, 8.0]);
    let menu = [give_way(distance, true, 0), OPEN, CLOSED, give_way(distance, false, 0)];
    let mut cur = ctx.choose(4);
    let last = lens.len() - 1;
    let mut w = chain(lens, &[lim]).build();
    let line: f64 = lens[..target].iter().sum();
    let react = dt.reaction();
    w.control(target, menu[cur]);
    w.add(&k, 0, Some(last));
    let mut stood = vec![false; 2];
    let mut excused = vec![false; 2];
    let mut waved = vec![false; 2];
    ctx.set_budget(changes);
    let mut frame = 0;
    for slot in 0..slots + 18 {
        if slot == second {
            if w.snap(0).is_none_or(|s| s.link > 0 || s.rear() > 0.5 * k.length + 2.1) {
                w.add(&k, 0, Some(last));
            } else {
                return ctx.prune();
            }
        }
        let c = if slot < slots { ctx.dev(4) } else { 0 };
        if c != 0 {
            cur = (cur + c) % 4;
            w.control(target, menu[cur]);
            if cur == 0 {
                for v in 0..w.v.len() {
                    if let Some(s) = w.snap(v) {
                        let dist = line - chain_pos(&w, &s) - s.half_len;
                        let stop = s.vel * s.vel / (2.0 * k.comf_dec);
                        // Who has come near during a give-way sign may have been waved through.
                        excused[v] = waved[v] || dist <= stop + MARGIN + react * (s.vel + 1.0);
                        ctx.cover(if excused[v] { "sign put up too late" } else { "sign put up before a vehicle" });
                    }
                }
            }
            ctx.log(|| format!("control {:?} | {}", menu[cur], w.describe()));
        }
        for _ in 0..dt.frames(1.5) {
            w.step(ctx, dt.at(frame));
            frame += 1;
            for v in 0..w.v.len() {
                let left = w.snap(v).map_or(-1.0, |s| line - chain_pos(&w, &s) - s.half_len);
                if left < 0.0 {
                    if cur == 0 && !stood[v] && !excused[v] {
                        ctx.log(|| w.describe());
                        fail!("v{} crossed a stop line without having stopped within {} m of it", v, distance);
                    }
                    // It has crossed.
                    excused[v] = true;
                    continue;
                }
                ctx.checked();
                stood[v] |= left <= distance + 0.05 && w.snap(v).unwrap().vel < 0.1;
                waved[v] |= cur == 3 && left <= distance + 1.0;
            }
        }
        ctx.state(w.hash());
    }
    if cur != 2 {
        for _ in 0..dt.frames(60.0) {
            w.step(ctx, dt.at(frame));
            frame += 1;
        }
        for v in 0..w.v.len() {
            ensure!(!w.alive(v), "v{} still waits although nothing is in the way: {}", v, w.describe());
        }
    }
    ctx.observe(w.hash());
    Ok(())
}

/// A vehicle changes from a lane that ends at a sign to one that ends at a stop sign.
fn sign_after_change(ctx: &mut Ctx, grid: usize) -> Res {
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let lim = ctx.pick(&[6.0, 10.0, 14.0]);
    let k = kind(ctx);
    let distance = ctx.pick(&[4.0, 8.0]);
    let other = ctx.pick(&[OPEN, give_way(30.0, false, 0), give_way(60.0, false, 0), give_way(8.0, true, 0), CLOSED]);
    let at = 120.0 / grid as f64 * ctx.choose(grid) as f64;
    let by_hand = ctx.choose(2) == 1;
    let mut n = lanes(2, 180.0, 3.5, lim, all_changes(2));
    n.line(180.0, 0.0, 260.0, 0.0, lim);
    n.line(180.0, -3.5, 260.0, -3.5, lim);
    n.conn(0, 2);
    n.conn(1, 3);
    n.controls.push((2, other));
    n.controls.push((3, give_way(distance, true, 0)));
    let mut w = n.build();
    w.add(&k, 0, Some(2));
    let (mut moved, mut stood) = (false, false);
    for f in 0..dt.frames(150.0) {
        let Some(s) = w.snap(0) else { break };
        if !moved && s.link == 0 && s.pos >= at {
            moved = true;
            w.dest(0, 3);
            if by_hand {
                w.sim.do_lane_change(w.v[0], w.l[1], 20.0);
            }
            ctx.log(|| w.describe());
        }
        w.step(ctx, dt.at(f));
        if f % 10 == 0 {
            ctx.state(w.hash());
            ctx.log(|| w.describe());
        }
        let Some(s) = w.snap(0) else { break };
        ctx.checked();
        if s.link < 2 {
            let left = 180.0 - s.front();
            stood |= s.link == 1 && left <= distance + 0.05 && s.vel < 0.1;
            ensure!(stood || left > 0.0, "v0 crossed a stop line after a lane change without having stopped within {} m of it", distance);
        }
    }
    ctx.cover(if by_hand { "changed by hand" } else { "changed by itself" });
    ensure!(stood && !w.alive(0), "v0 did not stop at the sign and drive on: {}", w.describe());
    ctx.observe(w.hash());
    Ok(())
}

pub fn signs(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "sign-crossing",
            "every arrival pattern of at most 4 (quick) / 5 (thorough) vehicles on a crossing with a stop or give-way sign on one or both roads, 6/7 slots of 2.5 s; 3 distances x 2 limits x 2 kinds x 2 time steps; run until empty",
            move |c| sign_crossing(c, if t { 5 } else { 4 }, if t { 7 } else { 6 }),
        )
        .reaching(&["crossed a sign"]),
        Suite::new(
            "sign-chain",
            "queues of 3 (quick) / 5 (thorough) vehicles over every placement of signs on 4 chains; 4 distances x 3 limits x 3 kinds x 3 headways x 4 step patterns; run until empty",
            move |c| sign_chain(c, if t { 5 } else { 3 }),
        )
        .reaching(&["crossed a sign"]),
        Suite::new(
            "sent-to-sign",
            "a vehicle bound for a branch that is open, closed or has a sign, with or without a standing vehicle across it, gets a destination on the branch with a stop sign at every second step of 30 s; 2 distances x 3 limits x 3 kinds x 2 approaches x 3 step patterns",
            sent_to_sign,
        )
        .reaching(&["sent to the sign in time", "sent there too late", "sent there while standing at the line"]),
        Suite::new(
            "as-before-a-closed-link",
            "one or two vehicles come to a sign and, in a second run, to a closed link; 10/60 distances from 2.75 m x 2 signs x 4 limits x 3 kinds x 3 chains x 4 step patterns",
            move |c| sign_as_closed(c, t),
        )
        .reaching(&["let go by a stop sign", "let go by a give-way sign"]),
        Suite::new(
            "sign-histories",
            "every history of at most 2/3 changes between stop sign, open, closed and give-way sign at any of 10/14 instants 1.5 s apart, each beginning; 3 chains x 3 kinds x optional second vehicle x 2 distances x 2 step patterns",
            move |c| sign_histories(c, if t { 3 } else { 2 }, if t { 14 } else { 10 }),
        )
        .reaching(&["sign put up too late", "sign put up before a vehicle"]),
        Suite::new(
            "sign-after-lane-change",
            "a vehicle changes at each of 12/60 places, by itself or by hand, from a lane with another control at its end to one with a stop sign; 5 controls x 2 distances x 3 limits x 3 kinds x 3 step patterns",
            move |c| sign_after_change(c, if t { 60 } else { 12 }),
        )
        .reaching(&["changed by itself", "changed by hand"]),
    ]
}
