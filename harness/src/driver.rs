//! Enumerates histories of operations on small networks and shows every step to a monitor.

use crate::engine::*;
use crate::scen::*;
use crate::world::*;
use std::f64::consts::PI;
use traffic_sim::{TrafficControl, VehicleAttributes};

/// A network with the places where things can happen.
pub struct Scene {
    pub net: Net,
    /// Origin and destination of the traffic.
    pub trips: Vec<(usize, usize)>,
    /// Links that can be closed.
    pub closable: Vec<usize>,
    /// Lane pairs between which a vehicle can be told to change.
    pub lanes: Vec<(usize, usize)>,
    /// Destinations for reroutes.
    pub dests: Vec<usize>,
}

impl Scene {
    pub fn succ(&self, l: usize) -> Vec<usize> {
        self.net.conns.iter().filter(|c| c.0 == l).map(|c| c.1).collect()
    }

    /// Links that can be reached from `l`, itself included; lane changes count if permitted.
    pub fn reach(&self, l: usize) -> Vec<usize> {
        let mut seen = vec![l];
        let mut i = 0;
        while i < seen.len() {
            let mut next = self.succ(seen[i]);
            for (g, mask) in &self.net.groups {
                if let Some(k) = g.iter().position(|x| *x == seen[i]) {
                    if k > 0 && mask >> (2 * k) & 1 != 0 {
                        next.push(g[k - 1]);
                    }
                    if k + 1 < g.len() && mask >> (2 * k + 1) & 1 != 0 {
                        next.push(g[k + 1]);
                    }
                }
            }
            for x in next {
                if !seen.contains(&x) {
                    seen.push(x);
                }
            }
            i += 1;
        }
        seen
    }

    /// Whether two links are lanes of one group.
    pub fn same_group(&self, a: usize, b: usize) -> bool {
        a != b && self.net.groups.iter().any(|(g, _)| g.contains(&a) && g.contains(&b))
    }

    pub fn grouped(&self, a: usize) -> bool {
        self.net.groups.iter().any(|(g, _)| g.contains(&a))
    }

    pub fn control_of(&self, l: usize) -> TrafficControl {
        self.net.controls.iter().rev().find(|c| c.0 == l).map_or(OPEN, |c| c.1)
    }
}

pub const SCENES: usize = 9;

/// The networks, by number.
pub fn scene(i: usize) -> Scene {
    let sc = |net: Net, trips: &[(usize, usize)], closable: &[usize]| Scene {
        net,
        trips: trips.to_vec(),
        closable: closable.to_vec(),
        lanes: vec![],
        dests: vec![],
    };
    match i {
        0 => sc(chain(&[60.0, 30.0, 60.0], &[14.0, 8.0, 14.0]), &[(0, 2)], &[1]),
        1 => sc(chain(&[45.0, 3.0, 1.0, 5.0, 2.0, 60.0], &[16.0]), &[(0, 5)], &[3]),
        2 => {
            let mut n = Net::new();
            n.line(0.0, 0.0, 60.0, 0.0, 14.0);
            n.quad([60.0, 0.0, 80.0, 0.0, 90.0, 25.0], 10.0);
            n.line(60.0, 0.0, 110.0, 0.0, 14.0);
            n.line(90.0, 25.0, 105.0, 62.5, 14.0);
            n.conn(0, 1);
            n.conn(0, 2);
            n.conn(1, 3);
            let mut s = sc(n, &[(0, 3), (0, 2)], &[1]);
            s.dests = vec![2, 3];
            s
        }
        3 => {
            let mut n = merge(50.0, 0.8, 14.0, true, 60.0);
            n.controls.push((3, give_way(8.0, false, 0)));
            sc(n, &[(0, 4), (2, 4)], &[1])
        }
        4 => {
            let mut n = cross(50.0, 10.0, 0.5 * PI, [12.0, 12.0], 40.0);
            n.controls.push((1, give_way(5.0, true, 0)));
            n.controls.push((4, give_way(5.0, true, 0)));
            sc(n, &[(0, 2), (3, 5)], &[4])
        }
        5 => {
            let mut n = cross(50.0, 10.0, 0.4 * PI, [12.0, 12.0], 40.0);
            n.lights.push(LightSpec {
                movements: vec![
                    MoveSpec { conflict: 2, amber: 2.0, red: 0.7, links: vec![1] },
                    MoveSpec { conflict: 1, amber: 2.0, red: 0.7, links: vec![4] },
                ],
                phases: vec![(1, 5.0), (2, 5.0)],
            });
            sc(n, &[(0, 2), (3, 5)], &[])
        }
        6 => {
            let mut n = lanes(2, 110.0, 3.5, 14.0, all_changes(2));
            n.line(110.0, 0.0, 160.0, 0.0, 14.0);
            n.line(110.0, -3.5, 160.0, -3.5, 14.0);
            n.conn(0, 2);
            n.conn(1, 3);
            let mut s = sc(n, &[(0, 2), (1, 2)], &[3]);
            s.lanes = vec![(0, 1), (1, 0)];
            s.dests = vec![3];
            s
        }
        7 => {
            let mut n = Net::new();
            n.quad([0.0, 0.0, 40.0, 0.0, 50.0, 35.0], 14.0);
            n.cubic([50.0, 35.0, 58.0, 63.0, 90.0, 60.0, 100.0, 40.0], 14.0);
            n.line(100.0, 40.0, 122.36, -4.72, 14.0);
            n.conn(0, 1);
            n.conn(1, 2);
            sc(n, &[(0, 2)], &[2])
        }
        8 => roundabout(),
        _ => unreachable!(),
    }
}

/// A one-lane roundabout with three arms. Arms are links 3i (approach), 3i+1 (connector), 3i+2
/// (exit); the ring consists of links 9 to 14: 9+2i passes the exit of arm i, 10+2i its entry.
pub fn roundabout() -> Scene {
    let mut n = Net::new();
    let r = 18.0;
    let at = |a: f64, d: f64| (d * f64::cos(a), d * f64::sin(a));
    let arm = |i: usize| i as f64 * 2.0 * PI / 3.0;
    // The exit of an arm leaves the ring 0.45 rad before its axis, the entry joins 0.45 rad after.
    for i in 0..3 {
        let a = arm(i);
        let (tx, ty) = (-f64::sin(a), f64::cos(a));
        let side = 3.0;
        let p0 = at(a, 80.0);
        let p1 = at(a, 34.0);
        let e = at(a + 0.45, r);
        let t = (-f64::sin(a + 0.45), f64::cos(a + 0.45));
        n.line(p0.0 + side * tx, p0.1 + side * ty, p1.0 + side * tx, p1.1 + side * ty, 11.0);
        n.cubic(
            [
                p1.0 + side * tx,
                p1.1 + side * ty,
                p1.0 + side * tx - 6.0 * f64::cos(a),
                p1.1 + side * ty - 6.0 * f64::sin(a),
                e.0 - 6.0 * t.0,
                e.1 - 6.0 * t.1,
                e.0,
                e.1,
            ],
            8.0,
        );
        let x = at(a - 0.45, r);
        let u = (-f64::sin(a - 0.45), f64::cos(a - 0.45));
        n.cubic(
            [
                x.0,
                x.1,
                x.0 + 8.0 * u.0,
                x.1 + 8.0 * u.1,
                p1.0 - side * tx - 6.0 * f64::cos(a),
                p1.1 - side * ty - 6.0 * f64::sin(a),
                p0.0 - side * tx,
                p0.1 - side * ty,
            ],
            11.0,
        );
    }
    let arc = |n: &mut Net, a: f64, b: f64| {
        let k = r * 4.0 / 3.0 * f64::tan((b - a) / 4.0);
        let (p, q) = (at(a, r), at(b, r));
        n.cubic(
            [
                p.0,
                p.1,
                p.0 - k * f64::sin(a),
                p.1 + k * f64::cos(a),
                q.0 + k * f64::sin(b),
                q.1 - k * f64::cos(b),
                q.0,
                q.1,
            ],
            8.0,
        );
    };
    for i in 0..3 {
        let a = arm(i);
        // Between the exit and the entry of arm i, then on to the exit of the next arm.
        arc(&mut n, a - 0.45, a + 0.45);
        arc(&mut n, a + 0.45, arm(i + 1) - 0.45);
    }
    for i in 0..3 {
        n.conn(3 * i, 3 * i + 1);
        n.conn(3 * i + 1, 10 + 2 * i);
        n.conn(9 + 2 * i, 10 + 2 * i);
        let next = (i + 1) % 3;
        n.conn(10 + 2 * i, 9 + 2 * next);
        n.conn(10 + 2 * i, 3 * next + 2);
        n.convs.push((3 * i + 1, 9 + 2 * i));
        n.controls.push((3 * i + 1, give_way(6.0, false, 0)));
    }
    Scene {
        net: n,
        trips: vec![(0, 8), (3, 2), (6, 5)],
        closable: vec![4],
        lanes: vec![],
        dests: vec![],
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Add(usize, usize, VehicleAttributesId),
    Freeze(usize),
    Release(usize),
    Remove(usize),
    Dest(usize, usize),
    Close(usize),
    Open(usize),
    Lane(usize, usize, f64),
}

pub type VehicleAttributesId = usize;
pub const KINDS: [VehicleAttributes; 3] = [CAR, TRUCK, SPORTY];

impl Op {
    pub fn apply(&self, sc: &Scene, w: &mut World) {
        match *self {
            Op::Add(src, dst, k) => {
                w.add(&KINDS[k], src, Some(dst));
            }
            Op::Freeze(v) => w.freeze(v, true),
            Op::Release(v) => w.freeze(v, false),
            Op::Remove(v) => w.remove(v),
            Op::Dest(v, d) => w.dest(v, d),
            Op::Close(l) => w.control(l, CLOSED),
            Op::Open(l) => w.control(l, sc.control_of(l)),
            Op::Lane(v, l, d) => w.sim.do_lane_change(w.v[v], w.l[l], d),
        }
    }
}

/// Observes a history.
pub trait Monitor {
    /// Called after an operation was applied.
    fn op(&mut self, _ctx: &mut Ctx, _sc: &Scene, _w: &World, _op: &Op) -> Res {
        Ok(())
    }
    /// Called after each step.
    fn step(&mut self, _ctx: &mut Ctx, _sc: &Scene, _before: &[Option<Snap>], _w: &World, _dt: f64) -> Res {
        Ok(())
    }
}

pub struct Plan {
    pub slots: usize,
    pub slot_s: f64,
    pub budget: usize,
    pub tail_s: f64,
    /// Scheduled arrivals come every so many slots.
    pub every: usize,
    pub vehicles: usize,
    /// Whether reroutes are included.
    pub dest: bool,
    pub lane: bool,
}

/// What is frozen and closed at present.
#[derive(Default, Clone)]
pub struct Now {
    pub frozen: Vec<usize>,
    pub closed: Vec<usize>,
    pub frame: usize,
}

/// Whether the vehicle can still be sent elsewhere: it is far enough from the end of its link.
pub fn can_turn(w: &World, s: &Snap, comf_dec: f64) -> bool {
    w.len(s.link) - s.front() > 15.0 + s.vel * s.vel / (2.0 * comf_dec)
}

/// Runs one history: arrivals come by schedule, and the operations of the plan's budget are chosen
/// freely at the slots.
pub fn drive(ctx: &mut Ctx, sc: &Scene, w: &mut World, dt: Dt, plan: &Plan, now: &mut Now, m: &mut dyn Monitor) -> Res {
    ctx.set_budget(plan.budget);
    let apply = |ctx: &mut Ctx, w: &mut World, m: &mut dyn Monitor, op: Op| -> Res {
        op.apply(sc, w);
        ctx.log(|| format!("{:?} | {}", op, w.describe()));
        m.op(ctx, sc, w, &op)
    };
    for slot in 0..plan.slots {
        if slot % plan.every == 0 && w.v.len() < plan.vehicles {
            let n = slot / plan.every;
            let (src, dst) = sc.trips[n % sc.trips.len()];
            let k = n % 2;
            if crate::props::junction::start_free(w, src, KINDS[k].length) {
                apply(ctx, w, m, Op::Add(src, dst, k))?;
            }
        }
        let mut ops: Vec<Op> = vec![];
        for v in 0..w.v.len() {
            let Some(s) = w.snap(v) else { continue };
            if now.frozen.contains(&v) {
                ops.push(Op::Release(v));
            } else {
                ops.push(Op::Freeze(v));
            }
            ops.push(Op::Remove(v));
            if plan.dest && can_turn(w, &s, w.attr[v].comf_dec) {
                for d in &sc.dests {
                    if w.sim.get_vehicle(w.v[v]).destination() != w.l[*d] && sc.reach(s.link).contains(d) {
                        ops.push(Op::Dest(v, *d));
                    }
                }
            }
            if plan.lane {
                for (a, b) in &sc.lanes {
                    if s.link == *a && s.pos < w.len(*b) - 50.0 {
                        ops.push(Op::Lane(v, *b, 30.0));
                    }
                }
            }
        }
        for l in &sc.closable {
            ops.push(if now.closed.contains(l) { Op::Open(*l) } else { Op::Close(*l) });
        }
        let (src, dst) = sc.trips[sc.trips.len() - 1];
        if w.v.len() < plan.vehicles + 1 && crate::props::junction::start_free(w, src, SPORTY.length) {
            ops.push(Op::Add(src, dst, 2));
        }
        let c = ctx.dev(1 + ops.len());
        if c > 0 {
            let op = ops[c - 1];
            match op {
                Op::Freeze(v) => now.frozen.push(v),
                Op::Release(v) => now.frozen.retain(|x| *x != v),
                Op::Remove(v) => now.frozen.retain(|x| *x != v),
                Op::Close(l) => now.closed.push(l),
                Op::Open(l) => now.closed.retain(|x| *x != l),
                _ => {}
            }
            apply(ctx, w, m, op)?;
        }
        advance(ctx, sc, w, dt, dt.frames(plan.slot_s), now, m)?;
        ctx.state(w.hash());
    }
    advance(ctx, sc, w, dt, dt.frames(plan.tail_s), now, m)?;
    ctx.state(w.hash());
    ctx.observe(w.hash());
    Ok(())
}

/// Steps the world and shows each step to the monitor.
pub fn advance(ctx: &mut Ctx, sc: &Scene, w: &mut World, dt: Dt, frames: usize, now: &mut Now, m: &mut dyn Monitor) -> Res {
    for _ in 0..frames {
        let d = dt.at(now.frame);
        now.frame += 1;
        let before = w.snaps();
        w.step(ctx, d);
        ctx.log(|| w.describe());
        m.step(ctx, sc, &before, w, d)?;
    }
    Ok(())
}

/// Releases and opens everything and runs until the network is empty.
pub fn clear(ctx: &mut Ctx, sc: &Scene, w: &mut World, dt: Dt, now: &mut Now, limit_s: f64) -> Res {
    for v in std::mem::take(&mut now.frozen) {
        w.freeze(v, false);
    }
    for l in std::mem::take(&mut now.closed) {
        Op::Open(l).apply(sc, w);
    }
    ctx.log(|| "everything is released".into());
    for k in 0..dt.frames(limit_s) {
        if w.sim.iter_vehicles().next().is_none() {
            ctx.cover("cleared");
            return Ok(());
        }
        w.step(ctx, dt.at(now.frame));
        now.frame += 1;
        if k % 20 == 0 {
            ctx.log(|| w.describe());
        }
    }
    crate::fail!("the traffic does not clear within {} s: {}", limit_s, w.describe())
}
