//! C18 and C19: comparisons of two runs.

use super::junction::start_free;
use crate::driver::*;
use crate::engine::*;
use crate::ensure;
use crate::scen::*;
use crate::world::*;
use std::f64::consts::PI;
use traffic_sim::math::ParametricCurve2d;
use traffic_sim::{LightState, VehicleId};

/// Everything that can be observed of a vehicle, bit by bit.
fn bits(w: &World, v: usize) -> Option<[u64; 14]> {
    let x = w.sim.iter_vehicles().find(|x| x.id() == w.v[v])?;
    let r = x.rear_coords();
    let f = |x: f64| x.to_bits();
    Some([
        x.link_id().and_then(|l| w.li(l)).unwrap_or(usize::MAX) as u64,
        f(x.pos_mid()),
        f(x.vel()),
        f(x.position().x),
        f(x.position().y),
        f(x.direction().x),
        f(x.direction().y),
        f(r[0].x),
        f(r[0].y),
        f(r[1].x),
        f(r[1].y),
        x.has_stopped() as u64,
        f(x.pos_front()),
        f(x.pos_rear()),
    ])
}

fn light_states(w: &World) -> Vec<LightState> {
    w.sim.iter_lights().flat_map(|(_, l)| l.state().map(|s| s.1).collect::<Vec<_>>()).collect()
}

/// Reads everything there is to read.
fn read_all(w: &mut World) -> u64 {
    let mut m = Mix::new();
    for l in w.sim.iter_links() {
        m.f(l.length()).f(l.speed_limit()).u(l.cost() as u64);
        for x in l.links_in().iter().chain(l.links_out()).chain(l.lane_changes()).chain(l.reachable_lanes()).chain(l.reachable_from_lanes()) {
            m.u((l.id() == *x) as u64);
        }
        let c = l.curve();
        let s = c.sample(0.3 * l.length(), 1.0);
        m.f(s.pos.x).f(c.sample_centre(0.9 * l.length()).pos.y).f(c.bounds().max);
        if let Some(x) = c.inverse_sample(s.pos, s.tan) {
            m.f(x.0);
        }
    }
    for v in w.sim.iter_vehicles() {
        m.f(v.pos_front()).f(v.pos_rear()).f(v.vel()).f(v.width()).f(v.length()).f(v.rear_coords()[0].x);
        m.f(v.position().x).f(v.direction().x).u(v.has_stopped() as u64).f(v.min_reach_time(30.0, 10.0));
        m.u((Some(v.destination()) == v.link_id()) as u64);
    }
    for (_, l) in w.sim.iter_lights() {
        m.u(l.state().count() as u64).u(l.get_states().count() as u64);
    }
    m.u(w.sim.all_routes().count() as u64).u(w.sim.frame() as u64);
    let ids: Vec<_> = w.sim.iter_vehicles().map(|v| v.id()).collect();
    for id in ids {
        m.u(w.sim.get_vehicle_frozen(id) as u64).f(w.sim.get_vehicle(id).vel());
    }
    for i in 0..w.l.len() {
        m.f(w.sim.get_link(w.l[i]).length());
    }
    m.0
}

/// C19: repeats every operation and step in a second world.
struct Twin {
    w: World,
    /// How the two runs differ.
    mode: usize,
    noise: Option<World>,
    n: usize,
    log: Vec<(Option<Op>, f64)>,
    hashes: Vec<u64>,
}

impl Twin {
    fn noise(&mut self, ctx: &mut Ctx, dt: f64) {
        if let Some(x) = self.noise.as_mut() {
            if self.n % 25 == 0 && start_free(x, 3, 5.0) {
                x.add(&CAR, 3, Some(5));
            }
            if self.n % 40 == 0 && start_free(x, 0, 5.0) {
                x.add(&SPORTY, 0, Some(2));
            }
            if self.n % 70 == 30 {
                for v in 0..x.v.len() {
                    if x.alive(v) {
                        x.remove(v);
                        break;
                    }
                }
            }
            x.step(ctx, dt * 0.7);
        }
    }
}

impl Monitor for Twin {
    fn op(&mut self, _ctx: &mut Ctx, sc: &Scene, w: &World, op: &Op) -> Res {
        ensure!(w.sim.frame() == self.n, "an operation changed the frame counter to {}", w.sim.frame());
        op.apply(sc, &mut self.w);
        self.log.push((Some(*op), 0.0));
        Ok(())
    }

    fn step(&mut self, ctx: &mut Ctx, _sc: &Scene, _before: &[Option<Snap>], w: &World, dt: f64) -> Res {
        if self.mode == 1 {
            let h = read_all(&mut self.w);
            ctx.max("hash of what was read", (h % 2) as f64);
        }
        self.noise(ctx, dt);
        self.w.step(ctx, dt);
        if self.mode == 1 {
            read_all(&mut self.w);
        }
        self.n += 1;
        ctx.checked();
        ensure!(w.sim.frame() == self.n, "after {} steps the frame counter is {}", self.n, w.sim.frame());
        for v in 0..w.v.len() {
            let (a, b) = (bits(w, v), bits(&self.w, v));
            ensure!(a == b, "v{} differs between two runs of the same history ({:?} and {:?})", v, w.snap(v), self.w.snap(v));
        }
        ensure!(light_states(w) == light_states(&self.w), "the signals differ between two runs of the same history");
        self.log.push((None, dt));
        self.hashes.push(w.hash());
        Ok(())
    }
}

fn deterministic(ctx: &mut Ctx, t: bool) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let mode = ctx.choose(3);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let noise = (mode == 2).then(|| scene(5).net.build());
    let mut m = Twin { w: sc.net.build(), mode, noise, n: 0, log: vec![], hashes: vec![] };
    ensure!(w.sim.frame() == 0, "a new simulation is at frame {}", w.sim.frame());
    let plan = Plan { slots: 7, slot_s: 2.0, budget: 2 + t as usize, tail_s: 10.0, every: 2, vehicles: 3, dest: true, lane: true };
    drive(ctx, &sc, &mut w, dt, &plan, &mut Now::default(), &mut m)?;
    if mode == 0 {
        // Once more, afterwards.
        let mut w = sc.net.build();
        let mut k = 0;
        for (op, dt) in &m.log {
            match op {
                Some(op) => op.apply(&sc, &mut w),
                None => {
                    w.step(ctx, *dt);
                    ensure!(w.hash() == m.hashes[k], "step {} differs when the history is repeated", k);
                    k += 1;
                }
            }
        }
    }
    Ok(())
}

/// Adds unrelated roads to a network. Returns the first link of each of them.
fn unrelated(net: &mut Net, before: bool, over: bool) -> usize {
    let base = net.links.len();
    let mut x = Net::new();
    let y = if over { 1.0 } else { 900.0 };
    // A road with a stop sign, crossing the rest of the network at level if `over`.
    x.line(-40.0, y - 20.0, 30.0, y, 12.0);
    x.line(30.0, y, 90.0, y + 15.0, 12.0);
    // A road with two lanes, and one crossing the first one.
    x.line(-30.0, y + 2.0, 120.0, y + 2.0, 9.0);
    x.line(-30.0, y - 1.5, 120.0, y - 1.5, 9.0);
    x.line(60.0, y - 60.0, 60.0, y - 20.0, 12.0);
    x.line(60.0, y - 20.0, 60.0, y + 60.0, 12.0);
    x.conn(0, 1);
    x.conn(4, 5);
    x.groups.push((vec![2, 3], all_changes(2)));
    x.convs.push((1, 5));
    x.controls.push((1, give_way(5.0, true, 0)));
    x.lights.push(LightSpec {
        movements: vec![MoveSpec { conflict: 0, amber: 1.0, red: 1.0, links: vec![5] }],
        phases: vec![(1, 4.0), (0, 4.0)],
    });
    let (off, at) = if before { (0, 6) } else { (base, 0) };
    let old = std::mem::take(net);
    let join = |n: &mut Net, p: Net, o: usize| {
        n.links.extend(p.links);
        n.conns.extend(p.conns.iter().map(|c| (c.0 + o, c.1 + o)));
        n.convs.extend(p.convs.iter().map(|c| (c.0 + o, c.1 + o)));
        n.controls.extend(p.controls.iter().map(|c| (c.0 + o, c.1)));
        n.groups.extend(p.groups.into_iter().map(|(g, m)| (g.iter().map(|l| l + o).collect(), m)));
        for mut l in p.lights {
            for m in &mut l.movements {
                for k in &mut m.links {
                    *k += o;
                }
            }
            n.lights.push(l);
        }
    };
    if before {
        join(net, x, 0);
        join(net, old, at);
    } else {
        join(net, old, 0);
        join(net, x, off);
    }
    off
}

/// C18: the same traffic, with other traffic on unrelated roads.
struct Beside {
    w: World,
    /// Position of the base network's links among all.
    shift: usize,
    /// First unrelated link.
    first: usize,
    /// Index of each vehicle of the base run.
    map: Vec<usize>,
    pattern: usize,
    others: Vec<usize>,
    n: usize,
}

impl Beside {
    fn traffic(&mut self, ctx: &mut Ctx) {
        let n = self.n;
        let f = self.first;
        let mut add = |w: &mut World, src: usize, dst: usize, k: usize| {
            if start_free(w, f + src, KINDS[k].length) {
                let v = w.add(&KINDS[k], f + src, Some(f + dst));
                self.others.push(v);
                ctx.cover("unrelated traffic");
            }
        };
        match self.pattern {
            // A steady stream everywhere.
            0 => {
                if n % 30 == 0 {
                    add(&mut self.w, 0, 1, 0);
                }
                if n % 30 == 10 {
                    add(&mut self.w, 2 + n / 30 % 2, 2, n / 30 % 3);
                }
                if n % 30 == 20 {
                    add(&mut self.w, 4, 5, 1);
                }
            }
            // A jam behind a frozen vehicle.
            1 => {
                if n % 30 == 0 && n < 130 {
                    add(&mut self.w, 0, 1, n / 30 % 3);
                    add(&mut self.w, 4, 5, 0);
                }
                if n == 60 {
                    for v in self.others.clone() {
                        if self.w.alive(v) {
                            self.w.freeze(v, true);
                        }
                    }
                }
            }
            // Controls change all the time.
            2 => {
                if n % 20 == 0 {
                    self.w.control(f, if n % 40 == 0 { CLOSED } else { OPEN });
                    self.w.control(f + 3, if n % 40 == 0 { OPEN } else { CLOSED });
                }
                if n == 5 {
                    add(&mut self.w, 0, 1, 0);
                    add(&mut self.w, 3, 2, 0);
                }
            }
            // Vehicles come and are removed.
            _ => {
                if n % 20 == 5 {
                    add(&mut self.w, 0, 1, 0);
                    add(&mut self.w, 2, 3, 2);
                }
                if n % 20 == 15 {
                    for v in self.others.drain(..) {
                        if self.w.alive(v) {
                            self.w.remove(v);
                        }
                    }
                }
            }
        }
    }
}

fn same(w: &World, v: usize, w2: &World, v2: usize, shift: usize) -> bool {
    let (a, b) = (bits(w, v), bits(w2, v2));
    match (a, b) {
        (None, None) => true,
        (Some(mut a), Some(b)) => {
            a[0] += shift as u64;
            let near = |i: usize| (f64::from_bits(a[i]) - f64::from_bits(b[i])).abs() < 1e-6;
            a[0] == b[0] && a[11] == b[11] && (1..14).all(|i| i == 11 || near(i))
        }
        _ => false,
    }
}

impl Monitor for Beside {
    fn op(&mut self, _ctx: &mut Ctx, sc: &Scene, _w: &World, op: &Op) -> Res {
        let s = self.shift;
        match *op {
            Op::Add(a, b, k) => {
                let v = self.w.add(&KINDS[k], a + s, Some(b + s));
                self.map.push(v);
            }
            Op::Freeze(v) => self.w.freeze(self.map[v], true),
            Op::Release(v) => self.w.freeze(self.map[v], false),
            Op::Remove(v) => self.w.remove(self.map[v]),
            Op::Dest(v, d) => self.w.dest(self.map[v], d + s),
            Op::Close(l) => self.w.control(l + s, CLOSED),
            Op::Open(l) => self.w.control(l + s, sc.control_of(l)),
            Op::Lane(v, l, d) => self.w.sim.do_lane_change(self.w.v[self.map[v]], self.w.l[l + s], d),
        }
        Ok(())
    }

    fn step(&mut self, ctx: &mut Ctx, _sc: &Scene, _before: &[Option<Snap>], w: &World, dt: f64) -> Res {
        self.traffic(ctx);
        self.w.step(ctx, dt);
        self.n += 1;
        ctx.checked();
        for v in 0..w.v.len() {
            let x = self.map[v];
            ensure!(
                same(w, v, &self.w, x, self.shift),
                "v{} is influenced by traffic on unrelated roads ({:?} without it, {:?} with it)",
                v, w.snap(v), self.w.snap(x)
            );
        }
        Ok(())
    }
}

/// Scenes in which vehicles may queue at signs in the same step; the order is then up to the
/// simulation.
fn ties(i: usize) -> bool {
    i == 4 || i == 8
}

fn beside(ctx: &mut Ctx, t: bool) -> Res {
    let i = ctx.choose(SCENES);
    let sc = scene(i);
    let first = ctx.choose(2) == 1;
    let over = ctx.choose(2) == 1;
    let pattern = ctx.choose(if ties(i) { 3 } else { 4 });
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let mut net = sc.net.clone();
    let f = unrelated(&mut net, first, over);
    let mut w = sc.net.build();
    let mut m = Beside { w: net.build(), shift: if first { 6 } else { 0 }, first: f, map: vec![], pattern, others: vec![], n: 0 };
    let plan = Plan { slots: 6, slot_s: 2.0, budget: 2 + t as usize, tail_s: 8.0, every: 2, vehicles: 3, dest: true, lane: true };
    drive(ctx, &sc, &mut w, dt, &plan, &mut Now::default(), &mut m)
}

/// C18: earlier traffic, long gone.
fn departed(ctx: &mut Ctx, t: bool) -> Res {
    let i = ctx.choose(SCENES);
    let sc = scene(i);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let mut past = sc.net.build();
    let mut n = 0;
    // The past: vehicles come, possibly halted, rerouted or removed on the way; then all is quiet.
    let rounds = if ties(i) { 1 } else { 1 + ctx.choose(2) };
    let mut there: Vec<usize> = vec![];
    for r in 0..rounds {
        let (src, dst) = sc.trips[ctx.choose(sc.trips.len())];
        let k = ctx.choose(2);
        if start_free(&past, src, KINDS[k].length) {
            let v = past.add(&KINDS[k], src, Some(dst));
            there.push(v);
        }
        let wait = ctx.pick(&[0.0, 3.0, 7.0]);
        for _ in 0..dt.frames(wait) {
            past.step(ctx, dt.at(n));
            n += 1;
        }
        let v = *there.last().unwrap();
        if !past.alive(v) {
            continue;
        }
        match ctx.choose(4 + !sc.lanes.is_empty() as usize) {
            0 => {}
            1 => past.remove(v),
            2 => {
                past.freeze(v, true);
                for _ in 0..dt.frames(3.0) {
                    past.step(ctx, dt.at(n));
                    n += 1;
                }
                if past.alive(v) {
                    past.remove(v);
                }
            }
            3 => {
                for l in &sc.closable {
                    past.control(*l, CLOSED);
                }
                for _ in 0..dt.frames(9.0) {
                    past.step(ctx, dt.at(n));
                    n += 1;
                }
                for l in &sc.closable {
                    past.control(*l, sc.control_of(*l));
                }
            }
            _ => {
                let s = past.snap(v).unwrap();
                if let Some((_, b)) = sc.lanes.iter().find(|l| l.0 == s.link) {
                    if s.pos < past.len(*b) - 50.0 {
                        past.sim.do_lane_change(past.v[v], past.l[*b], 30.0);
                    }
                }
            }
        }
        let _ = r;
    }
    let mut left = dt.frames(120.0);
    while past.sim.iter_vehicles().next().is_some() {
        past.step(ctx, dt.at(n));
        n += 1;
        left -= 1;
        ensure!(left > 0, "earlier traffic does not clear: {}", past.describe());
    }
    // A whole number of pattern periods.
    if n % 2 == 1 {
        past.step(ctx, dt.at(n));
        n += 1;
    }
    let mut fresh = sc.net.build();
    for k in 0..n {
        fresh.step(ctx, dt.at(k));
    }
    ctx.cover("earlier traffic");
    let gone = std::mem::take(&mut past.v);
    past.attr.clear();
    let mut m = Beside { w: past, shift: 0, first: 0, map: vec![], pattern: 2, others: vec![], n: 0 };
    m.pattern = usize::MAX;
    let mut m = Quiet(m, gone);
    let plan = Plan { slots: 5, slot_s: 2.0, budget: t as usize + (rounds == 1) as usize, tail_s: 10.0, every: 1, vehicles: 4, dest: true, lane: true };
    let mut now = Now { frame: n, ..Now::default() };
    drive(ctx, &sc, &mut fresh, dt, &plan, &mut now, &mut m)
}

/// As [Beside], but without traffic of its own.
struct Quiet(Beside, Vec<VehicleId>);

impl Monitor for Quiet {
    fn op(&mut self, ctx: &mut Ctx, sc: &Scene, w: &World, op: &Op) -> Res {
        self.0.op(ctx, sc, w, op)
    }
    fn step(&mut self, ctx: &mut Ctx, _sc: &Scene, _before: &[Option<Snap>], w: &World, dt: f64) -> Res {
        let b = &mut self.0;
        // To remove those that are no longer there changes nothing either.
        for id in &self.1 {
            b.w.sim.remove_vehicle(*id);
        }
        b.w.step(ctx, dt);
        ctx.checked();
        for v in 0..w.v.len() {
            ensure!(
                same(w, v, &b.w, b.map[v], 0),
                "v{} is influenced by traffic that left long ago ({:?} without it, {:?} with it)",
                v, w.snap(v), b.w.snap(b.map[v])
            );
        }
        ensure!(light_states(w) == light_states(&b.w), "the signals are influenced by traffic that left long ago");
        Ok(())
    }
}

/// C18: a vehicle behind, or on a branch that the others do not take, changes nothing.
fn behind(ctx: &mut Ctx, t: bool) -> Res {
    let i = ctx.pick(&[0, 1, 2, 5, 7]);
    let sc = scene(i);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let mut w2 = sc.net.build();
    let lead = 1 + ctx.choose(2);
    let k = ctx.choose(3);
    let (src, dst) = sc.trips[0];
    let mut n = 0;
    let mut map = vec![];
    let at = ctx.choose(5);
    let fate = ctx.choose(4);
    let ghost_kind = ctx.choose(3);
    let close_at = ctx.choose(if t { 6 } else { 4 });
    let mut ghost = None;
    for slot in 0..10 {
        if slot < lead {
            w.add(&KINDS[k], src, Some(dst));
            map.push(w2.add(&KINDS[k], src, Some(dst)));
        }
        if slot == lead + at && start_free(&w2, src, KINDS[ghost_kind].length) {
            ghost = Some(w2.add(&KINDS[ghost_kind], src, Some(sc.trips[sc.trips.len() - 1].1)));
        }
        if let Some(g) = ghost {
            if slot == lead + at + 1 && w2.alive(g) {
                match fate {
                    1 => w2.freeze(g, true),
                    2 => w2.remove(g),
                    _ => {}
                }
            }
        }
        for l in &sc.closable {
            if close_at > 0 && slot == 2 * close_at {
                w.control(*l, CLOSED);
                w2.control(*l, CLOSED);
            }
            if close_at > 0 && slot == 2 * close_at + 3 {
                w.control(*l, OPEN);
                w2.control(*l, OPEN);
            }
        }
        for _ in 0..dt.frames(if fate == 3 { 2.7 } else { 2.2 }) {
            w.step(ctx, dt.at(n));
            w2.step(ctx, dt.at(n));
            n += 1;
            ctx.checked();
            for v in 0..w.v.len() {
                ensure!(
                    same(&w, v, &w2, map[v], 0),
                    "v{} is influenced by a vehicle behind it ({:?} without it, {:?} with it)",
                    v, w.snap(v), w2.snap(map[v])
                );
            }
        }
        ctx.state(w2.hash());
    }
    if ghost.is_some() {
        ctx.cover("a vehicle behind");
    }
    ctx.observe(w2.hash());
    Ok(())
}

/// C18: removing a vehicle frees what waited for it.
fn freed(ctx: &mut Ctx) -> Res {
    let kind = ctx.choose(6);
    let k = ctx.choose(3);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.25)]);
    let ap = 50.0;
    let (net, a, b) = match kind {
        // Crossing with signs, open crossing, merge, chain, roundabout.
        0 | 1 | 2 => {
            let mut n = cross(ap, 10.0, 0.5 * PI, [12.0, 12.0], 40.0);
            n.controls.push((4, if kind == 0 { give_way(5.0, true, 0) } else { give_way(5.0, false, 0) }));
            if kind == 2 {
                n.controls.clear();
            }
            (n, (0, 2), (3, 5))
        }
        3 => {
            let mut n = merge(ap, 0.7, 12.0, true, 50.0);
            n.controls.push((3, give_way(8.0, false, 0)));
            (n, (0, 4), (2, 4))
        }
        4 => (chain(&[60.0, 30.0, 60.0], &[12.0]), (0, 2), (0, 2)),
        _ => (roundabout().net, (6, 5), (0, 8)),
    };
    let sc = Scene { net, trips: vec![], closable: vec![], lanes: vec![], dests: vec![] };
    let mut w = sc.net.build();
    let x = w.add(&KINDS[k], a.0, Some(a.1));
    let mut n = 0;
    let mut run = |ctx: &mut Ctx, w: &mut World, s: f64| {
        for _ in 0..dt.frames(s) {
            w.step(ctx, dt.at(n));
            n += 1;
        }
    };
    run(ctx, &mut w, 4.0);
    // The vehicle is halted anywhere on its way, in the junction in particular.
    let halt = ctx.choose(16);
    run(ctx, &mut w, 0.5 * halt as f64);
    if !w.alive(x) {
        return ctx.prune();
    }
    w.freeze(x, true);
    let y = w.add(&CAR, b.0, Some(b.1));
    let z = ctx.choose(2) == 1;
    run(ctx, &mut w, 4.0);
    if z && start_free(&w, b.0, TRUCK.length) {
        w.add(&TRUCK, b.0, Some(b.1));
    }
    let wait = ctx.pick(&[12.0, 22.0]);
    run(ctx, &mut w, wait);
    if let Some(s) = w.snap(y) {
        if s.vel < 0.1 {
            ctx.cover("waits for a halted vehicle");
        }
    }
    ctx.state(w.hash());
    if !w.alive(x) {
        return ctx.prune();
    }
    w.remove(x);
    let was = w.snap(y);
    run(ctx, &mut w, 4.0);
    ctx.checked();
    if let (Some(a), Some(b)) = (was, w.snap(y)) {
        ensure!(b.vel > 1.0 || b.link != a.link, "v{} does not drive on within 4 s after the vehicle it waited for was removed", y);
    }
    run(ctx, &mut w, 60.0);
    ensure!(w.sim.iter_vehicles().next().is_none(), "the traffic does not clear after the removal: {}", w.describe());
    ctx.observe(w.hash());
    Ok(())
}

pub fn isolation(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "unrelated-roads",
            "9 networks x 6 unrelated links (created before or after; apart or crossing without declaration) with 4 patterns of traffic x 2 step patterns x every history of at most 2 (quick) / 3 (thorough) operations at 6 instants; compared at every step with the run without them",
            move |x| beside(x, t),
        )
        .reaching(&["unrelated traffic"]),
        Suite::new(
            "departed-traffic",
            "9 networks x up to 2 earlier vehicles that leave, are halted, held up, change lanes or are removed at 3 instants x 2 step patterns, then new traffic with at most 1 (quick, after a single vehicle) / 2 (thorough) operations; compared at every step with a fresh network",
            move |x| departed(x, t),
        )
        .reaching(&["earlier traffic"]),
        Suite::new(
            "vehicles-behind",
            "5 networks x 1-2 vehicles of 3 kinds x a further vehicle of 3 kinds behind them at 5 instants, halted, removed or driving on x closures at 3 (quick) / 5 (thorough) instants; compared at every step with the run without it",
            move |x| behind(x, t),
        )
        .reaching(&["a vehicle behind"]),
        Suite::new(
            "removed-obstacle",
            "6 junction types x 3 kinds x 16 places where a vehicle is halted and later removed x 2 waiting times",
            freed,
        )
        .reaching(&["waits for a halted vehicle"]),
    ]
}

pub fn determinism(t: bool) -> Vec<Suite> {
    vec![Suite::new(
        "repeated",
        "9 networks x 3 ways of repeating (alongside and afterwards; with everything read before and after every step; with another simulation running alongside) x 2 step patterns x every history of at most 2 (quick) / 3 (thorough) operations at 7 instants; compared bit by bit at every step",
        move |x| deterministic(x, t),
    )]
}
