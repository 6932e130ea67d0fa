//! C26 and C27: a network behaves the same wherever it lies and in whatever order it is declared.

use crate::driver::*;
use crate::engine::*;
use crate::ensure;
use crate::props::flow::{junction, Rule};
use crate::scen::*;
use crate::world::*;
use std::f64::consts::PI;
use traffic_sim::math::{Point2d, Vector2d};

/// A displacement: mirroring at the x axis (if asked for), then a rotation, then a translation.
#[derive(Clone, Copy, Debug)]
struct Move {
    mirror: bool,
    cos: f64,
    sin: f64,
    by: [f64; 2],
}

impl Move {
    fn new(mirror: bool, angle: f64, by: [f64; 2]) -> Self {
        // Quarter turns are exact.
        let q = angle / (0.5 * PI);
        let (sin, cos) = if q == q.round() { [(0.0, 1.0), (1.0, 0.0), (0.0, -1.0), (-1.0, 0.0)][q as usize % 4] } else { angle.sin_cos() };
        Move { mirror, cos, sin, by }
    }
    fn vec(&self, v: Vector2d) -> Vector2d {
        let y = if self.mirror { -v.y } else { v.y };
        Vector2d::new(self.cos * v.x - self.sin * y, self.sin * v.x + self.cos * y)
    }
    fn point(&self, p: Point2d) -> Point2d {
        let v = self.vec(Vector2d::new(p.x, p.y));
        pt(v.x + self.by[0], v.y + self.by[1])
    }
    fn list<const N: usize>(&self, p: &[f64; N]) -> [f64; N] {
        let mut q = *p;
        for i in (0..N).step_by(2) {
            let r = self.point(pt(p[i], p[i + 1]));
            (q[i], q[i + 1]) = (r.x, r.y);
        }
        q
    }
    /// The displaced network. What was on the left is on the right in the mirror.
    fn net(&self, n: &Net) -> Net {
        let mut m = n.clone();
        for (s, _) in &mut m.links {
            *s = match s {
                Shape::Line(p) => Shape::Line(self.list(p)),
                Shape::Quad(p) => Shape::Quad(self.list(p)),
                Shape::Cubic(p) => Shape::Cubic(self.list(p)),
                Shape::Arc(_) => unreachable!(),
            };
        }
        if self.mirror {
            for (g, mask) in &mut m.groups {
                let k = g.len();
                g.reverse();
                let old = *mask;
                *mask = 0;
                for i in 0..k {
                    *mask |= (old >> (2 * i) & 1) << (2 * (k - 1 - i) + 1);
                    *mask |= (old >> (2 * i + 1) & 1) << (2 * (k - 1 - i));
                }
            }
        }
        m
    }
}

/// Repeats every operation and step in the other network, and compares.
struct Image {
    w: World,
    to: Move,
    tol: f64,
}

impl Image {
    fn compare(&self, ctx: &mut Ctx, w: &World) -> Res {
        for v in 0..w.v.len() {
            let (a, b) = (w.snap(v), self.w.snap(v));
            ctx.checked();
            let (a, b) = match (a, b) {
                (None, None) => continue,
                (Some(a), Some(b)) => (a, b),
                _ => crate::fail!("v{} has left in one of the networks only: {} and {}", v, w.describe(), self.w.describe()),
            };
            let same = a.link == b.link && (a.pos - b.pos).abs() < self.tol;
            // One of them may be past the end of a link by a rounding error.
            let ahead = a.link != b.link && (a.pos < self.tol || b.pos < self.tol);
            ensure!(same || ahead, "v{} is at {:.6} on link {} and at {:.6} on link {} in the other network", v, a.pos, a.link, b.pos, b.link);
            if same {
                ctx.max("difference of position (m)", (a.pos - b.pos).abs());
            }
            ctx.max("difference of speed (m/s)", (a.vel - b.vel).abs());
            ensure!((a.vel - b.vel).abs() < self.tol, "v{} drives at {} and at {} m/s in the other network", v, a.vel, b.vel);
            let d = self.to.point(a.p) - b.p;
            let d = (d.x * d.x + d.y * d.y).sqrt();
            ctx.max("difference of place (m)", d);
            ensure!(d < self.tol, "v{} is displaced by {:.6} m in the other network", v, d);
            let d = self.to.vec(a.d) - b.d;
            let d = (d.x * d.x + d.y * d.y).sqrt();
            ctx.max("difference of heading", d);
            ensure!(d < self.tol, "the heading of v{} differs by {:.6} in the other network", v, d);
        }
        let lights = |w: &World| -> Vec<_> { w.sim.iter_lights().flat_map(|(_, l)| l.state().collect::<Vec<_>>()).collect() };
        ensure!(lights(w) == lights(&self.w), "the signals differ from those in the other network");
        Ok(())
    }
}

impl Monitor for Image {
    fn op(&mut self, ctx: &mut Ctx, sc: &Scene, w: &World, op: &Op) -> Res {
        op.apply(sc, &mut self.w);
        self.compare(ctx, w)
    }
    fn step(&mut self, ctx: &mut Ctx, _sc: &Scene, _before: &[Option<Snap>], w: &World, dt: f64) -> Res {
        self.w.step(ctx, dt);
        self.compare(ctx, w)
    }
}

const TOL: f64 = 1e-4;

/// The displacements, by number.
fn moved(i: usize) -> Move {
    match i {
        0 => Move::new(false, 0.5 * PI, [0.0, 0.0]),
        1 => Move::new(false, PI, [0.0, 0.0]),
        2 => Move::new(false, 1.5 * PI, [0.0, 0.0]),
        3 => Move::new(false, 0.0, [-1024.0, 512.0]),
        4 => Move::new(false, 0.65, [0.0, 0.0]),
        5 => Move::new(false, 3.9, [333.3, -777.7]),
        6 => Move::new(true, 0.0, [0.0, 0.0]),
        7 => Move::new(true, 0.5 * PI, [0.0, 0.0]),
        _ => Move::new(true, 2.3, [-55.5, 66.6]),
    }
}
const MOVES: usize = 9;

/// Runs one world and its image.
struct Pair {
    a: World,
    m: Image,
    frame: usize,
}

impl Pair {
    fn new(a: World, b: World, to: Move) -> Self {
        Pair { a, m: Image { w: b, to, tol: TOL }, frame: 0 }
    }
    fn both(&mut self, f: impl Fn(&mut World)) {
        f(&mut self.a);
        f(&mut self.m.w);
    }
    fn go(&mut self, ctx: &mut Ctx, dt: Dt, sec: f64) -> Res {
        for _ in 0..dt.frames(sec) {
            self.a.step(ctx, dt.at(self.frame));
            self.m.w.step(ctx, dt.at(self.frame));
            self.frame += 1;
            ctx.log(|| self.a.describe());
            self.m.compare(ctx, &self.a)?;
        }
        ctx.state(self.a.hash() ^ self.m.w.net.rotate_left(7));
        Ok(())
    }
}

type Junction = (Scene, Vec<(usize, usize, usize)>);

/// Junctions of three and four arms under every kind of control.
fn junctions() -> Vec<Junction> {
    let mut v = vec![];
    for arms in [3, 4] {
        for rule in [Rule::AllStop, Rule::AllYield, Rule::MainStop, Rule::MainYield, Rule::Ranks, Rule::Signal] {
            v.push(junction(arms, 11.0, rule, 45.0, 30.0, 11.0));
        }
    }
    v
}

/// Vehicles come to a junction one after the other, in every order of movements.
fn arrive(ctx: &mut Ctx, nets: &[Junction], n: usize, image: &dyn Fn(&mut Ctx, &Net) -> (World, Move)) -> Res {
    let (sc, moves) = &nets[ctx.choose(nets.len())];
    let gap = ctx.pick(&[0.7, 2.2]);
    let dt = Dt::Const(0.125);
    let mut list = vec![];
    for _ in 0..n {
        let m = moves[ctx.choose(moves.len())];
        // The first ones of an arm have to be out of the way.
        if list.iter().any(|x: &(usize, usize, usize)| x.0 == m.0) {
            return ctx.prune();
        }
        list.push(m);
    }
    let (w, to) = image(ctx, &sc.net);
    let mut p = Pair::new(sc.net.build(), w, to);
    for (k, m) in list.iter().enumerate() {
        let exit = sc.net.conns.iter().find(|c| c.0 == m.2).unwrap().1;
        p.both(|w| {
            w.add(&KINDS[k % 3], m.0, Some(exit));
        });
        p.go(ctx, dt, gap)?;
    }
    for _ in 0..8 {
        p.go(ctx, dt, 4.0)?;
    }
    ctx.cover("vehicles at a junction");
    ctx.observe(p.a.hash());
    Ok(())
}

/// A vehicle finds its way through lanes with every mask.
fn lane_choice(ctx: &mut Ctx, k: usize, image: &dyn Fn(&mut Ctx, &Net) -> (World, Move)) -> Res {
    let curved = ctx.choose(2) == 1;
    let mut net = super::routing::lane_net(ctx, k, 203.37, curved);
    for i in 0..k {
        let y = -3.5 * i as f64;
        if curved {
            net.line(120.0 - y, 120.0, 120.0 - y, 180.0, 14.0);
        } else {
            net.line(203.37, y, 263.42, y, 14.0);
        }
        net.conn(i, k + i);
    }
    let src = ctx.choose(k);
    let dst = k + ctx.choose(k);
    let (w, to) = image(ctx, &net);
    let mut p = Pair::new(net.build(), w, to);
    let other = ctx.choose(k);
    p.both(|w| {
        w.add(&CAR, src, Some(dst));
    });
    p.go(ctx, Dt::Const(0.1), 3.0)?;
    p.both(|w| {
        w.add(&TRUCK, other, Some(k + other));
    });
    for _ in 0..8 {
        p.go(ctx, Dt::Const(0.1), 4.0)?;
    }
    ctx.cover("lanes");
    ctx.observe(p.a.hash());
    Ok(())
}

/// A vehicle finds its way through the lanes of a long bend to the left.
fn long_bend(ctx: &mut Ctx, k: usize, image: &dyn Fn(&mut Ctx, &Net) -> (World, Move)) -> Res {
    let mut net = Net::new();
    let r = ctx.pick(&[250.0, 400.0]);
    for i in 0..k {
        let r = r + 3.5 * i as f64;
        let c = 0.5522847498 * r;
        net.cubic([0.0, -r, c, -r, r, -c, r, 0.0], 14.0);
    }
    // The lane choice may take a detour over a longer lane into account, in one direction only.
    let mask = if k == 2 { 0xf } else { [0x55, 0xaa][ctx.choose(2)] };
    net.groups.push(((0..k).collect(), mask));
    for i in 0..k {
        let r = r + 3.5 * i as f64;
        net.line(r, 0.0, r, 61.7, 14.0);
        net.conn(i, k + i);
    }
    let src = ctx.choose(k);
    let dst = k + ctx.choose(k);
    let (w, to) = image(ctx, &net);
    let mut p = Pair::new(net.build(), w, to);
    p.both(|w| {
        w.add(&CAR, src, Some(dst));
    });
    for _ in 0..14 {
        p.go(ctx, Dt::Const(0.1), 4.0)?;
        if p.a.snap(0).is_some_and(|s| s.link % k != src) {
            ctx.cover("change in a bend");
        }
    }
    ctx.observe(p.a.hash());
    Ok(())
}

/// Lane changes by hand beside other vehicles, on roads of every shape.
fn lane_orders(ctx: &mut Ctx, k: usize, image: &dyn Fn(&mut Ctx, &Net) -> (World, Move)) -> Res {
    let net = super::lanes::road(ctx.choose(3), k, 14.0, 0);
    let from = ctx.choose(k);
    let to_lane = ctx.choose(k);
    if from == to_lane {
        return ctx.prune();
    }
    let at = ctx.pick(&[2.0, 4.5, 7.0, 9.5]);
    let dist = ctx.pick(&[25.0, 60.0]);
    let halt = ctx.choose(3);
    let (w, to) = image(ctx, &net);
    let mut p = Pair::new(net.build(), w, to);
    p.both(|w| {
        w.add(&CAR, from, Some(k + from));
    });
    p.go(ctx, Dt::Const(0.1), at)?;
    p.both(|w| {
        for i in 0..k {
            w.add(&KINDS[1 + i % 2], i, Some(k + i));
        }
        // Projected from the lane on which it is at that moment.
        let section = w.snap(0).unwrap().link / k;
        w.sim.do_lane_change(w.v[0], w.l[section * k + to_lane], dist);
        w.dest(0, k + to_lane);
    });
    p.go(ctx, Dt::Const(0.1), 1.5)?;
    if halt > 0 {
        p.both(|w| w.freeze(halt - 1, true));
    }
    p.go(ctx, Dt::Const(0.1), 8.0)?;
    p.both(|w| {
        if halt > 0 {
            w.freeze(halt - 1, false);
        }
    });
    for _ in 0..5 {
        p.go(ctx, Dt::Const(0.1), 4.0)?;
    }
    ctx.cover("lane changes");
    ctx.observe(p.a.hash());
    Ok(())
}

fn displaced(ctx: &mut Ctx, moves: &[usize], budget: usize) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let to = moved(ctx.pick(moves));
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let mut m = Image { w: to.net(&sc.net).build(), to, tol: TOL };
    let plan = Plan { slots: 7, slot_s: 2.0, budget, tail_s: 10.0, every: 2, vehicles: 3, dest: true, lane: true };
    drive(ctx, &sc, &mut w, dt, &plan, &mut Now::default(), &mut m)
}

pub fn place(t: bool) -> Vec<Suite> {
    let nets = std::sync::Arc::new(junctions());
    let some: &'static [usize] = if t { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[1, 5, 6, 8] };
    let image = move |ctx: &mut Ctx, n: &Net| {
        let to = moved(ctx.pick(some));
        (to.net(n).build(), to)
    };
    vec![
        Suite::new(
            "histories",
            "9 networks x 9 displacements (quarter turns, other rotations and translations, also mirrored) x 2 step patterns x every history of at most 1 operation at 7 instants; compared at every step with the original",
            move |x| displaced(x, &[0, 1, 2, 3, 4, 5, 6, 7, 8], 1),
        ),
        Suite::new(
            "longer-histories",
            "as histories, with 4 (quick) / 9 (thorough) displacements and at most 2 operations",
            move |x| displaced(x, some, 2),
        ),
        Suite::new(
            "junctions",
            "junctions of three and four arms x 6 kinds of control x every sequence of 2 (quick) / 3 (thorough) movements from different arms x 2 gaps x 4 (quick) / 9 (thorough) displacements",
            move |x| arrive(x, &nets, 2 + t as usize, &image),
        ),
        Suite::new(
            "lane-choice",
            "all masks of 2 or 3 lanes, straight and curved, every origin and exit, with another vehicle in any lane; 4 (quick) / 9 (thorough) displacements",
            move |x| {
                let k = 2 + x.choose(2);
                lane_choice(x, k, &image)
            },
        ),
        Suite::new(
            "bends",
            "2 to 4 lanes of 2 bends of 400 to 650 m, every origin and exit; 9 displacements",
            move |x| {
                let k = 2 + x.choose(3);
                long_bend(x, k, &|ctx: &mut Ctx, n: &Net| {
                    let to = moved(ctx.choose(MOVES));
                    (to.net(n).build(), to)
                })
            },
        )
        .reaching(&["change in a bend"]),
        Suite::new(
            "lane-changes",
            "changes between any 2 of 2 to 4 lanes of 3 shapes at 4 instants over 2 distances among other vehicles, with and without a halt; 4 (quick) / 9 (thorough) displacements",
            move |x| {
                let k = 2 + x.choose(3);
                lane_orders(x, k, &image)
            },
        ),
    ]
}

const STAY: Move = Move { mirror: false, cos: 1.0, sin: 0.0, by: [0.0, 0.0] };

/// How the parts of a network are declared.
#[derive(Clone, Debug)]
struct Order {
    /// The order of the links.
    links: Vec<usize>,
    /// Whether connections, convergences and the links of the signals come in reverse order.
    back: bool,
    /// Whether the links of a convergence are named in the other order.
    flip: bool,
    /// Which of connections, groups and convergences come first, and whether controls are set last.
    stages: usize,
}

const STAGES: [[usize; 4]; 4] = [[0, 1, 2, 3], [2, 1, 0, 3], [3, 1, 2, 0], [1, 3, 0, 2]];

impl Order {
    fn build(&self, n: &Net) -> World {
        let mut w = Net::new().build();
        let mut l = vec![None; n.links.len()];
        for i in &self.links {
            let (s, v) = &n.links[*i];
            l[*i] = Some(add_link(&mut w.sim, s, *v));
        }
        w.l = l.into_iter().map(|x| x.unwrap()).collect();
        fn list<T: Clone>(back: bool, v: &[T]) -> Vec<T> {
            let mut v = v.to_vec();
            if back {
                v.reverse();
            }
            v
        }
        for s in STAGES[self.stages] {
            match s {
                0 => {
                    for (a, b) in list(self.back, &n.conns) {
                        w.sim.add_link_connection(w.l[a], w.l[b]);
                    }
                }
                1 => {
                    for (g, mask) in list(self.back, &n.groups) {
                        let ids: Vec<_> = g.iter().map(|i| w.l[*i]).collect();
                        w.sim.add_link_group(&ids, mask);
                    }
                }
                2 => {
                    for (a, b) in list(self.back, &n.convs) {
                        let (a, b) = if self.flip { (b, a) } else { (a, b) };
                        w.sim.add_link_convergance(w.l[a], w.l[b]);
                    }
                }
                _ => {
                    for (a, c) in list(self.back, &n.controls) {
                        w.sim.set_link_control(w.l[a], c);
                    }
                }
            }
        }
        for spec in &n.lights {
            let mut spec = spec.clone();
            for m in &mut spec.movements {
                m.links = list(self.back, &m.links);
            }
            let tl = light(&spec, &w.l);
            w.lights.push(w.sim.add_traffic_light(tl));
        }
        let mut m = Mix::new();
        m.u(n.hash()).u(self.back as u64).u(self.flip as u64).u(self.stages as u64);
        for i in &self.links {
            m.u(*i as u64);
        }
        w.net = m.0;
        w
    }

    /// One of some orders of any number of links.
    fn choose(ctx: &mut Ctx, n: usize) -> Self {
        let c = ctx.choose(8);
        let links: Vec<usize> = match c / 2 {
            0 => (0..n).rev().collect(),
            1 => (0..n).map(|i| (i + n / 2) % n).collect(),
            2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
            _ => (0..n).collect(),
        };
        Order { links, back: c % 2 == 0, flip: c / 2 != 1, stages: c % 4 }
    }

    /// Any order.
    fn any(ctx: &mut Ctx, n: usize) -> Self {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut links = vec![];
        while !rest.is_empty() {
            links.push(rest.remove(ctx.choose(rest.len())));
        }
        Order { links, back: ctx.choose(2) == 1, flip: ctx.choose(2) == 1, stages: ctx.choose(STAGES.len()) }
    }
}

/// Every order of the links.
fn every_order(ctx: &mut Ctx) -> Res {
    let i = ctx.choose(8);
    let sc = scene(i);
    let o = Order::any(ctx, sc.net.links.len());
    let dt = Dt::Const(0.125);
    let mut p = Pair::new(sc.net.build(), o.build(&sc.net), STAY);
    for k in 0..4 {
        let (src, dst) = sc.trips[k % sc.trips.len()];
        if super::junction::start_free(&p.a, src, KINDS[k % 3].length) {
            p.both(|w| {
                w.add(&KINDS[k % 3], src, Some(dst));
            });
        }
        p.go(ctx, dt, 1.5)?;
    }
    for _ in 0..4 {
        p.go(ctx, dt, 5.0)?;
    }
    ctx.cover(["chain", "short links", "diverge", "merge", "crossing", "signal", "lanes", "curves"][i]);
    ctx.observe(p.a.hash());
    Ok(())
}

fn reordered(ctx: &mut Ctx, budget: usize) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let o = Order::choose(ctx, sc.net.links.len());
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let mut m = Image { w: o.build(&sc.net), to: STAY, tol: TOL };
    let plan = Plan { slots: 7, slot_s: 2.0, budget, tail_s: 10.0, every: 2, vehicles: 3, dest: true, lane: true };
    drive(ctx, &sc, &mut w, dt, &plan, &mut Now::default(), &mut m)
}

pub fn order(t: bool) -> Vec<Suite> {
    let nets = std::sync::Arc::new(junctions());
    let image = |ctx: &mut Ctx, n: &Net| (Order::choose(ctx, n.links.len()).build(n), STAY);
    vec![
        Suite::new(
            "every-order",
            "8 networks x every order of their 3 to 6 links x connections, convergences and links of signals in either order, links of convergences named in either order, 4 orders of connections, groups, convergences and controls; three kinds of vehicles; compared at every step",
            every_order,
        )
        .reaching(&["chain", "short links", "diverge", "merge", "crossing", "signal", "lanes", "curves"]),
        Suite::new(
            "histories",
            "9 networks x 8 orders of declaration x 2 step patterns x every history of at most 1 (quick) / 2 (thorough) operations at 7 instants; compared at every step",
            move |x| reordered(x, 1 + t as usize),
        ),
        Suite::new(
            "junctions",
            "junctions of three and four arms x 6 kinds of control x every sequence of 2 (quick) / 3 (thorough) movements from different arms x 2 gaps x 8 orders of declaration",
            move |x| arrive(x, &nets, 2 + t as usize, &image),
        ),
        Suite::new(
            "lane-choice",
            "all masks of 2 or 3 lanes, straight and curved, every origin and exit, with another vehicle in any lane; 8 orders of declaration",
            move |x| {
                let k = 2 + x.choose(2);
                lane_choice(x, k, &image)
            },
        ),
    ]
}
