//! Builders and observers for closed worlds around the real [`Simulation`].
//! Only the crate's public API is used.

use crate::engine::{Ctx, Mix};
use traffic_sim::cgmath::prelude::*;
use traffic_sim::math::{CubicBezier2d, LineSegment2d, Point2d, QuadraticBezier2d, Vector2d, ParametricCurve2d};
use traffic_sim::{
    Interval, LinkAttributes, LinkId, Simulation, TrafficControl, TrafficLight, TrafficLightId,
    VehicleAttributes, VehicleId,
};

#[derive(Clone, Copy, Debug)]
pub enum Shape {
    Line([f64; 4]),
    Quad([f64; 6]),
    Cubic([f64; 8]),
    /// A circular arc: centre, radius, first and last angle, start and length of the range of its parameter.
    Arc([f64; 7]),
}

#[derive(Clone, Debug)]
pub struct MoveSpec {
    pub conflict: u64,
    pub amber: f64,
    pub red: f64,
    pub links: Vec<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct LightSpec {
    pub movements: Vec<MoveSpec>,
    pub phases: Vec<(u64, f64)>,
}

#[derive(Clone, Debug, Default)]
pub struct Net {
    pub links: Vec<(Shape, f64)>,
    pub conns: Vec<(usize, usize)>,
    pub groups: Vec<(Vec<usize>, u32)>,
    pub convs: Vec<(usize, usize)>,
    pub controls: Vec<(usize, TrafficControl)>,
    pub lights: Vec<LightSpec>,
}

pub const OPEN: TrafficControl = TrafficControl::Open;
pub const CLOSED: TrafficControl = TrafficControl::Closed;
pub const fn give_way(distance: f64, must_stop: bool, priority: i8) -> TrafficControl {
    TrafficControl::Yield {
        distance,
        must_stop,
        priority,
    }
}

/// An ordinary car, as in the crate's documentation.
pub const CAR: VehicleAttributes = VehicleAttributes {
    width: 2.0,
    length: 5.0,
    wheel_base: 1.5,
    headway: 1.5,
    max_acc: 2.0,
    comf_dec: 2.0,
};

/// A long, slow truck.
pub const TRUCK: VehicleAttributes = VehicleAttributes {
    width: 2.5,
    length: 12.0,
    wheel_base: 4.0,
    headway: 2.0,
    max_acc: 1.0,
    comf_dec: 1.5,
};

/// A short, lively vehicle.
pub const SPORTY: VehicleAttributes = VehicleAttributes {
    width: 1.6,
    length: 3.5,
    wheel_base: 1.0,
    headway: 1.0,
    max_acc: 3.0,
    comf_dec: 3.0,
};

/// One that accelerates much harder than it likes to brake.
pub const EAGER: VehicleAttributes = VehicleAttributes { max_acc: 3.5, comf_dec: 1.5, ..CAR };

/// One that brakes much harder than it accelerates.
pub const CALM: VehicleAttributes = VehicleAttributes { max_acc: 1.0, comf_dec: 3.0, ..CAR };

pub fn pt(x: f64, y: f64) -> Point2d {
    Point2d::new(x, y)
}

pub fn light(spec: &LightSpec, l: &[LinkId]) -> TrafficLight {
    let mut tl = TrafficLight::new();
    for m in &spec.movements {
        tl.add_movement(m.conflict, m.amber, m.red, m.links.iter().map(|i| l[*i]));
    }
    for (mask, d) in &spec.phases {
        tl.add_phase(*mask, *d);
    }
    tl
}

impl Net {
    pub fn new() -> Self {
        Default::default()
    }

    /// Adds a straight link and returns its index.
    pub fn line(&mut self, x1: f64, y1: f64, x2: f64, y2: f64, speed: f64) -> usize {
        self.links.push((Shape::Line([x1, y1, x2, y2]), speed));
        self.links.len() - 1
    }

    pub fn quad(&mut self, p: [f64; 6], speed: f64) -> usize {
        self.links.push((Shape::Quad(p), speed));
        self.links.len() - 1
    }

    pub fn cubic(&mut self, p: [f64; 8], speed: f64) -> usize {
        self.links.push((Shape::Cubic(p), speed));
        self.links.len() - 1
    }

    pub fn conn(&mut self, a: usize, b: usize) {
        self.conns.push((a, b));
    }

    /// A hash of the definition.
    pub fn hash(&self) -> u64 {
        let mut m = Mix::new();
        for (s, v) in &self.links {
            let p: &[f64] = match s {
                Shape::Line(p) => p,
                Shape::Quad(p) => p,
                Shape::Cubic(p) => p,
                Shape::Arc(p) => p,
            };
            m.f(*v);
            for x in p {
                m.f(*x);
            }
        }
        for (a, b) in self.conns.iter().chain(&self.convs) {
            m.u((a * 64 + b) as u64);
        }
        for (g, mask) in &self.groups {
            m.u(*mask as u64);
            for l in g {
                m.u(*l as u64);
            }
        }
        for (l, c) in &self.controls {
            m.u(*l as u64);
            if let TrafficControl::Yield { distance, must_stop, priority } = c {
                m.f(*distance).u(*must_stop as u64).u(*priority as u64);
            } else {
                m.u(matches!(c, TrafficControl::Open) as u64);
            }
        }
        for l in &self.lights {
            for x in &l.movements {
                m.u(x.conflict).f(x.amber).f(x.red);
            }
            for (mask, d) in &l.phases {
                m.u(*mask).f(*d);
            }
        }
        m.0
    }

    pub fn build(&self) -> World {
        let mut sim = Simulation::new();
        let l: Vec<LinkId> = self
            .links
            .iter()
            .map(|(s, v)| add_link(&mut sim, s, *v))
            .collect();
        for (a, b) in &self.conns {
            sim.add_link_connection(l[*a], l[*b]);
        }
        for (ids, mask) in &self.groups {
            let ids: Vec<LinkId> = ids.iter().map(|i| l[*i]).collect();
            sim.add_link_group(&ids, *mask);
        }
        for (a, b) in &self.convs {
            sim.add_link_convergance(l[*a], l[*b]);
        }
        for (a, c) in &self.controls {
            sim.set_link_control(l[*a], *c);
        }
        let lights = self
            .lights
            .iter()
            .map(|spec| {
                let tl = light(spec, &l);
                sim.add_traffic_light(tl)
            })
            .collect();
        World {
            sim,
            l,
            v: vec![],
            attr: vec![],
            lights,
            time: 0.0,
            net: self.hash(),
        }
    }
}

/// A user-defined curve that only states where it is.
struct Arc([f64; 7]);

impl ParametricCurve2d for Arc {
    fn sample(&self, t: f64) -> Point2d {
        let [x, y, r, a0, a1, from, by] = self.0;
        let a = a0 + (a1 - a0) * (t - from) / by;
        pt(x + r * a.cos(), y + r * a.sin())
    }
    fn bounds(&self) -> Interval<f64> {
        Interval::new(self.0[5], self.0[5] + self.0[6])
    }
}

pub fn add_link(sim: &mut Simulation, s: &Shape, speed_limit: f64) -> LinkId {
    match s {
        Shape::Line([a, b, c, d]) => sim.add_link(&LinkAttributes {
            curve: &LineSegment2d::from_ends(pt(*a, *b), pt(*c, *d)),
            speed_limit,
        }),
        Shape::Quad(p) => sim.add_link(&LinkAttributes {
            curve: &QuadraticBezier2d::new(&[pt(p[0], p[1]), pt(p[2], p[3]), pt(p[4], p[5])]),
            speed_limit,
        }),
        Shape::Arc(p) => sim.add_link(&LinkAttributes { curve: &Arc(*p), speed_limit }),
        Shape::Cubic(p) => sim.add_link(&LinkAttributes {
            curve: &CubicBezier2d::new(&[
                pt(p[0], p[1]),
                pt(p[2], p[3]),
                pt(p[4], p[5]),
                pt(p[6], p[7]),
            ]),
            speed_limit,
        }),
    }
}

pub struct World {
    pub sim: Simulation,
    pub l: Vec<LinkId>,
    pub v: Vec<VehicleId>,
    pub attr: Vec<VehicleAttributes>,
    pub lights: Vec<TrafficLightId>,
    pub time: f64,
    /// A hash of the network.
    pub net: u64,
}

/// What the public API says about one vehicle.
#[derive(Clone, Copy, Debug)]
pub struct Snap {
    /// Index of the link the vehicle is on.
    pub link: usize,
    pub pos: f64,
    pub vel: f64,
    pub half_len: f64,
    pub half_wid: f64,
    pub p: Point2d,
    pub d: Vector2d,
}

impl Snap {
    pub fn front(&self) -> f64 {
        self.pos + self.half_len
    }
    pub fn rear(&self) -> f64 {
        self.pos - self.half_len
    }
    /// The four corners of the vehicle's body in world space, shrunk by `m` on every side.
    pub fn corners(&self, m: f64) -> [Point2d; 4] {
        let f = self.d * (self.half_len - m);
        let s = Vector2d::new(-self.d.y, self.d.x) * (self.half_wid - m);
        [self.p + f + s, self.p + f - s, self.p - f - s, self.p - f + s]
    }
}

/// The penetration depth of two vehicle bodies (separating axis); positive if they overlap.
pub fn penetration(a: &Snap, b: &Snap) -> f64 {
    let (ca, cb) = (a.corners(0.0), b.corners(0.0));
    let mut best = f64::INFINITY;
    for d in [a.d, b.d] {
        for axis in [d, Vector2d::new(-d.y, d.x)] {
            let pr = |c: &[Point2d; 4]| {
                c.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(lo, hi), p| {
                    let x = p.to_vec().dot(axis);
                    (lo.min(x), hi.max(x))
                })
            };
            let (al, ah) = pr(&ca);
            let (bl, bh) = pr(&cb);
            best = best.min(f64::min(ah - bl, bh - al));
        }
    }
    best
}

impl World {
    pub fn li(&self, id: LinkId) -> Option<usize> {
        self.l.iter().position(|x| *x == id)
    }

    pub fn len(&self, link: usize) -> f64 {
        self.sim.get_link(self.l[link]).length()
    }

    pub fn add(&mut self, a: &VehicleAttributes, link: usize, dst: Option<usize>) -> usize {
        let id = self.sim.add_vehicle(a, self.l[link]);
        if let Some(d) = dst {
            self.sim.set_vehicle_destination(id, self.l[d]);
        }
        self.v.push(id);
        self.attr.push(*a);
        self.v.len() - 1
    }

    pub fn dest(&mut self, v: usize, link: usize) {
        self.sim.set_vehicle_destination(self.v[v], self.l[link]);
    }

    pub fn control(&mut self, link: usize, c: TrafficControl) {
        self.sim.set_link_control(self.l[link], c);
    }

    pub fn freeze(&mut self, v: usize, f: bool) {
        self.sim.set_vehicle_frozen(self.v[v], f);
    }

    pub fn remove(&mut self, v: usize) {
        self.sim.remove_vehicle(self.v[v]);
    }

    pub fn alive(&self, v: usize) -> bool {
        self.snap(v).is_some()
    }

    pub fn snap(&self, v: usize) -> Option<Snap> {
        let id = self.v[v];
        self.sim.iter_vehicles().find(|x| x.id() == id).map(|x| Snap {
            link: x.link_id().and_then(|l| self.li(l)).unwrap_or(usize::MAX),
            pos: x.pos_mid(),
            vel: x.vel(),
            half_len: 0.5 * x.length(),
            half_wid: 0.5 * x.width(),
            p: x.position(),
            d: x.direction(),
        })
    }

    pub fn snaps(&self) -> Vec<Option<Snap>> {
        (0..self.v.len()).map(|v| self.snap(v)).collect()
    }

    pub fn step(&mut self, ctx: &mut Ctx, dt: f64) {
        self.sim.step(dt);
        self.time += dt;
        ctx.steps(1);
    }

    /// A hash of the network and the observable state (quantised to a micrometre).
    pub fn hash(&self) -> u64 {
        let mut m = Mix::new();
        m.u(self.net).u(self.sim.frame() as u64);
        for v in self.sim.iter_vehicles() {
            m.u(v.link_id().and_then(|l| self.li(l)).unwrap_or(999) as u64);
            m.u(self.li(v.destination()).unwrap_or(999) as u64);
            m.f(v.pos_mid()).f(v.vel()).f(v.position().x).f(v.position().y);
        }
        for (_, l) in self.sim.iter_lights() {
            for (_, s) in l.state() {
                m.u(s as u64 + 7);
            }
        }
        m.0
    }

    pub fn describe(&self) -> String {
        let mut s = format!("t={:.4}", self.time);
        for (i, v) in self.snaps().iter().enumerate() {
            match v {
                Some(v) => s += &format!("  v{}: link{} pos={:.3} vel={:.3}", i, v.link, v.pos, v.vel),
                None => s += &format!("  v{}: gone", i),
            }
        }
        s
    }
}
