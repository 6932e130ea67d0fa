//! Small closed road networks and time-step patterns shared by the suites.

use crate::engine::Ctx;
use crate::world::*;

/// A pattern of time steps.
#[derive(Clone, Copy, Debug)]
pub enum Dt {
    Const(f64),
    /// Alternates between the two values.
    Alt(f64, f64),
}

impl Dt {
    pub fn at(&self, frame: usize) -> f64 {
        match *self {
            Dt::Const(d) => d,
            Dt::Alt(a, b) => {
                if frame % 2 == 0 {
                    a
                } else {
                    b
                }
            }
        }
    }
    pub fn max(&self) -> f64 {
        match *self {
            Dt::Const(d) => d,
            Dt::Alt(a, b) => a.max(b),
        }
    }
    /// Number of frames in `sec` seconds.
    pub fn frames(&self, sec: f64) -> usize {
        let mean = match *self {
            Dt::Const(d) => d,
            Dt::Alt(a, b) => 0.5 * (a + b),
        };
        (sec / mean).round() as usize
    }
    /// The longest time between two updates of the accelerations.
    pub fn reaction(&self) -> f64 {
        match *self {
            Dt::Const(d) => d * (0.1 / d).ceil().max(1.0) + d,
            Dt::Alt(a, b) => 0.1 + a + b,
        }
    }
}

/// The time steps used by default: the documented one, the documented maximum, an exact binary
/// fraction below the update interval, and an uneven pattern.
pub const DTS: [Dt; 4] = [
    Dt::Const(0.1),
    Dt::Const(0.2),
    Dt::Const(0.0625),
    Dt::Alt(0.03, 0.17),
];

/// A straight chain of links.
pub fn chain(lens: &[f64], lims: &[f64]) -> Net {
    let mut n = Net::new();
    let mut x = 0.0;
    for (i, l) in lens.iter().enumerate() {
        n.line(x, 0.0, x + l, 0.0, lims[i.min(lims.len() - 1)]);
        x += l;
        if i > 0 {
            n.conn(i - 1, i);
        }
    }
    n
}

/// Cumulative position of a vehicle in a chain whose links are numbered from 0.
pub fn chain_pos(w: &World, s: &Snap) -> f64 {
    (0..s.link).map(|i| w.len(i)).sum::<f64>() + s.pos
}

/// Two roads crossing at the origin with the given angle (radians).
/// Links 0,1,2 run along the x axis; links 3,4,5 along the direction `ang`.
/// Links 1 and 4 are the parts inside the junction and are declared convergent.
pub fn cross(ap: f64, half: f64, ang: f64, lim: [f64; 2], tail: f64) -> Net {
    let mut n = Net::new();
    for (i, a) in [0.0, ang].into_iter().enumerate() {
        let (c, s) = (f64::cos(a), f64::sin(a));
        let xs = [-ap - half, -half, half, half + tail];
        for k in 0..3 {
            n.line(xs[k] * c, xs[k] * s, xs[k + 1] * c, xs[k + 1] * s, lim[i]);
        }
        n.conn(3 * i, 3 * i + 1);
        n.conn(3 * i + 1, 3 * i + 2);
    }
    n.convs.push((1, 4));
    n
}

/// A merge at the origin: 0→1→4 is the main road along the x axis, 2→3→4 the ramp.
/// Links 1 and 3 converge.
pub fn merge(ap: f64, ang: f64, lim: f64, curved: bool, tail: f64) -> Net {
    let mut n = Net::new();
    let l = 40.0;
    n.line(-ap - l, 0.0, -l, 0.0, lim);
    n.line(-l, 0.0, 0.0, 0.0, lim);
    let (dx, dy) = (f64::cos(ang), f64::sin(ang));
    if curved {
        let (sx, sy) = (-20.0 - 20.0 * dx, -20.0 * dy);
        n.line(sx - ap * dx, sy - ap * dy, sx, sy, lim);
        n.quad([sx, sy, -20.0, 0.0, 0.0, 0.0], lim);
    } else {
        n.line(-(ap + l) * dx, -(ap + l) * dy, -l * dx, -l * dy, lim);
        n.line(-l * dx, -l * dy, 0.0, 0.0, lim);
    }
    n.line(0.0, 0.0, tail, 0.0, lim);
    n.conn(0, 1);
    n.conn(1, 4);
    n.conn(2, 3);
    n.conn(3, 4);
    n.convs.push((1, 3));
    n
}

/// `k` parallel straight lanes, ordered left to right, `sep` metres apart.
pub fn lanes(k: usize, len: f64, sep: f64, lim: f64, mask: u32) -> Net {
    let mut n = Net::new();
    for i in 0..k {
        n.line(0.0, -(i as f64) * sep, len, -(i as f64) * sep, lim);
    }
    n.groups.push(((0..k).collect(), mask));
    n
}

/// The lane change mask allowing every change between `k` lanes.
pub fn all_changes(k: usize) -> u32 {
    let mut m = 0;
    for i in 0..k {
        if i > 0 {
            m |= 1 << (2 * i);
        }
        if i + 1 < k {
            m |= 1 << (2 * i + 1);
        }
    }
    m
}

pub fn kind(ctx: &mut Ctx) -> traffic_sim::VehicleAttributes {
    ctx.pick(&[CAR, TRUCK, SPORTY])
}
