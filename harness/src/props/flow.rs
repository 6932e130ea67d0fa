//! C17: traffic keeps flowing.

use super::junction::start_free;
use crate::driver::*;
use crate::engine::*;
use crate::scen::*;
use crate::world::*;
use std::f64::consts::PI;
use traffic_sim::TrafficControl;

struct Nothing;
impl Monitor for Nothing {}

/// Any history on the small networks, followed by the release of everything.
fn histories(ctx: &mut Ctx, t: bool) -> Res {
    let sc = scene(ctx.choose(SCENES));
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let mut w = sc.net.build();
    let plan = Plan { slots: 7, slot_s: 2.0, budget: 2 + t as usize, tail_s: 6.0, every: 2, vehicles: 4, dest: true, lane: true };
    let mut now = Now::default();
    drive(ctx, &sc, &mut w, dt, &plan, &mut now, &mut Nothing)?;
    ctx.checked();
    clear(ctx, &sc, &mut w, dt, &mut now, 240.0)
}

/// How the entrances of a junction are controlled.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rule {
    AllStop,
    AllYield,
    /// The first road has right of way, the other must stop.
    MainStop,
    MainYield,
    /// The arms have descending priorities.
    Ranks,
    Signal,
    Open,
}

/// A junction of `arms` roads with one lane each way. Links: approach i, then exit `arms + i`, then
/// the movements from each arm to each other arm.
pub fn junction(arms: usize, half: f64, rule: Rule, ap: f64, tail: f64, lim: f64) -> (Scene, Vec<(usize, usize, usize)>) {
    let mut n = Net::new();
    let angle = |i: usize| if arms == 3 { [0.0, PI, 1.5 * PI][i] } else { i as f64 * 2.0 * PI / arms as f64 };
    let side = 2.0;
    // The axis of an arm points away from the centre; traffic keeps right.
    let frame = |i: usize| {
        let a = angle(i);
        ((f64::cos(a), f64::sin(a)), (f64::sin(a), -f64::cos(a)))
    };
    let at = |i: usize, d: f64, s: f64| {
        let (u, r) = frame(i);
        (d * u.0 + s * r.0, d * u.1 + s * r.1)
    };
    for i in 0..arms {
        let (p, q) = (at(i, half + ap, -side), at(i, half, -side));
        n.line(p.0, p.1, q.0, q.1, lim);
    }
    for i in 0..arms {
        let (p, q) = (at(i, half, side), at(i, half + tail, side));
        n.line(p.0, p.1, q.0, q.1, lim);
    }
    let mut moves = vec![];
    for i in 0..arms {
        for j in 0..arms {
            if i == j {
                continue;
            }
            let (p, q) = (at(i, half, -side), at(j, half, side));
            let (u, v) = (frame(i).0, frame(j).0);
            let k = 0.55 * half;
            let l = if (u.0 + v.0).abs() < 1e-9 && (u.1 + v.1).abs() < 1e-9 {
                n.line(p.0, p.1, q.0, q.1, lim)
            } else {
                n.cubic(
                    [p.0, p.1, p.0 - k * u.0, p.1 - k * u.1, q.0 - k * v.0, q.1 - k * v.1, q.0, q.1],
                    lim.min(7.0),
                )
            };
            n.conn(i, l);
            n.conn(l, arms + j);
            moves.push((i, j, l));
        }
    }
    // Movements from different arms that come close to each other are declared.
    let truths: Vec<_> = n.links.iter().map(|l| super::pose::Truth::new(&l.0)).collect();
    let near = |a: usize, b: usize| {
        let pts = |x: usize| (0..=40).map(move |k| k as f64 / 40.0).map(move |f| (x, f));
        pts(a).any(|(x, f)| {
            let p = truths[x].at(f * truths[x].len()).0;
            pts(b).any(|(y, g)| {
                let q = truths[y].at(g * truths[y].len()).0;
                (p.x - q.x).hypot(p.y - q.y) < 3.2
            })
        })
    };
    let mut conflicts = vec![];
    for (a, x) in moves.iter().enumerate() {
        for (b, y) in moves.iter().enumerate().skip(a + 1) {
            if x.0 != y.0 && near(x.2, y.2) {
                n.convs.push((x.2, y.2));
                conflicts.push((a, b));
            }
        }
    }
    for (i, _, l) in &moves {
        let main = *i == 0 || (arms == 3 && *i == 1) || (arms == 4 && *i == 2);
        let c: TrafficControl = match rule {
            Rule::AllStop => give_way(4.0, true, 0),
            Rule::AllYield => give_way(4.0, false, 0),
            Rule::MainStop if !main => give_way(4.0, true, 0),
            Rule::MainYield if !main => give_way(6.0, false, 0),
            Rule::Ranks => give_way(6.0, *i % 2 == 1, -(*i as i8)),
            _ => continue,
        };
        n.controls.push((*l, c));
    }
    if rule == Rule::Signal {
        // One movement of the signal per arm, one phase per arm.
        let movements = (0..arms)
            .map(|i| MoveSpec {
                conflict: ((1 << arms) - 1) & !(1 << i),
                amber: 2.0,
                red: 2.0,
                links: moves.iter().filter(|m| m.0 == i).map(|m| m.2).collect(),
            })
            .collect();
        n.lights.push(LightSpec { movements, phases: (0..arms).map(|i| (1 << i, 5.0)).collect() });
    }
    let sc = Scene { net: n, trips: vec![], closable: vec![], lanes: vec![], dests: vec![] };
    (sc, moves)
}

/// Every arrival pattern at a junction: each arm sends a vehicle for any exit, or none, per slot.
fn arrivals(ctx: &mut Ctx, nets: &[(Scene, Vec<(usize, usize, usize)>)], arms: usize, slots: usize, gap_s: &[f64], kinds: &[usize], halts: usize) -> Res {
    let (sc, moves) = &nets[ctx.choose(nets.len())];
    let gap = ctx.pick(gap_s);
    let kind = ctx.pick(kinds);
    let dt = Dt::Const(0.125);
    let mut w = sc.net.build();
    let mut now = Now::default();
    // The moment at which some vehicle is halted for a while.
    ctx.set_budget(halts);
    for _ in 0..slots {
        for i in 0..arms {
            let c = ctx.choose(arms);
            if c == 0 {
                continue;
            }
            let m = moves.iter().filter(|m| m.0 == i).nth(c - 1).unwrap();
            if start_free(&w, i, KINDS[kind].length) {
                w.add(&KINDS[kind], i, Some(arms + m.1));
                ctx.log(|| format!("a vehicle for arm {} | {}", m.1, w.describe()));
            }
        }
        for k in 0..dt.frames(gap) {
            w.step(ctx, dt.at(now.frame));
            now.frame += 1;
            if k % 8 == 7 {
                ctx.log(|| w.describe());
            }
        }
        ctx.state(w.hash());
    }
    if halts > 0 {
        let n = w.v.len();
        for _ in 0..8 {
            if ctx.budget() > 0 {
                let c = ctx.dev(1 + n);
                if c > 0 && w.alive(c - 1) {
                    w.freeze(c - 1, true);
                    now.frozen.push(c - 1);
                }
            }
            for _ in 0..dt.frames(1.0) {
                w.step(ctx, dt.at(now.frame));
                now.frame += 1;
            }
        }
        for _ in 0..dt.frames(12.0) {
            w.step(ctx, dt.at(now.frame));
            now.frame += 1;
        }
        ctx.state(w.hash());
    }
    ctx.checked();
    now.frozen.retain(|v| w.alive(*v));
    if w.sim.iter_vehicles().count() >= 3 {
        ctx.cover("three vehicles at once");
    }
    clear(ctx, sc, &mut w, dt, &mut now, 200.0)
}

/// Dense traffic on the roundabout and on the two-road junctions: every arrival pattern.
fn dense(ctx: &mut Ctx, slots: usize) -> Res {
    // The number of the network, and the trips that arrive.
    let i = ctx.pick(&[2, 3, 4, 5, 8]);
    let sc = scene(i);
    let dt = ctx.pick(&[Dt::Const(0.125), Dt::Const(0.2)]);
    let gap = ctx.pick(&[2.0, 3.5]);
    let mixed = ctx.choose(2);
    let mut w = sc.net.build();
    let mut now = Now::default();
    let mut trips = sc.trips.clone();
    if i == 8 {
        trips = vec![(0, 5), (3, 8), (6, 2)];
    }
    let n = trips.len();
    for slot in 0..slots {
        let c = ctx.choose(1 << n);
        for (k, (src, dst)) in trips.iter().enumerate() {
            // On the roundabout the way to the second exit alternates with that to the first.
            let dst = if i == 8 && slot % 2 == 1 { sc.trips[k].1 } else { *dst };
            let kind = if mixed == 1 { (slot + k) % 3 } else { 0 };
            if c >> k & 1 != 0 && start_free(&w, *src, KINDS[kind].length) {
                w.add(&KINDS[kind], *src, Some(dst));
                ctx.log(|| format!("trip {} | {}", k, w.describe()));
            }
        }
        for _ in 0..dt.frames(gap) {
            w.step(ctx, dt.at(now.frame));
            now.frame += 1;
        }
        ctx.state(w.hash());
    }
    ctx.checked();
    ctx.observe(w.hash());
    clear(ctx, &sc, &mut w, dt, &mut now, 240.0)
}

/// An uncontrolled crossing: two open roads.
fn open_cross(ctx: &mut Ctx, slots: usize) -> Res {
    let ang = ctx.pick(&[0.5 * PI, 0.3 * PI, 0.75 * PI]);
    let merging = ctx.choose(2) == 1;
    let net = if merging { merge(50.0, 0.4 * ang, 12.0, false, 50.0) } else { cross(50.0, 12.0, ang, [12.0, 12.0], 40.0) };
    let trips = if merging { [(0, 4), (2, 4)] } else { [(0, 2), (3, 5)] };
    let sc = Scene { net, trips: trips.to_vec(), closable: vec![], lanes: vec![], dests: vec![] };
    let dt = ctx.pick(&[Dt::Const(0.125), Dt::Const(0.2)]);
    let gap = ctx.pick(&[1.25, 2.5]);
    let kinds = ctx.pick(&[[0, 0], [0, 1], [1, 0], [2, 1]]);
    let mut w = sc.net.build();
    let mut now = Now::default();
    for _ in 0..slots {
        let c = ctx.choose(4);
        for k in 0..2 {
            if c >> k & 1 != 0 && start_free(&w, trips[k].0, KINDS[kinds[k]].length) {
                w.add(&KINDS[kinds[k]], trips[k].0, Some(trips[k].1));
            }
        }
        for _ in 0..dt.frames(gap) {
            w.step(ctx, dt.at(now.frame));
            now.frame += 1;
        }
        ctx.state(w.hash());
    }
    ctx.checked();
    ctx.observe(w.hash());
    clear(ctx, &sc, &mut w, dt, &mut now, 200.0)
}

pub fn suites(t: bool) -> Vec<Suite> {
    let all = [Rule::AllStop, Rule::AllYield, Rule::MainStop, Rule::MainYield, Rule::Ranks, Rule::Signal];
    let nets = |arms: usize| all.map(|r| junction(arms, 12.0, r, 45.0, 40.0, 12.0));
    let (three, four) = (std::sync::Arc::new(nets(3)), std::sync::Arc::new(nets(4)));
    let four2 = four.clone();
    vec![
        Suite::new(
            "histories",
            "9 networks x 2 step patterns x every history of at most 2 (quick) / 3 (thorough) operations at 7 instants, then everything is released and opened",
            move |x| histories(x, t),
        )
        .reaching(&["cleared"]),
        Suite::new(
            "three-arms",
            "a junction of three arms x 6 kinds of control x 3 gaps x 2 kinds of vehicle x every pattern of up to one vehicle per arm and slot for every exit, in 2 slots",
            move |x| arrivals(x, &*three, 3, 2, &[1.5, 3.0, 5.0], &[0, 1], 0),
        )
        .reaching(&["cleared", "three vehicles at once"]),
        Suite::new(
            "four-arms",
            "a junction of four arms x 6 kinds of control x every simultaneous arrival of up to one vehicle per arm for every exit",
            move |x| arrivals(x, &*four, 4, 1, &[1.0], &[0, 1, 2], 0),
        )
        .reaching(&["cleared", "three vehicles at once"]),
        Suite::new(
            "four-arms-halt",
            "as four-arms, with one (quick) / two (thorough) of the vehicles halted at any of 8 instants and released later",
            move |x| arrivals(x, &*four2, 4, 1, &[2.0], &[0], 1 + t as usize),
        )
        .reaching(&["cleared"]),
        Suite::new(
            "dense",
            "diverge, merge, all-way stop, signal and roundabout x 2 step patterns x 2 gaps x 2 mixes x every arrival pattern in 4 (quick) / 5 (thorough) slots",
            move |x| dense(x, 4 + t as usize),
        )
        .reaching(&["cleared"]),
        Suite::new(
            "uncontrolled",
            "uncontrolled crossings and merges at 3 angles x 2 steps x 2 gaps x 4 mixes x every arrival pattern in 4 (quick) / 6 (thorough) slots",
            move |x| open_cross(x, 4 + 2 * t as usize),
        )
        .reaching(&["cleared"]),
    ]
}
