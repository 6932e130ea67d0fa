//! C01 and C02: traffic lights.

use crate::engine::*;
use crate::{ensure, fail};
use traffic_sim::slotmap::SlotMap;
use traffic_sim::{LightState, LinkId, TrafficControl, TrafficLight};
use LightState::*;

#[derive(Clone, Debug)]
struct Mv {
    conflict: u64,
    amber: f64,
    red: f64,
}

#[derive(Clone, Debug)]
struct Plan {
    mv: Vec<Mv>,
    phases: Vec<(u64, f64)>,
}

fn link_ids(n: usize) -> Vec<LinkId> {
    let mut m: SlotMap<LinkId, ()> = SlotMap::with_key();
    (0..n).map(|_| m.insert(())).collect()
}

impl Plan {
    /// Builds the light; movement `i` controls links `i` and `n + i`.
    fn build(&self, ids: &[LinkId]) -> TrafficLight {
        let n = self.mv.len();
        let mut t = TrafficLight::new();
        for (i, m) in self.mv.iter().enumerate() {
            t.add_movement(m.conflict, m.amber, m.red, [ids[i], ids[n + i]].into_iter());
        }
        for (m, d) in &self.phases {
            t.add_phase(*m, *d);
        }
        t
    }

    /// Whether movement `i` blocks movement `j`.
    fn blocks(&self, i: usize, j: usize) -> bool {
        (self.mv[i].conflict >> j) & 1 != 0
    }

    /// Conflicts are mutual, and no phase gives green to two conflicting movements.
    fn consistent(&self) -> bool {
        let n = self.mv.len();
        (0..n).all(|i| {
            (0..n).all(|j| {
                i == j
                    || (self.blocks(i, j) == self.blocks(j, i)
                        && (!self.blocks(i, j)
                            || self.phases.iter().all(|(m, _)| (m >> i) & 1 == 0 || (m >> j) & 1 == 0)))
            })
        })
    }
}

fn states(t: &TrafficLight, n: usize) -> Vec<LightState> {
    let mut v = vec![Red; n];
    for (i, s) in t.state() {
        v[i] = s;
    }
    v
}

fn show(v: &[LightState]) -> String {
    v.iter()
        .map(|s| match s {
            Red => 'r',
            Amber => 'a',
            Green => 'G',
        })
        .collect()
}

fn hash(v: &[LightState], clocks: &[f64]) -> u64 {
    let mut m = Mix::new();
    for (s, c) in v.iter().zip(clocks) {
        m.u(*s as u64).f(c.min(8.0));
    }
    m.0
}

/// Watches a light and checks the safety rules at every step.
struct Watch {
    st: Vec<LightState>,
    /// How long the present state has been displayed.
    shown: Vec<f64>,
}

impl Watch {
    fn new(n: usize) -> Self {
        Watch {
            st: vec![Red; n],
            shown: vec![0.0; n],
        }
    }

    fn step(&mut self, ctx: &mut Ctx, plan: &Plan, t: &mut TrafficLight, ids: &[LinkId], dt: f64, consistent: bool) -> Res {
        let n = plan.mv.len();
        t.step(dt);
        ctx.steps(1);
        let now = states(t, n);
        for j in 0..n {
            match (self.st[j], now[j]) {
                (Red, Green) => {
                    ctx.cover("turned green");
                    for i in 0..n {
                        if i != j && plan.blocks(i, j) {
                            ctx.checked();
                            if self.st[i] != Red || self.shown[i] < plan.mv[i].red - 1e-9 {
                                fail!(
                                    "movement {} turned green although conflicting movement {} had been {:?} for only {:.4} s (clearance {} s) in {:?}",
                                    j, i, self.st[i], self.shown[i], plan.mv[i].red, plan
                                );
                            }
                        }
                    }
                }
                (Green, Red) => fail!("movement {} went from green to red without amber in {:?}", j, plan),
                (Amber, Red) => {
                    ctx.cover("turned red");
                    ensure!(
                        self.shown[j] >= plan.mv[j].amber - 1e-9,
                        "movement {} showed amber for {:.4} s instead of {} s in {:?}",
                        j, self.shown[j], plan.mv[j].amber, plan
                    );
                }
                (Red, Amber) => fail!("movement {} went from red to amber in {:?}", j, plan),
                _ => {}
            }
        }
        if consistent {
            for i in 0..n {
                for j in 0..i {
                    if plan.blocks(i, j) {
                        ctx.checked();
                        ensure!(
                            now[i] == Red || now[j] == Red,
                            "conflicting movements {} and {} show {:?} and {:?} in {:?}",
                            j, i, now[j], now[i], plan
                        );
                    }
                }
            }
        }
        // The links of a movement are open exactly while it shows green.
        let mut seen = 0;
        for (id, c) in t.get_states() {
            let k = ids.iter().position(|x| *x == id);
            let Some(k) = k else { fail!("control of an unknown link") };
            seen += 1;
            let green = now[k % n] == Green;
            let ok = match c {
                TrafficControl::Open => green,
                TrafficControl::Closed => !green,
                _ => false,
            };
            ensure!(ok, "link of movement {} is {:?} while the movement shows {:?} in {:?}", k % n, c, now[k % n], plan);
        }
        ensure!(seen == 2 * n, "{} of {} controlled links reported", seen, 2 * n);
        for j in 0..n {
            self.shown[j] = if now[j] == self.st[j] { self.shown[j] + dt } else { dt };
        }
        self.st = now;
        Ok(())
    }
}

/// The reference programme: what every movement must show, step by step. Time is measured as the
/// time a state has been displayed at the start of a step.
struct Model<'a> {
    plan: &'a Plan,
    st: Vec<LightState>,
    shown: Vec<f64>,
    phase: usize,
    in_phase: f64,
}

impl<'a> Model<'a> {
    fn new(plan: &'a Plan) -> Self {
        let n = plan.mv.len();
        Model {
            plan,
            st: vec![Red; n],
            shown: vec![0.0; n],
            phase: 0,
            in_phase: 0.0,
        }
    }

    fn step(&mut self, dt: f64) {
        let n = self.st.len();
        let p = self.plan;
        if !p.phases.is_empty() {
            let (mask, dur) = p.phases[self.phase];
            let served = (0..n).all(|i| (mask >> i) & 1 == 0 || (self.st[i] == Green && self.shown[i] >= dur));
            if served && self.in_phase >= dur {
                self.phase = (self.phase + 1) % p.phases.len();
                self.in_phase = 0.0;
            }
        }
        let mask = if p.phases.is_empty() { 0 } else { p.phases[self.phase].0 };
        let next: Vec<LightState> = (0..n)
            .map(|i| {
                let want = (mask >> i) & 1 != 0;
                match (want, self.st[i]) {
                    (true, Red) => {
                        let clear = (0..n).all(|k| {
                            !p.blocks(k, i) || (self.st[k] == Red && self.shown[k] > p.mv[k].red)
                        });
                        if clear {
                            Green
                        } else {
                            Red
                        }
                    }
                    (true, _) => Green,
                    (false, Green) => Amber,
                    (false, Amber) if self.shown[i] >= p.mv[i].amber => Red,
                    (false, s) => s,
                }
            })
            .collect();
        for i in 0..n {
            self.shown[i] = if next[i] == self.st[i] { self.shown[i] + dt } else { dt };
        }
        self.st = next;
        self.in_phase += dt;
    }
}

const TICK: f64 = 0.125;

/// Runs one plan, both against the safety rules and, if `exact`, against the reference programme.
fn run(ctx: &mut Ctx, plan: &Plan, ids: &[LinkId], exact: bool, dts: &[f64], steps: usize) -> Res {
    let n = plan.mv.len();
    let mut t = plan.build(ids);
    if exact {
        let mut m = Model::new(plan);
        for k in 0..steps {
            let dt = dts[k % dts.len()];
            t.step(dt);
            ctx.steps(1);
            m.step(dt);
            let now = states(&t, n);
            ctx.checked();
            ctx.state(hash(&now, &m.shown) ^ (m.phase as u64));
            if now != m.st {
                fail!(
                    "after step {} (dt {}) the light shows {} but the programme requires {} in {:?}",
                    k + 1, dt, show(&now), show(&m.st), plan
                );
            }
            let all_green = plan.phases.len() > 1 && now.iter().any(|s| *s == Green) && m.phase > 0;
            if all_green {
                ctx.cover("later phase green");
            }
            ctx.log(|| format!("{} {}", k + 1, show(&now)));
        }
    } else {
        let c = plan.consistent();
        let mut w = Watch::new(n);
        for k in 0..steps {
            w.step(ctx, plan, &mut t, ids, dts[k % dts.len()], c)?;
            ctx.state(hash(&w.st, &w.shown));
            ctx.log(|| format!("{} {}", k + 1, show(&w.st)));
        }
        if c {
            ctx.cover("consistent plan");
        }
    }
    Ok(())
}

/// Every plan over `n` movements and up to `np` phases.
fn plans(ctx: &mut Ctx, n: usize, np: usize, exact: bool, steps: usize) -> Res {
    let mut conflict = vec![];
    for _ in 0..n {
        conflict.push(ctx.choose(1 << n) as u64);
    }
    let phases = 1 + ctx.choose(np);
    let mut masks = vec![];
    for _ in 0..phases {
        masks.push(ctx.choose(1 << n) as u64);
    }
    let ids = link_ids(2 * n);
    // Timings: amber and duration may be whole numbers of steps; the clearance never is, so that
    // it does not matter whether "at least" is strict.
    let ambers = [0.0, 2.0 * TICK, 3.5 * TICK];
    let reds = [0.5 * TICK, 4.5 * TICK];
    let durs = [2.0 * TICK, 5.0 * TICK];
    let dtss: [&[f64]; 2] = [&[TICK], &[TICK, 3.0 * TICK]];
    for a in 0..3usize.pow(n as u32) {
        for r in 0..1usize << n {
            let mv = (0..n)
                .map(|i| Mv {
                    conflict: conflict[i],
                    amber: ambers[(a / 3usize.pow(i as u32)) % 3],
                    red: reds[(r >> i) & 1],
                })
                .collect::<Vec<_>>();
            let plan = Plan {
                mv,
                phases: masks
                    .iter()
                    .enumerate()
                    .map(|(k, m)| (*m, durs[(k + a) % 2]))
                    .collect(),
            };
            let dts = dtss[(a + r) % 2];
            run(ctx, &plan, &ids, exact, dts, steps)?;
            ctx.observe(a as u64);
        }
    }
    Ok(())
}

/// Movements in a rotation with times as they are used in practice.
fn usual_times(ctx: &mut Ctx, exact: bool) -> Res {
    let n = ctx.pick(&[2, 3]);
    let ambers: Vec<f64> = (0..n).map(|_| ctx.pick(&[0.0, 3.0, 5.5, 12.0])).collect();
    let reds: Vec<f64> = (0..n).map(|_| ctx.pick(&[1.0625, 4.0625, 9.0625])).collect();
    let durs = ctx.pick(&[[20.0, 8.0, 30.0], [45.0, 100.0, 12.0], [8.0, 8.0, 60.0]]);
    let all = (1u64 << n) - 1;
    let plan = Plan {
        mv: (0..n).map(|i| Mv { conflict: all & !(1 << i), amber: ambers[i], red: reds[i] }).collect(),
        phases: (0..n).map(|i| (1 << i, durs[i])).collect(),
    };
    let ids = link_ids(2 * n);
    let dts: &[f64] = ctx.pick(&[&[0.125][..], &[0.5, 0.25]]);
    let steps = if dts.len() == 1 { 4000 } else { 1300 };
    run(ctx, &plan, &ids, exact, dts, steps)?;
    ctx.observe(n as u64);
    Ok(())
}

/// As `usual_times` with steps that are much shorter than any time of the plan.
fn short_steps(ctx: &mut Ctx, exact: bool) -> Res {
    let n = ctx.pick(&[2, 3]);
    let ambers: Vec<f64> = (0..n).map(|_| ctx.pick(&[0.0, 0.5, 3.125])).collect();
    let reds: Vec<f64> = (0..n).map(|_| ctx.pick(&[0.046875, 1.015625, 2.546875])).collect();
    let durs = ctx.pick(&[[2.0, 1.0, 3.5], [5.0, 8.0, 4.25]]);
    let all = (1u64 << n) - 1;
    let plan = Plan {
        mv: (0..n).map(|i| Mv { conflict: all & !(1 << i), amber: ambers[i], red: reds[i] }).collect(),
        phases: (0..n).map(|i| (1 << i, durs[i])).collect(),
    };
    let ids = link_ids(2 * n);
    let dts: &[f64] = ctx.pick(&[&[0.03125][..], &[0.015625, 0.03125]]);
    run(ctx, &plan, &ids, exact, dts, 1500)?;
    ctx.observe(n as u64);
    Ok(())
}

/// Several signals in one simulation, with several links each; a vehicle waits at every link.
fn in_simulation(ctx: &mut Ctx) -> Res {
    use crate::world::*;
    let signals = 1 + ctx.choose(5);
    let mut net = Net::new();
    // For each link: signal and movement; its approach is the link before it.
    let mut owner = vec![];
    for s in 0..signals {
        let moves = if s < 3 { 1 + ctx.choose(3) } else { 2 };
        let links = if s < 2 { ctx.pick(&[1, 2, 5]) } else { 2 };
        let mut spec = LightSpec::default();
        let all = (1u64 << moves) - 1;
        for m in 0..moves {
            let mut ls = vec![];
            for _ in 0..links {
                let y = 10.0 * owner.len() as f64;
                let a = net.line(0.0, y, 20.0, y, 10.0);
                let b = net.line(20.0, y, 60.0, y, 10.0);
                net.conn(a, b);
                ls.push(b);
                owner.push((s, m));
            }
            spec.movements.push(MoveSpec { conflict: all & !(1 << m), amber: 2.0, red: 1.05, links: ls });
        }
        let dur = 9.0 + s as f64;
        // The first phase is all red, so that every vehicle comes to a halt.
        spec.phases.push((0, 12.0));
        for m in 0..moves {
            spec.phases.push((1 << m, dur));
        }
        net.lights.push(spec);
    }
    let dt = ctx.pick(&[0.1, 0.2]);
    // From the beginning, put up while the simulation runs, or with somebody setting
    // the controls by hand, once, while every vehicle can still stop.
    let how = ctx.choose(3);
    let specs = net.lights.clone();
    if how == 1 {
        net.lights.clear();
    }
    let mut w = net.build();
    if how == 1 {
        for _ in 0..7 {
            w.step(ctx, dt);
        }
        for s in &specs {
            let l = w.sim.add_traffic_light(light(s, &w.l));
            w.lights.push(l);
        }
    }
    for i in 0..owner.len() {
        w.add(&CAR, 2 * i, Some(2 * i + 1));
    }
    let mut green = vec![None; owner.len()];
    let mut gone = vec![false; owner.len()];
    for f in 0..(75.0 / dt) as usize {
        if how == 2 && f == 5 {
            for i in 0..owner.len() {
                w.control(2 * i + 1, OPEN);
            }
        }
        w.step(ctx, dt);
        for (i, (s, m)) in owner.iter().enumerate() {
            let light = w.sim.iter_lights().find(|(id, _)| *id == w.lights[*s]).unwrap().1;
            let now = states(light, specs[*s].movements.len())[*m];
            if now == Green && green[i].is_none() {
                green[i] = Some(w.time);
            }
            if gone[i] {
                continue;
            }
            ctx.checked();
            let Some(v) = w.snap(i) else { fail!("the vehicle at link {} has disappeared", 2 * i + 1) };
            if v.link == 2 * i + 1 || v.front() > 20.0 {
                gone[i] = true;
                ensure!(green[i].is_some(), "a vehicle enters link {} of movement {} of signal {} before it has been green", 2 * i + 1, m, s);
                ctx.cover("enters when green");
            } else if let Some(t) = green[i] {
                ensure!(w.time < t + 6.0, "the vehicle at link {} of movement {} of signal {} does not start although it is green", 2 * i + 1, m, s);
            }
        }
    }
    ensure!(gone.iter().all(|g| *g), "a vehicle has not got green: {}", w.describe());
    ctx.state(w.hash());
    ctx.observe(w.hash());
    Ok(())
}

/// Signals in a simulation show at every frame what the same signals show on their own.
fn among_traffic(ctx: &mut Ctx, secs: f64) -> Res {
    use crate::world::*;
    let signals = 1 + ctx.choose(3);
    let traffic = ctx.choose(6);
    let steps = ctx.pick(&[[0.1, 0.1], [0.03, 0.03], [0.2, 0.2], [0.5, 0.5], [0.125, 1.0], [0.05, 0.15]]);
    let late = ctx.pick(&[0, 1, 13]);
    let other = ctx.choose(2) == 1;
    let mut net = Net::new();
    let mut specs = vec![];
    for s in 0..signals {
        let mut spec = LightSpec::default();
        let moves = [2, 3, 1][s];
        for m in 0..moves {
            let y = 50.0 * s as f64 + 10.0 * m as f64;
            let a = net.line(0.0, y, 40.0, y, 10.0);
            let b = net.line(40.0, y, 80.0, y, 10.0);
            net.conn(a, b);
            let conflict = ((1 << moves) - 1) & !(1 << m);
            spec.movements.push(MoveSpec { conflict, amber: 1.5 + 0.5 * m as f64, red: 0.7 + 0.3 * s as f64, links: vec![b] });
        }
        if other {
            spec.phases.push((0, 3.0));
        }
        for m in 0..moves {
            spec.phases.push((1 << m, 4.0 + m as f64 + 0.7 * s as f64));
        }
        if moves == 1 {
            spec.phases.push((0, 2.5));
        }
        specs.push(spec);
    }
    let mut w = net.build();
    let n = net.links.len() / 2;
    let mut alone = vec![];
    let mut seen = vec![0u64; n];
    let mut held = vec![];
    let mut time = 0.0;
    let mut f = 0;
    while time < secs {
        // One signal more with every `late` frames.
        while alone.len() < signals && f >= late * alone.len() {
            let s = &specs[alone.len()];
            let l = w.sim.add_traffic_light(light(s, &w.l));
            w.lights.push(l);
            alone.push(light(s, &w.l));
        }
        match traffic {
            // A vehicle everywhere, one that comes later, now and then one that is
            // taken away again, vehicles that drive out, and halted ones.
            1 if f == 0 => (0..n).for_each(|i| drop(w.add(&CAR, 2 * i, Some(2 * i + 1)))),
            2 if f == 37 => drop(w.add(&CAR, 0, Some(1))),
            3 if f % 16 == 0 => held.push(w.add(&CAR, 0, None)),
            3 if f % 16 == 8 => w.remove(held.pop().unwrap()),
            4 if f == 0 => drop(w.add(&CAR, 1, Some(1))),
            5 if f == 0 => {
                let v = w.add(&CAR, 0, None);
                w.freeze(v, true);
            }
            _ => (),
        }
        let dt = steps[f % 2];
        w.step(ctx, dt);
        time += dt;
        f += 1;
        let mut at = 0;
        for (s, l) in alone.iter_mut().enumerate() {
            l.step(dt);
            let m = specs[s].movements.len();
            let shown = w.sim.iter_lights().find(|(id, _)| *id == w.lights[s]).map(|(_, l)| states(l, m));
            let want = states(l, m);
            ctx.checked();
            ensure!(
                shown.as_ref() == Some(&want),
                "signal {} of {} shows {} after {:.3} s in a simulation and {} on its own",
                s, signals, shown.map_or("nothing".to_string(), |v| show(&v)), time, show(&want)
            );
            for (i, st) in want.iter().enumerate() {
                seen[at + i] |= 1 << *st as u64;
            }
            at += m;
        }
        ctx.state(w.hash());
    }
    if seen.iter().all(|s| *s == 7) {
        ctx.cover("all states");
    }
    ctx.observe(w.hash());
    Ok(())
}

/// Mutually conflicting movements in a rotation, at every pair or triple of movement indices.
fn indices(ctx: &mut Ctx, exact: bool) -> Res {
    const SLOTS: [usize; 8] = [0, 1, 7, 8, 31, 32, 33, 63];
    let a = ctx.pick(&SLOTS);
    let b = ctx.pick(&SLOTS);
    let c = ctx.pick(&SLOTS);
    if a == b || b == c || a == c {
        return ctx.prune();
    }
    let n = 1 + a.max(b).max(c);
    let mutual = ctx.choose(2) == 0;
    let set = (1u64 << a) | (1 << b) | (1 << c);
    let mut mv = vec![
        Mv {
            conflict: 0,
            amber: 2.0 * TICK,
            red: 2.5 * TICK
        };
        n
    ];
    for i in [a, b, c] {
        mv[i].conflict = if mutual { set & !(1 << i) } else { 0 };
    }
    if !mutual {
        // A chain of one-way blocks.
        mv[a].conflict = 1 << b;
        mv[b].conflict = 1 << c;
    }
    let plan = Plan {
        mv,
        phases: vec![(1 << a, 6.0 * TICK), (1 << b, 4.0 * TICK), (1 << c, 5.0 * TICK)],
    };
    let ids = link_ids(2 * n);
    run(ctx, &plan, &ids, exact, &[TICK], 120)
}

/// Every sequence of time steps.
fn step_sequences(ctx: &mut Ctx, exact: bool, depth: usize) -> Res {
    let conf = ctx.choose(6);
    let mk = |conflict: u64, amber: f64, red: f64| Mv { conflict, amber, red };
    let plan = match conf {
        0 => Plan {
            mv: vec![mk(2, 0.5, 0.3125), mk(1, 0.25, 0.4375)],
            phases: vec![(1, 0.5), (2, 0.75)],
        },
        1 => Plan {
            mv: vec![mk(6, 0.25, 0.3125), mk(5, 0.5, 0.1875), mk(3, 0.25, 0.1875)],
            phases: vec![(1, 0.25), (2, 0.25), (4, 0.5)],
        },
        // Overlapping phases: movement 1 stays green from one phase to the next.
        2 => Plan {
            mv: vec![mk(4, 0.25, 0.1875), mk(0, 0.5, 0.1875), mk(1, 0.25, 0.3125)],
            phases: vec![(3, 0.5), (6, 0.5)],
        },
        // An all-red phase between two greens.
        3 => Plan {
            mv: vec![mk(2, 0.25, 0.1875), mk(1, 0.25, 0.1875)],
            phases: vec![(1, 0.25), (0, 0.75), (2, 0.25)],
        },
        // A movement that is dropped and wanted again while still amber.
        4 => Plan {
            mv: vec![mk(0, 1.5, 0.1875), mk(0, 0.25, 0.1875)],
            phases: vec![(3, 0.25), (2, 0.25)],
        },
        _ => Plan {
            mv: vec![mk(2, 0.25, 0.0625), mk(1, 0.25, 0.0625)],
            phases: vec![],
        },
    };
    let n = plan.mv.len();
    let ids = link_ids(2 * n);
    let mut t = plan.build(&ids);
    let mut m = Model::new(&plan);
    let mut w = Watch::new(n);
    let c = plan.consistent();
    for k in 0..depth {
        let dt = ctx.pick(&[0.125, 0.25, 1.0]);
        if exact {
            t.step(dt);
            ctx.steps(1);
            m.step(dt);
            let now = states(&t, n);
            ctx.checked();
            ctx.state(hash(&now, &m.shown) ^ (m.phase as u64));
            ctx.log(|| format!("dt {} {}", dt, show(&now)));
            ensure!(
                now == m.st,
                "after {} steps the light shows {} but the programme requires {} in {:?}",
                k + 1, show(&now), show(&m.st), plan
            );
        } else {
            w.step(ctx, &plan, &mut t, &ids, dt, c)?;
            ctx.state(hash(&w.st, &w.shown));
            ctx.log(|| format!("dt {} {}", dt, show(&w.st)));
        }
    }
    if exact && !plan.phases.is_empty() && m.phase > 0 {
        ctx.cover("later phase reached");
    }
    ctx.observe(hash(&w.st, &w.shown) ^ hash(&m.st, &m.shown));
    Ok(())
}

fn light_suites(exact: bool, t: bool) -> Vec<Suite> {
    let depth = if t { 14 } else { 11 };
    let green = if exact { "later phase green" } else { "turned green" };
    let mut v = vec![
        Suite::new(
            "plans-2",
            "every plan with 2 movements (all conflict masks, incl. one-way and self), 1 to 3 phases with all masks, 9 amber and 4 clearance combinations, 2 step patterns, 96 steps each",
            move |c| plans(c, 2, 3, exact, 96),
        )
        .reaching(&[green]),
        Suite::new(
            "plans-3",
            "every plan with 3 movements, all conflict masks, 1 to 2 phases (quick) / 1 to 3 phases (thorough) with all masks, all 216 amber and clearance combinations, 72 steps each",
            move |c| plans(c, 3, if t { 3 } else { 2 }, exact, 72),
        )
        .reaching(&[green]),
        Suite::new(
            "movement-indices",
            "three rotating movements placed at every triple of the indices 0,1,7,8,31,32,33,63, mutual or one-way conflicts, 120 steps",
            move |c| indices(c, exact),
        )
        .reaching(&[green]),
        Suite::new(
            "step-sequences",
            "six plans x every sequence of 11 (quick) / 14 (thorough) time steps from {0.125, 0.25, 1}",
            move |c| step_sequences(c, exact, depth),
        ),
    ];
    v.push(
        Suite::new(
            "usual-times",
            "2 or 3 rotating movements with every combination of ambers of 0 to 12 s and clearances of 1 to 9 s, phases of 8 to 100 s, 2 step patterns, 500 s",
            move |c| usual_times(c, exact),
        )
        .reaching(&[green]),
    );
    v.push(
        Suite::new(
            "short-steps",
            "2 or 3 rotating movements with every combination of 3 ambers and 3 clearances each, 2 sets of phases; 1500 steps of 1/32 s or of 1/64 and 1/32 s",
            move |c| short_steps(c, exact),
        )
        .reaching(&[green]),
    );
    if exact {
        let secs = if t { 90.0 } else { 45.0 };
        v.push(
            Suite::new(
                "among-traffic",
                "1 to 3 signals in a simulation, there from the beginning or put up one after the other, with and without an all-red phase, no vehicles or five patterns of vehicles waiting, coming, being taken away, leaving or halted, 6 step patterns of 0.03 to 1 s; every frame of 45 s (quick) / 90 s (thorough) compared with the same signals on their own",
                move |c| among_traffic(c, secs),
            )
            .reaching(&["all states"]),
        );
    }
    if !exact {
        v.push(
            Suite::new(
                "in-simulation",
                "1 to 5 signals in one simulation with 1 to 3 movements of 1, 2 or 5 links each; a vehicle waits at every link; signals there from the beginning, put up later, or overridden by hand once; 2 time steps",
                in_simulation,
            )
            .reaching(&["enters when green"]),
        );
        v[0] = v[0].clone().reaching(&["turned green", "turned red", "consistent plan"]);
    }
    v
}

pub fn safety(t: bool) -> Vec<Suite> {
    light_suites(false, t)
}

pub fn programme(t: bool) -> Vec<Suite> {
    light_suites(true, t)
}
