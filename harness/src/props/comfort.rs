//! C29: how hard vehicles brake for what they can see from afar.

use crate::engine::*;
use crate::{ensure, fail};
use crate::scen::*;
use crate::world::*;

/// The limit, as a multiple of the comfortable deceleration.
const MOST: f64 = 2.2;

/// What a vehicle has to stop or slow down for.
#[derive(Clone, Copy, PartialEq)]
enum Ahead {
    Standing,
    Closed,
    StopSign,
    GiveWay,
    DeadEnd,
}

fn stop(ctx: &mut Ctx, grid: usize) -> Res {
    let what = ctx.pick(&[Ahead::Standing, Ahead::Closed, Ahead::StopSign, Ahead::GiveWay, Ahead::DeadEnd]);
    let lim = ctx.pick(&[6.0, 10.0, 15.0]);
    let dt = ctx.pick(&DTS);
    let k = kind(ctx);
    let other = if what == Ahead::Standing { kind(ctx) } else { CAR };
    // Where it is, on a road of one link or of several.
    let at = 900.0 + 148.0 * ctx.choose(grid) as f64 / grid as f64;
    // Without a route a vehicle goes no farther than its link.
    let lens: Vec<f64> = match if what == Ahead::DeadEnd { 0 } else { ctx.choose(3) } {
        0 => vec![at, 200.0],
        1 => vec![at - 40.0, 25.0, 15.0, 200.0],
        _ => vec![100.0, at - 190.0, 90.0, 200.0],
    };
    let last = lens.len() - 1;
    let mut net = chain(&lens, &[lim]);
    match what {
        Ahead::Closed => net.controls.push((last, CLOSED)),
        Ahead::StopSign => net.controls.push((last, give_way(8.0, true, 0))),
        Ahead::GiveWay => net.controls.push((last, give_way(8.0, false, 0))),
        Ahead::DeadEnd => net.conns.retain(|c| c.1 != last),
        Ahead::Standing => {}
    }
    let mut w = net.build();
    let mut frame = 0;
    if what == Ahead::Standing {
        w.add(&other, 0, Some(last));
        while w.snap(0).is_some_and(|s| chain_pos(&w, &s) < at) {
            w.step(ctx, dt.at(frame));
            frame += 1;
        }
        w.freeze(0, true);
        for _ in 0..dt.frames(8.0) {
            w.step(ctx, dt.at(frame));
            frame += 1;
        }
    }
    let v = w.add(&k, 0, Some(last));
    let mut braking = Braking::default();
    let (mut near, mut stood) = (None, None);
    for _ in 0..dt.frames(240.0) {
        let Some(a) = w.snap(v) else { break };
        let d = dt.at(frame);
        w.step(ctx, d);
        frame += 1;
        let Some(b) = w.snap(v) else { break };
        ctx.checked();
        if frame % 16 == 0 {
            ctx.log(|| w.describe());
            ctx.state(w.hash());
        }
        // The last bit, and what comes after the sign, does not count.
        if matches!(what, Ahead::StopSign | Ahead::GiveWay) && b.link == last {
            break;
        }
        braking.see(&a, &b, d);
        if near.is_none() && chain_pos(&w, &b) >= at - 150.0 {
            near = Some(w.time);
        }
        if near.is_some() && stood.is_none() && b.vel < 0.3 {
            stood = Some(w.time);
        }
    }
    let worst = braking.worst;
    let tag = match what {
        Ahead::Standing => "standing vehicle",
        Ahead::Closed => "closed link",
        Ahead::StopSign => "stop sign",
        Ahead::GiveWay => "give-way sign",
        Ahead::DeadEnd => "dead end",
    };
    ctx.cover(tag);
    ctx.max("braking over the comfortable deceleration", worst / k.comf_dec);
    ensure!(worst <= MOST * k.comf_dec, "the vehicle brakes at {:.2} m/s2 for a {} that it could see from afar", worst, tag);
    if what != Ahead::GiveWay {
        let (Some(near), Some(stood)) = (near, stood) else { fail!("the vehicle does not stop at the {}: {}", tag, w.describe()) };
        let late = stood - near - (150.0 / lim + 0.5 * lim / k.comf_dec);
        ctx.max("time lost by early braking (s)", late);
        ensure!(late <= 6.0, "the vehicle needs {:.1} s longer than necessary to come up to the {}", late, tag);
    }
    ctx.observe(w.hash());
    Ok(())
}

/// The braking of a vehicle, without single steps and the very end of a stop.
#[derive(Default)]
struct Braking {
    prev: Option<f64>,
    worst: f64,
}

impl Braking {
    fn see(&mut self, a: &Snap, b: &Snap, d: f64) {
        let dec = (a.vel - b.vel) / d;
        if b.vel > 0.3 {
            self.worst = self.worst.max(dec.min(self.prev.unwrap_or(dec)));
        }
        self.prev = Some(dec);
    }
}

/// A row of vehicles, each at its natural distance, comes up to a place where the first has to stop.
fn row(ctx: &mut Ctx, n: usize) -> Res {
    let lim = ctx.pick(&[6.0, 10.0, 15.0]);
    let dt = ctx.pick(&DTS);
    let kinds: Vec<_> = (0..n).map(|_| ctx.pick(&[CAR, TRUCK, SPORTY])).collect();
    let every = ctx.pick(&[4.0, 6.0, 9.0]);
    let lens: &[f64] = ctx.pick(&[&[1000.0, 200.0], &[500.0, 30.0, 15.0, 455.0, 200.0]]);
    let last = lens.len() - 1;
    let sign = ctx.pick(&[CLOSED, give_way(8.0, true, 0)]);
    let mut net = chain(lens, &[lim]);
    net.controls.push((last, sign));
    let mut w = net.build();
    let mut b: Vec<Braking> = vec![];
    for f in 0..dt.frames(150.0) {
        if b.len() < n && f >= dt.frames(every) * b.len() && super::junction::start_free(&w, 0, kinds[b.len()].length) {
            w.add(&kinds[b.len()], 0, Some(last));
            b.push(Braking::default());
        }
        let before = w.snaps();
        w.step(ctx, dt.at(f));
        if f % 2 == 0 {
            ctx.log(|| w.describe());
        }
        if f % 32 == 0 {
            ctx.state(w.hash());
        }
        for (v, a) in before.iter().enumerate() {
            let (Some(a), Some(s)) = (a, w.snap(v)) else { continue };
            ctx.checked();
            // Vehicles that have just been added may be too close to the one ahead at first.
            if chain_pos(&w, &s) > 150.0 {
                b[v].see(a, &s, dt.at(f));
            }
        }
    }
    for (v, x) in b.iter().enumerate() {
        ctx.max("braking over the comfortable deceleration", x.worst / kinds[v].comf_dec);
        ensure!(x.worst <= MOST * kinds[v].comf_dec, "v{} brakes at {:.2} m/s2 for {} that it could see from afar", v, x.worst, if v == 0 { "a line" } else { "the one ahead" });
    }
    ctx.observe(w.hash());
    Ok(())
}

/// A lower limit lies ahead.
fn slower(ctx: &mut Ctx, grid: usize) -> Res {
    let hi = ctx.pick(&[10.0, 15.0, 22.0, 30.0]);
    let lo = hi * ctx.pick(&[0.3, 0.5, 0.7, 0.9]);
    let dt = ctx.pick(&DTS);
    let k = kind(ctx);
    let at = 400.0 + 3.7 * ctx.choose(grid) as f64;
    let net = match ctx.choose(3) {
        0 => chain(&[at, 300.0], &[hi, lo]),
        1 => chain(&[at - 40.0, 25.0, 15.0, 300.0], &[hi, hi, hi, lo]),
        _ => chain(&[at, 60.0, 300.0], &[hi, 0.5 * (hi + lo), lo]),
    };
    let mut w = net.build();
    w.add(&k, 0, Some(net.links.len() - 1));
    let mut b = Braking::default();
    for f in 0..dt.frames(120.0) {
        let Some(a) = w.snap(0) else { break };
        w.step(ctx, dt.at(f));
        let Some(s) = w.snap(0) else { break };
        ctx.checked();
        if f % 32 == 0 {
            ctx.log(|| w.describe());
            ctx.state(w.hash());
        }
        b.see(&a, &s, dt.at(f));
        // It does not wait until it has to brake hard.
        if hi <= 15.0 {
            let mut left = w.len(s.link) - s.pos;
            for l in s.link + 1..net.links.len() {
                let need = (s.vel * s.vel - net.links[l].1 * net.links[l].1) / (2.0 * left);
                if left > 12.0 && left < 100.0 {
                    ctx.max("braking still needed 12 m before, over the comfortable deceleration", need / k.comf_dec);
                    ensure!(need <= 1.4 * k.comf_dec, "{:.1} m before a limit of {:.1} m/s the vehicle drives at {:.2} m/s, from where it has to brake at {:.2} m/s2", left, net.links[l].1, s.vel, need);
                }
                left += w.len(l);
            }
        }
    }
    ctx.max("braking over the comfortable deceleration", b.worst / k.comf_dec);
    ensure!(b.worst <= MOST * k.comf_dec, "the vehicle brakes at {:.2} m/s2 for a lower limit", b.worst);
    ctx.observe(w.hash());
    Ok(())
}

pub fn suites(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "stops",
            "a vehicle comes up to a standing vehicle, a closed link, a sign or a dead end at each of 40/400 distances; 3 limits x 3 roads x 3 kinds (9 mixes with the standing vehicle) x 4 step patterns",
            move |c| stop(c, if t { 400 } else { 40 }),
        )
        .reaching(&["standing vehicle", "closed link", "stop sign", "give-way sign", "dead end"]),
        Suite::new(
            "rows",
            "rows of 3/4 vehicles of every mix of 3 kinds come up to a closed link or stop sign, starting 4, 6 or 9 s apart; 3 limits x 2 roads x 4 step patterns",
            move |c| row(c, if t { 4 } else { 3 }),
        ),
        Suite::new(
            "lower-limits",
            "a vehicle comes to a limit of 30 to 90 % of the present one of 10 to 30 m/s, at once or in two steps, at each of 40/400 distances; 3 roads x 3 kinds x 4 step patterns",
            move |c| slower(c, if t { 400 } else { 40 }),
        ),
    ]
}
