//! C14 and C15: lane changes.

use crate::engine::*;
use crate::props::junction::check_bodies;
use crate::scen::*;
use crate::world::*;
use crate::{ensure, fail};
use traffic_sim::cgmath::prelude::*;
use traffic_sim::math::Vector2d;
use traffic_sim::VehicleAttributes;

/// A road of `k` lanes, 3.5 m apart, that consists of two sections. Lane i is link i, then k + i.
/// No lane changes are made without being asked for.
pub fn road(shape: usize, k: usize, lim: f64, mask: u32) -> Net {
    let mut n = Net::new();
    // Arcs around (0, c) drawn as a cubic, starting at the origin along the x axis.
    let arc = |n: &mut Net, c: f64, y: f64, ang: f64| {
        let r = (c - y).abs();
        let s = c.signum();
        let h = 4.0 / 3.0 * f64::tan(ang / 4.0) * r;
        let end = (r * ang.sin(), c - s * r * ang.cos());
        let dir = (ang.cos(), s * ang.sin());
        n.cubic([0.0, c - s * r, h, c - s * r, end.0 - h * dir.0, end.1 - h * dir.1, end.0, end.1], lim);
        (end, dir)
    };
    let mut ends = vec![];
    for i in 0..k {
        let y = -3.5 * i as f64;
        match shape {
            0 => {
                n.line(0.0, y, 120.0, y, lim);
                ends.push(((120.0, y), (1.0, 0.0)));
            }
            1 => ends.push(arc(&mut n, 60.0, y, 1.6)),
            2 => ends.push(arc(&mut n, -75.0, y, 1.4)),
            _ => unreachable!(),
        }
    }
    for i in 0..k {
        let ((x, y), (dx, dy)) = ends[i];
        n.line(x, y, x + 160.0 * dx, y + 160.0 * dy, lim);
        n.conn(i, k + i);
    }
    n.groups.push(((0..k).collect(), mask));
    n.groups.push(((k..2 * k).collect(), mask));
    n
}

/// The lateral offset of a vehicle from the centre line of its link, positive to the left.
pub fn offset(w: &World, s: &Snap) -> f64 {
    let c = w.sim.get_link(w.l[s.link]).curve().sample_centre(s.pos);
    (s.p - c.pos).dot(Vector2d::new(-c.tan.y, c.tan.x))
}

/// An ongoing lane change as seen from outside.
struct Change {
    off0: f64,
    dist: f64,
    /// Distance driven on the new lane since the beginning.
    gone: f64,
    last: f64,
    /// Whether it began on a centre line.
    clean: bool,
    mid_seen: bool,
}

fn manoeuvre(ctx: &mut Ctx, extra: usize) -> Res {
    let shape = ctx.choose(3);
    let lim = ctx.pick(&[5.0, 14.0, 24.0]);
    let attr = kind(ctx);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let k = 3;
    let net = road(shape, k, lim, 0);
    let src = ctx.choose(k);
    let mut w = net.build();
    w.add(&attr, src, Some(k + src));
    let start = ctx.pick(&[8.0, 20.0, 33.0, 60.0, 85.0, 110.0]);
    let mut frame = 0;
    while w.snap(0).unwrap().link == src && w.snap(0).unwrap().pos < start {
        w.step(ctx, dt.at(frame));
        frame += 1;
    }
    let mut cur: Option<Change> = None;
    // The direction of travel in the last step, how sharply it may bend (per m), and by how much it
    // may turn at once where a change begins.
    let road_bend = [0.0, 1.0 / 50.0, 1.0 / 65.0][shape];
    let mut way: Option<(Vector2d, f64, f64)> = None;
    let mut bend = road_bend;
    // The way in the world per distance driven where the change is steepest.
    let mut steep: f64 = 1.0;
    let mut seam_turn = 0.0;
    let mut budget = 1 + extra;
    let mut wait = 0.0;
    let mut done = 0;
    let mut settled = 0.0;
    while let Some(a) = w.snap(0) {
        // Begin a change now: the first one at once, further ones after some distance.
        if budget > 0 && wait <= 0.0 {
            let lane = a.link % k;
            let sect = a.link / k;
            let left = w.len(a.link) - a.pos;
            // Not across the joint between the sections itself.
            if a.pos > 1.0 && left > 1.0 {
                let mut opts = vec![];
                if lane > 0 {
                    opts.push(lane - 1);
                }
                if lane + 1 < k {
                    opts.push(lane + 1);
                }
                let c = if budget == 1 + extra { 1 + ctx.choose(opts.len()) } else { ctx.choose(1 + opts.len()) };
                budget -= 1;
                if c > 0 {
                    let to = sect * k + opts[c - 1];
                    let dist = ctx.pick(&[12.0, 30.0, 55.0]);
                    // The change has to fit on the road.
                    let room = if sect == 0 { left + 155.0 } else { left - 5.0 };
                    if dist > room {
                        return ctx.prune();
                    }
                    // Just after a change the heading has not settled yet.
                    let clean = cur.is_none() && (done == 0 || settled > 25.0);
                    w.sim.do_lane_change(w.v[0], w.l[to], dist);
                    w.dest(0, k + opts[c - 1]);
                    let b = w.snap(0).unwrap();
                    ctx.log(|| format!("change to link {} over {} m | {}", to, dist, w.describe()));
                    ensure!(b.link == to, "after the lane change the vehicle is on link {} instead of {}", b.link, to);
                    let jump = (b.p - a.p).magnitude();
                    ensure!(jump < 1e-6, "the vehicle jumps by {:.3} m at the beginning of a lane change", jump);
                    ensure!(b.vel == a.vel, "the speed changes at the beginning of a lane change");
                    let off = offset(&w, &b);
                    let want = 3.5 * if opts[c - 1] > lane { 1.0 } else { -1.0 };
                    if cur.is_none() {
                        ensure!((off - want).abs() < 0.05, "the change begins {:.3} m beside the new lane instead of {}", off, want);
                    }
                    // The body trails behind the direction of travel, so a change that begins in a
                    // bend or during another change begins a little askew.
                    let lane_dir = w.sim.get_link(w.l[to]).curve().sample_centre(b.pos).tan;
                    let slope = lane_dir.angle(b.d).0.tan().abs();
                    seam_turn = 0.01 + way.map_or(0.0, |(u, _, _)| u.angle(b.d).0.abs());
                    bend = road_bend + 6.0 * off.abs() / (dist * dist) + 4.0 * slope / dist;
                    steep = (1.0 + (1.5 * off.abs() / dist + slope).powi(2)).sqrt();
                    cur = Some(Change { off0: off, dist, gone: 0.0, last: off, clean, mid_seen: false });
                    if budget > 0 {
                        wait = ctx.pick(&[0.4 * dist, 1.2 * dist, dist + 27.0]);
                    }
                    ctx.cover("lane change begins");
                } else {
                    wait = 10.0;
                }
            }
        }
        let a = w.snap(0).unwrap();
        let d = dt.at(frame);
        w.step(ctx, d);
        frame += 1;
        ctx.log(|| w.describe());
        let Some(b) = w.snap(0) else { break };
        ctx.checked();
        if frame % 8 == 0 {
            ctx.state(w.hash());
        }
        let ds = 0.5 * (a.vel + b.vel) * d;
        wait -= ds;
        settled += ds;
        let moved = (b.p - a.p).magnitude();
        ctx.max("excess of the way over the distance driven (m)", moved - 1.15 * ds);
        ctx.max("deficit of the way (m)", 0.85 * ds - moved);
        ensure!(
            moved <= f64::max(1.3, 1.15 * steep) * ds + 0.05 && moved >= 0.8 * ds - 0.05,
            "the vehicle moves {:.3} m in the world while driving {:.3} m", moved, ds
        );
        let turn = a.d.angle(b.d).0.abs();
        ctx.max("turn per m driven (rad/m)", (turn - 0.01) / ds.max(0.3));
        ensure!((b.d.magnitude() - 1.0).abs() < 1e-9, "the heading is not a unit vector");
        ensure!(turn <= 0.35 * ds.max(0.3), "the heading turns by {:.3} rad in a step of {:.3} m", turn, ds);
        // The direction of travel bends, without a kink.
        if ds > 0.02 {
            let dir = (b.p - a.p).normalize();
            if let Some((u, last, was)) = way {
                let turn = u.angle(dir).0.abs();
                let may = 0.03 + seam_turn + 1.25 * bend.max(was) * 0.5 * (ds + last);
                ctx.max("turn of the direction of travel, of the permitted one", turn / may);
                ensure!(turn <= may, "the direction of travel turns by {:.3} rad at once", turn);
            }
            way = Some((dir, ds, bend));
            seam_turn = 0.0;
        }
        // Lateral position.
        let off = offset(&w, &b);
        match cur.as_mut() {
            None => ensure!(off.abs() < 1e-6, "the vehicle is {:.4} m beside its lane without changing lanes", off),
            Some(c) => {
                c.gone += ds;
                // In a bend, and after a change, the heading lags behind and the change begins askew.
                let exact = shape == 0 && done == 0;
                let seam = if exact { 0.01 } else { 0.5 };
                ctx.max("lateral jump of a step (m)", (off - c.last).abs() - 0.6 * ds);
                if c.clean {
                    let (lo, hi) = (f64::min(c.off0, 0.0), f64::max(c.off0, 0.0));
                    ensure!(off >= lo - seam && off <= hi + seam, "the vehicle is {:.3} m beside the new lane, not between the lanes", off);
                    ensure!(off.abs() <= c.last.abs() + seam, "the vehicle moves back, from {:.3} to {:.3} m beside the new lane", c.last, off);
                    if c.gone > 0.5 * c.dist && !c.mid_seen {
                        c.mid_seen = true;
                        let f = off / c.off0;
                        let step = ds / c.dist;
                        ctx.max("fraction left at half way", f);
                        ctx.max("fraction done at half way", 1.0 - f - 1.6 * step);
                        ensure!(if exact { f < 0.505 && f > 0.495 - 1.6 * step } else { f < 0.75 && f > 0.3 - 1.6 * step }, "half way through the lane change {:.0} % are left", 100.0 * f);
                    }
                }
                c.last = off;
                // The curve of a link is sampled, so its length is known to a few centimetres.
                if c.gone > c.dist + 0.15 {
                    ensure!(off.abs() < 1e-6, "the vehicle is {:.4} m beside its lane after the lane change", off);
                    ctx.cover("lane change ends");
                    if a.link >= k {
                        ctx.cover("ends on the second section");
                    }
                    cur = None;
                    bend = road_bend;
                    settled = 0.0;
                    done += 1;
                } else if c.clean && c.gone < 0.9 * c.dist {
                    ensure!(off.abs() > 0.0, "the lane change is over after {:.1} m of {:.1} m", c.gone, c.dist);
                }
            }
        }
        if frame > 4000 {
            fail!("the vehicle does not get on: {}", w.describe());
        }
    }
    ctx.observe(done as u64 ^ frame as u64);
    Ok(())
}

/// One lane change, over a short or long distance, during which the vehicle halts.
fn halting(ctx: &mut Ctx, slots: usize) -> Res {
    let shape = ctx.choose(3);
    let attr = if shape == 0 { kind(ctx) } else { CAR };
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let net = road(shape, 2, ctx.pick(&[4.0, 12.0]), 0);
    let src = ctx.choose(2);
    let dist = ctx.pick(&[5.0, 9.0, 20.0, 40.0]);
    let start = ctx.pick(&[0.0, 6.0, 30.0, if shape == 0 { 100.0 } else { 80.0 }]);
    let halt = ctx.choose(slots + 1);
    let long = ctx.pick(&[1.0, 6.0]);
    let mut w = net.build();
    w.add(&attr, src, Some(2 + src));
    let mut frame = 0;
    while w.snap(0).unwrap().pos < start {
        w.step(ctx, dt.at(frame));
        frame += 1;
    }
    let a = w.snap(0).unwrap();
    w.sim.do_lane_change(w.v[0], w.l[1 - src], dist);
    w.dest(0, 3 - src);
    let b = w.snap(0).unwrap();
    ensure!((b.p - a.p).magnitude() < 1e-6, "the vehicle jumps by {:.3} m at the beginning of a lane change", (b.p - a.p).magnitude());
    let off0 = offset(&w, &b);
    let mut last = off0;
    let mut gone = 0.0;
    let begin = w.time;
    let steep = (1.0 + (1.6 * off0 / dist).powi(2)).sqrt();
    let (at, until) = (0.5 * halt as f64, 0.5 * halt as f64 + long);
    for _ in 0..dt.frames(60.0) {
        let a = w.snap(0).unwrap();
        let t = w.time - begin;
        w.freeze(0, halt < slots && t >= at && t < until);
        let d = dt.at(frame);
        w.step(ctx, d);
        frame += 1;
        let Some(b) = w.snap(0) else { break };
        ctx.checked();
        ctx.log(|| w.describe());
        let ds = 0.5 * (a.vel + b.vel) * d;
        gone += ds;
        let moved = (b.p - a.p).magnitude();
        ctx.max("way in the world per distance driven, of the permitted", moved / (1.15 * steep * ds + 0.05));
        ensure!(moved <= 1.15 * steep * ds + 0.05, "the vehicle moves {:.3} m in the world while driving {:.3} m", moved, ds);
        let turn = a.d.angle(b.d).0.abs();
        ensure!(b.vel > 0.0 || a.vel > 0.0 || turn < 1e-6, "the heading of the standing vehicle turns by {:.4} rad", turn);
        if b.vel == 0.0 && a.vel == 0.0 && off0 * last != 0.0 {
            ctx.cover("stands between the lanes");
        }
        let off = offset(&w, &b);
        if gone > dist + 0.15 {
            ensure!(off.abs() < 1e-6, "the vehicle is {:.4} m beside its lane after the lane change", off);
            ctx.cover("lane change ends");
            if gone > dist + 20.0 {
                break;
            }
        } else {
            // The part of the way that is left, which is the same whatever the vehicle does.
            if shape == 0 {
                let u = gone / dist;
                let want = off0 * (1.0 - u * u * (3.0 - 2.0 * u)).max(0.0);
                ctx.max("deviation from the smooth way (m)", (off - want).abs());
                ensure!((off - want).abs() < 0.1 * off0.abs() || u > 0.98, "the vehicle is {:.3} m beside its new lane instead of {:.3} m after {:.2} m of {} m", off, want, gone, dist);
            }
            ensure!(gone > 0.9 * dist || off != 0.0, "the lane change is over after {:.1} m of {:.1} m", gone, dist);
            ensure!((off - last).abs() <= 0.05 + (steep - 1.0 + 0.6) * ds * 1.6, "the vehicle jumps sideways from {:.3} to {:.3} m", last, off);
        }
        last = off;
        if frame % 8 == 0 {
            ctx.state(w.hash());
        }
    }
    ctx.observe(w.hash());
    Ok(())
}

/// Lane changes that vehicles make by themselves, at the start, on the way or after a halt.
fn own_changes(ctx: &mut Ctx, slots: usize) -> Res {
    let shape = ctx.choose(3);
    let k = ctx.pick(&[2, 3]);
    let lim = ctx.pick(&[5.0, 14.0]);
    let net = road(shape, k, lim, all_changes(k));
    let attr = kind(ctx);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let src = ctx.choose(k);
    let dst = ctx.choose(k);
    if src == dst {
        return ctx.prune();
    }
    // Where the vehicle is halted for a while, and when the destination is told.
    let halt = (240.0 / slots as f64) * ctx.choose(slots + 1) as f64;
    let told = ctx.choose(2);
    let mut w = net.build();
    w.add(&attr, src, Some(k + src));
    let mut changes = 0;
    let mut since = None;
    let mut known = false;
    let mut last = (src, 0.0);
    for f in 0..dt.frames(120.0) {
        let d = dt.at(f);
        let Some(a) = w.snap(0) else { break };
        let way = a.pos + if a.link >= k { w.sim.get_link(w.l[a.link - k]).length() } else { 0.0 };
        if way >= halt && since.is_none() {
            since = Some(w.time);
        }
        let t = since.map_or(-1.0, |t0| w.time - t0);
        if told == 0 && f == 0 || told == 1 && !known && t >= 4.0 {
            w.dest(0, k + dst);
            known = true;
        }
        w.freeze(0, t >= 0.0 && t < 5.0);
        w.step(ctx, d);
        let Some(b) = w.snap(0) else { break };
        ctx.checked();
        ctx.log(|| w.describe());
        let ds = 0.5 * (a.vel + b.vel) * d;
        let moved = (b.p - a.p).magnitude();
        ctx.max("way beyond the distance driven (m)", moved - 1.15 * ds);
        ensure!(moved <= 1.3 * ds + 0.05, "the vehicle moves {:.3} m in the world while driving {:.3} m", moved, ds);
        let turn = a.d.angle(b.d).0.abs();
        ensure!(turn <= 0.35 * ds.max(0.3), "the heading turns by {:.3} rad in a step of {:.3} m", turn, ds);
        let off = offset(&w, &b);
        let lane = b.link % k;
        if lane != last.0 {
            changes += 1;
            ctx.cover("changes lanes by itself");
            if a.vel < 1.5 {
                ctx.cover("changes lanes when slow");
            }
        }
        ensure!(off.abs() < 3.5 + 0.5, "the vehicle is {:.3} m beside its lane", off);
        last = (lane, off);
        if f % 16 == 0 {
            ctx.state(w.hash());
        }
    }
    let _ = changes;
    ctx.observe(w.hash() ^ changes);
    Ok(())
}

/// One lane change that goes on over some short links, several of which are passed in a step.
fn over_pieces(ctx: &mut Ctx) -> Res {
    let piece = ctx.pick(&[0.5, 1.0, 1.5, 2.5]);
    let count = ctx.pick(&[2, 3, 5]);
    let lim = ctx.pick(&[5.0, 12.0, 25.0]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let src = ctx.choose(2);
    let dist = ctx.pick(&[15.0, 25.0, 40.0]);
    let start = ctx.pick(&[30.0, 46.0, 52.0, 58.5]);
    let attr = kind(ctx);
    let first = 60.0;
    let mut net = Net::new();
    let mut xs = vec![0.0, first];
    for i in 0..count {
        xs.push(first + piece * (i + 1) as f64);
    }
    xs.push(first + piece * count as f64 + 150.0);
    for (i, x) in xs.windows(2).enumerate() {
        for y in [0.0, -3.5] {
            net.line(x[0], y, x[1], y, lim);
        }
        if i > 0 {
            net.conn(2 * i - 2, 2 * i);
            net.conn(2 * i - 1, 2 * i + 1);
        }
    }
    let last = 2 * (xs.len() - 2);
    net.groups.push((vec![0, 1], 0));
    let mut w = net.build();
    w.add(&attr, src, Some(last + src));
    let mut frame = 0;
    while w.snap(0).unwrap().pos < start {
        w.step(ctx, dt.at(frame));
        frame += 1;
        if w.snap(0).unwrap().link > 1 {
            return ctx.prune();
        }
        ctx.log(|| w.describe());
        ensure!(frame < 2000, "the vehicle does not get on: {}", w.describe());
    }
    let a = w.snap(0).unwrap();
    w.sim.do_lane_change(w.v[0], w.l[1 - src], dist);
    w.dest(0, last + 1 - src);
    let b = w.snap(0).unwrap();
    ensure!((b.p - a.p).magnitude() < 1e-6, "the vehicle jumps by {:.3} m at the beginning of a lane change", (b.p - a.p).magnitude());
    let off0 = offset(&w, &b);
    let x0 = b.p.x;
    for _ in 0..dt.frames(60.0) {
        let a = w.snap(0).unwrap();
        let d = dt.at(frame);
        w.step(ctx, d);
        frame += 1;
        let Some(b) = w.snap(0) else { break };
        ctx.checked();
        ctx.log(|| w.describe());
        if b.link > a.link + 2 {
            ctx.cover("several links in a step");
        }
        let ds = 0.5 * (a.vel + b.vel) * d;
        ensure!((b.p.x - a.p.x - ds).abs() < 0.02, "the vehicle gets on by {:.3} m while driving {:.3} m", b.p.x - a.p.x, ds);
        let u = ((b.p.x - x0) / dist).min(1.0);
        let want = off0 * (1.0 - u * u * (3.0 - 2.0 * u));
        let off = offset(&w, &b);
        ctx.max("deviation from the smooth way (m)", (off - want).abs());
        ensure!((off - want).abs() < 0.05, "the vehicle is {:.3} m beside its new lane instead of {:.3} m after {:.2} m of {} m", off, want, b.p.x - x0, dist);
        if u == 1.0 {
            ctx.cover("lane change ends");
        }
        if b.p.x > x0 + dist + 60.0 {
            break;
        }
        if frame % 8 == 0 {
            ctx.state(w.hash());
        }
    }
    ctx.observe(w.hash());
    Ok(())
}

pub fn geometry(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "over-pieces",
            "one lane change over 15, 25 or 40 m that goes on over 2, 3 or 5 links of 0.5 to 2.5 m; 3 limits x 3 kinds x 3 step patterns x 2 lanes x 4 starting points",
            over_pieces,
        )
        .reaching(&["several links in a step", "lane change ends"]),
        Suite::new(
            "halting",
            "one lane change over 5, 9, 20 or 40 m during which the vehicle is halted for 1 or 6 s at any of 12 (quick) / 24 (thorough) instants or not at all; 3 road shapes x 2 limits x 2 lanes x 4 starting points x 3 step patterns, 3 kinds on the straight road",
            move |c| halting(c, if t { 24 } else { 12 }),
        )
        .reaching(&["lane change ends", "stands between the lanes"]),
        Suite::new(
            "own-changes",
            "changes that a vehicle makes by itself in 2 or 3 lanes, halted for 5 s at any of 49 (quick) / 97 (thorough) places and told its destination at the beginning or while it stands; 3 road shapes x 2 limits x 3 kinds x 3 step patterns x every pair of lanes",
            move |c| own_changes(c, if t { 96 } else { 48 }),
        )
        .reaching(&["changes lanes by itself", "changes lanes when slow"]),
        Suite::new(
            "single",
            "one lane change: 3 road shapes of two sections x 3 limits x 3 kinds x 3 step patterns x every lane pair x 6 starting points x 3 distances",
            |c| manoeuvre(c, 0),
        )
        .reaching(&["lane change ends", "ends on the second section"]),
        Suite::new(
            "sequences",
            "up to two (quick) / three (thorough) lane changes in a row, the next beginning during or after the previous one",
            move |c| manoeuvre(c, if t { 2 } else { 1 }),
        )
        .reaching(&["lane change ends", "ends on the second section"]),
    ]
}

/// Vehicles in adjacent lanes: each drives as if it were alone.
fn passing(ctx: &mut Ctx, slots: usize) -> Res {
    let shape = ctx.choose(3);
    let k = 3;
    let net = road(shape, k, 14.0, 0);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let kinds: [VehicleAttributes; 3] = [CAR, TRUCK, SPORTY];
    let perm = ctx.pick(&[[0, 1, 2], [1, 2, 0], [2, 0, 1]]);
    let mut w = net.build();
    let mut alone: Vec<World> = (0..k).map(|_| net.build()).collect();
    let mut arrive = [0; 3];
    for (i, a) in arrive.iter_mut().enumerate() {
        *a = if i == 0 { 0 } else { ctx.choose(slots) };
    }
    // One of them halts for a while.
    let halt = ctx.choose(4);
    let when = ctx.choose(slots);
    let mut who = vec![];
    let mut frame = 0;
    for slot in 0..slots + 8 {
        for i in 0..k {
            if arrive[i] == slot {
                w.add(&kinds[perm[i]], i, Some(k + i));
                alone[i].add(&kinds[perm[i]], i, Some(k + i));
                who.push(i);
            }
            if halt == i + 1 && slot == arrive[i] + when + 1 || halt == i + 1 && slot == arrive[i] + when + 3 {
                let on = slot == arrive[i] + when + 1;
                if let Some(v) = who.iter().position(|x| *x == i) {
                    w.freeze(v, on);
                    alone[i].freeze(0, on);
                }
            }
        }
        for _ in 0..dt.frames(2.0) {
            w.step(ctx, dt.at(frame));
            for a in alone.iter_mut() {
                a.step(ctx, dt.at(frame));
            }
            frame += 1;
            for (v, i) in who.iter().enumerate() {
                ctx.checked();
                match (w.snap(v), alone[*i].snap(0)) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        let d = (a.p - b.p).magnitude() + (a.vel - b.vel).abs();
                        ensure!(d < 1e-6, "v{} in lane {} is slowed down by traffic in the next lane: {:.3} instead of {:.3} m/s, {:.3} instead of {:.3} m", v, i, a.vel, b.vel, a.pos, b.pos);
                        for (u, j) in who.iter().enumerate() {
                            if let (true, Some(o)) = (u != v, w.snap(u)) {
                                if (o.p - a.p).magnitude() < 5.0 && i != j {
                                    ctx.cover("side by side");
                                }
                            }
                        }
                    }
                    (a, b) => fail!("v{} has left in one run only: {:?} {:?}", v, a.is_some(), b.is_some()),
                }
            }
        }
        ctx.state(w.hash());
    }
    ctx.observe(w.hash());
    Ok(())
}

/// Whether the target lane has room: standing vehicles and those ahead at braking distance, those
/// behind likewise. A vehicle between two lanes counts in the one it leaves (`left`) as well, and
/// is passed only after the lane change.
fn has_gap(w: &World, v: usize, to: usize, k: usize, left: &[Option<usize>]) -> bool {
    let s = w.snap(v).unwrap();
    let brake = |va: f64, vb: f64, dec: f64, head: f64| 4.0 + va * head + ((va * va - vb * vb) / (2.0 * dec)).max(0.0);
    (0..w.v.len()).filter(|o| *o != v).filter_map(|o| w.snap(o).map(|s| (o, s))).all(|(o, b)| {
        if b.link % k != to % k && left.get(o).copied().flatten() != Some(to % k) {
            return true;
        }
        // The lanes of a section are about as long as each other.
        let shift = match (b.link / k, to / k) {
            (x, y) if x > y => w.len(s.link),
            (x, y) if x < y => -w.len(b.link),
            _ => 0.0,
        };
        if b.pos + shift > s.pos {
            let way = if left.get(o).copied().flatten().is_some() { 30.0 } else { 0.0 };
            b.rear() + shift - s.front() - way > brake(s.vel, b.vel, w.attr[v].comf_dec, w.attr[v].headway)
        } else {
            s.rear() - b.front() - shift > brake(b.vel, s.vel, w.attr[o].comf_dec, w.attr[o].headway)
        }
    })
}

/// Traffic in two or three lanes; any vehicle may change lanes where there is room, or halt.
fn weaving(ctx: &mut Ctx, slots: usize, budget: usize) -> Res {
    let shape = ctx.choose(3);
    let k = ctx.pick(&[2, 3]);
    let lim = ctx.pick(&[8.0, 15.0]);
    let net = road(shape, k, lim, 0);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    // A 12 m truck sweeps more than its lane while it changes lanes in a bend.
    let kinds: &[VehicleAttributes] = match (ctx.choose(2), shape) {
        (0, _) => &[CAR],
        (_, 0) => &[TRUCK, SPORTY],
        _ => &[SPORTY, CAR],
    };
    let mut w = net.build();
    let mut frozen: Vec<usize> = vec![];
    let mut frame = 0;
    let mut until = vec![];
    let mut left: Vec<Option<usize>> = vec![];
    let mut moved = vec![];
    ctx.set_budget(budget);
    for slot in 0..slots {
        // Arrivals come in turn: lanes 0, 1, 0, 1 and so on.
        if slot % 2 == 0 && w.v.len() < 4 {
            let lane = (slot / 2) % k;
            let a = kinds[w.v.len() % kinds.len()];
            if crate::props::junction::start_free(&w, lane, a.length) {
                w.add(&a, lane, Some(k + lane));
                until.push(0.0);
                left.push(None);
                moved.push(0.0);
            }
        }
        let mut ops: Vec<(usize, Option<(usize, f64)>)> = vec![];
        for v in 0..w.v.len() {
            let Some(s) = w.snap(v) else { continue };
            ops.push((v, None));
            let room = w.len(s.link) - s.pos;
            if w.time < until[v] || left[v].is_some() || room < 8.0 || s.pos < 8.0 {
                continue;
            }
            let lane = s.link % k;
            let sect = s.link / k;
            for to in [lane.wrapping_sub(1), lane + 1] {
                if to < k && (sect == 0 || room > 70.0) && has_gap(&w, v, sect * k + to, k, &left) {
                    ops.push((v, Some((sect * k + to, 30.0))));
                }
            }
        }
        let c = ctx.dev(1 + ops.len());
        if c > 0 {
            match ops[c - 1] {
                (v, None) => {
                    if let Some(i) = frozen.iter().position(|x| *x == v) {
                        frozen.remove(i);
                        w.freeze(v, false);
                    } else {
                        frozen.push(v);
                        w.freeze(v, true);
                    }
                    ctx.log(|| format!("halt or release v{} | {}", v, w.describe()));
                }
                (v, Some((to, dist))) => {
                    left[v] = w.snap(v).map(|s| s.link % k);
                    w.sim.do_lane_change(w.v[v], w.l[to], dist);
                    moved[v] = 0.0;
                    w.dest(v, k + to % k);
                    until[v] = w.time + 6.0;
                    ctx.log(|| format!("v{} changes to link {} | {}", v, to, w.describe()));
                    ctx.cover("changes lanes in traffic");
                }
            }
        }
        for _ in 0..dt.frames(1.6) {
            w.step(ctx, dt.at(frame));
            for v in 0..w.v.len() {
                moved[v] += w.snap(v).map_or(0.0, |s| s.vel * dt.at(frame));
                if moved[v] > 38.0 {
                    left[v] = None;
                }
            }
            frame += 1;
            ctx.log(|| w.describe());
            check_bodies(ctx, &w)?;
        }
        ctx.state(w.hash());
    }
    for _ in 0..dt.frames(12.0) {
        w.step(ctx, dt.at(frame));
        frame += 1;
        ctx.log(|| w.describe());
        check_bodies(ctx, &w)?;
    }
    for v in frozen {
        w.freeze(v, false);
    }
    for _ in 0..dt.frames(150.0) {
        if w.sim.iter_vehicles().next().is_none() {
            ctx.cover("cleared");
            ctx.observe(w.hash());
            return Ok(());
        }
        w.step(ctx, dt.at(frame));
        frame += 1;
        check_bodies(ctx, &w)?;
    }
    fail!("the traffic does not clear: {}", w.describe())
}

/// A vehicle changes lanes shortly before the end of a section, towards or away from one that
/// stands on the next section.
fn over_the_end(ctx: &mut Ctx) -> Res {
    let shape = ctx.choose(3);
    let (from, to) = ctx.pick(&[(0, 1), (1, 0)]);
    let stands = ctx.pick(&[from, to]);
    let net = road(shape, 2, ctx.pick(&[8.0, 15.0]), 0);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let kind = match shape {
        0 => ctx.pick(&[CAR, TRUCK]),
        _ => CAR,
    };
    let at = ctx.pick(&[3.0, 6.0, 10.0, 15.0, 20.0, 26.0, 32.0]);
    let dist = ctx.pick(&[20.0, 30.0, 45.0]);
    let room = ctx.pick(&[8.0, 12.0, 16.0, 20.0, 25.0, 30.0, 35.0, 40.0]);
    let mut w = net.build();
    let mut frame = 0;
    let a = w.add(&CAR, 2 + stands, Some(2 + stands));
    let mut run = |w: &mut World, ctx: &mut Ctx, until: &dyn Fn(&World) -> bool| -> Res {
        while !until(w) && w.time < 150.0 {
            w.step(ctx, dt.at(frame));
            frame += 1;
            ctx.log(|| w.describe());
            check_bodies(ctx, w)?;
        }
        Ok(())
    };
    run(&mut w, ctx, &|w| w.snap(0).map_or(true, |s| s.pos > at))?;
    w.freeze(a, true);
    let b = w.add(&kind, from, Some(2 + from));
    run(&mut w, ctx, &|w| w.snap(1).map_or(true, |s| w.len(from) - s.pos < room || s.link != from))?;
    let s = w.snap(b).unwrap();
    let o = w.snap(a).unwrap();
    let gap = o.rear() + w.len(from) - s.front();
    let needed = 4.0 + 1.5 * s.vel + s.vel * s.vel / (2.0 * kind.comf_dec);
    // In the lane it leaves, it is behind the standing vehicle already.
    if s.link != from || stands == to && gap < needed {
        return ctx.prune();
    }
    w.sim.do_lane_change(w.v[b], w.l[to], dist);
    w.dest(b, 2 + to);
    ctx.log(|| format!("v1 changes to link {} over {} m", to, dist));
    ctx.cover(if stands == to { "stands in the lane entered" } else { "stands in the lane left" });
    let end = w.time + 32.0;
    run(&mut w, ctx, &|w| w.time > end)?;
    ensure!(w.alive(b) || stands == from, "v1 is gone although v0 stands in its way");
    // Where the change is not far enough before the standing vehicle, the other one waits for it.
    ensure!(!w.alive(b) || stands == to || gap < dist + 4.0, "v1 waits although v0 is not in its way: {}", w.describe());
    w.freeze(a, false);
    run(&mut w, ctx, &|w| !w.alive(0) && !w.alive(1))?;
    ensure!(!w.alive(a) && !w.alive(b), "the traffic does not clear: {}", w.describe());
    ctx.state(w.hash());
    ctx.observe(frame as u64);
    Ok(())
}

/// A vehicle halts between the second and third lane; another one changes from the first to the
/// second and is not done when it comes beside it.
fn known_straddled(ctx: &mut Ctx) -> Res {
    let net = road(1, 3, 8.0, 0);
    let mut w = net.build();
    let a = w.add(&CAR, 1, Some(4));
    let mut run = |w: &mut World, ctx: &mut Ctx, n: usize| -> Res {
        for _ in 0..n {
            w.step(ctx, 0.1);
            ctx.log(|| w.describe());
            check_bodies(ctx, w)?;
        }
        Ok(())
    };
    run(&mut w, ctx, 48)?;
    w.sim.do_lane_change(w.v[a], w.l[2], 30.0);
    w.dest(a, 5);
    run(&mut w, ctx, 16)?;
    w.freeze(a, true);
    let b = w.add(&CAR, 0, Some(3));
    run(&mut w, ctx, 32)?;
    w.sim.do_lane_change(w.v[b], w.l[1], 30.0);
    w.dest(b, 4);
    run(&mut w, ctx, 200)
}

/// A vehicle halts at some point of a lane change, with another one behind it in the lane that it
/// leaves or in the one that it enters.
fn between(ctx: &mut Ctx, lanes: &[usize], halts: usize) -> Res {
    let shape = ctx.choose(3);
    let k = ctx.pick(lanes);
    let from = ctx.choose(k);
    let to = ctx.pick(&[from.wrapping_sub(1), from + 1]);
    if to >= k {
        return ctx.prune();
    }
    let behind = ctx.pick(&[from, to]);
    let net = road(shape, k, ctx.pick(&[8.0, 15.0]), 0);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let kind = match shape {
        0 => ctx.pick(&[CAR, TRUCK]),
        _ => CAR,
    };
    let dist = ctx.pick(&[30.0, 60.0]);
    let wait = ctx.pick(&[2.5, 4.0, 6.0]);
    let halt = ctx.choose(halts);
    let mut w = net.build();
    let mut frame = 0;
    let a = w.add(&kind, from, Some(k + to));
    let mut run = |w: &mut World, ctx: &mut Ctx, t: f64| -> Res {
        for _ in 0..dt.frames(t) {
            w.step(ctx, dt.at(frame));
            frame += 1;
            ctx.log(|| w.describe());
            check_bodies(ctx, w)?;
        }
        Ok(())
    };
    run(&mut w, ctx, wait)?;
    if !crate::props::junction::start_free(&w, behind, CAR.length) {
        return ctx.prune();
    }
    w.add(&CAR, behind, Some(k + behind));
    run(&mut w, ctx, 2.5)?;
    let s = w.snap(a).unwrap();
    if s.link != from || w.len(s.link) - s.pos < 8.0 || !has_gap(&w, a, to, k, &[]) {
        return ctx.prune();
    }
    w.sim.do_lane_change(w.v[a], w.l[to], dist);
    ctx.log(|| format!("v0 changes to link {} over {} m", to, dist));
    run(&mut w, ctx, 0.4 * halt as f64)?;
    if w.snap(a).is_none() {
        return ctx.prune();
    }
    w.freeze(a, true);
    ctx.log(|| "v0 halts".into());
    run(&mut w, ctx, 14.0)?;
    if let (Some(x), Some(y)) = (w.snap(a), w.snap(1)) {
        let off = offset(&w, &x).abs();
        if off > 0.8 && off < 2.7 {
            ctx.cover("halts between the lanes");
            if y.vel < 0.1 {
                ctx.cover("the one behind waits");
            }
        }
    }
    ctx.state(w.hash());
    w.freeze(a, false);
    for _ in 0..150 {
        if w.sim.iter_vehicles().next().is_none() {
            ctx.cover("cleared");
            ctx.observe(w.hash());
            return Ok(());
        }
        run(&mut w, ctx, 1.0)?;
    }
    fail!("the traffic does not clear: {}", w.describe())
}

/// A vehicle that has changed lanes before it comes to one that stands in the lane it left drives
/// as if that one were not there.
fn around(ctx: &mut Ctx) -> Res {
    let shape = ctx.choose(3);
    let k = ctx.pick(&[2, 3]);
    let from = ctx.choose(k);
    let to = ctx.pick(&[from.wrapping_sub(1), from + 1]);
    if to >= k {
        return ctx.prune();
    }
    let net = road(shape, k, ctx.pick(&[8.0, 15.0]), 0);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let standing = ctx.pick(&[CAR, TRUCK]);
    let moving = match shape {
        0 => kind(ctx),
        _ => CAR,
    };
    let dist = ctx.pick(&[15.0, 30.0, 45.0]);
    let ahead = ctx.pick(&[4.0, 5.0, 6.0, 7.5]);
    let at = 0.5 * ctx.choose(14) as f64;
    let mut w = net.build();
    let mut frame = 0;
    w.add(&standing, from, Some(k + from));
    for _ in 0..dt.frames(ahead) {
        w.step(ctx, dt.at(frame));
        frame += 1;
    }
    w.freeze(0, true);
    for _ in 0..dt.frames(4.0) {
        w.step(ctx, dt.at(frame));
        frame += 1;
    }
    if !crate::props::junction::start_free(&w, from, moving.length) {
        return ctx.prune();
    }
    let v = w.add(&moving, from, Some(k + to));
    let mut twin = net.build();
    twin.add(&standing, from, Some(k + from));
    let mut f2 = 0;
    for _ in 0..dt.frames(ahead) {
        twin.step(ctx, dt.at(f2));
        f2 += 1;
    }
    twin.freeze(0, true);
    for _ in 0..dt.frames(4.0) {
        twin.step(ctx, dt.at(f2));
        f2 += 1;
    }
    twin.add(&moving, from, Some(k + to));
    for _ in 0..dt.frames(1.0 + at) {
        w.step(ctx, dt.at(frame));
        twin.step(ctx, dt.at(frame));
        frame += 1;
    }
    let (a, o) = (w.snap(v).unwrap(), w.snap(0).unwrap());
    // It has to be in its new lane when its front is at the other one's rear, and far enough in time.
    if a.link != from || o.link != from || o.rear() - a.front() < dist + 2.0 {
        return ctx.prune();
    }
    for x in [&mut w, &mut twin] {
        x.sim.do_lane_change(x.v[v], x.l[to], dist);
    }
    twin.sim.remove_vehicle(twin.v[0]);
    ctx.log(|| w.describe());
    for _ in 0..dt.frames(14.0) {
        w.step(ctx, dt.at(frame));
        twin.step(ctx, dt.at(frame));
        frame += 1;
        ctx.log(|| w.describe());
        check_bodies(ctx, &w)?;
        let (Some(a), Some(b)) = (w.snap(v), twin.snap(v)) else { break };
        ctx.checked();
        ctx.max("slower (m/s)", b.vel - a.vel);
        ensure!((a.vel - b.vel).abs() < 0.05, "v{} drives at {:.3} m/s past the standing vehicle and at {:.3} m/s without it", v, a.vel, b.vel);
    }
    ctx.cover("past a standing vehicle");
    ctx.state(w.hash());
    ctx.observe(w.hash());
    Ok(())
}

/// Vehicles in two lanes, of which one changes lanes; those ahead of it do not mind.
fn ahead(ctx: &mut Ctx, n: usize) -> Res {
    let shape = ctx.choose(3);
    let lane: Vec<usize> = (0..n).map(|_| ctx.choose(2)).collect();
    let who = 1 + ctx.choose(n - 1);
    let every = ctx.pick(&[3.0, 4.5]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Alt(0.03, 0.17)]);
    let dist = ctx.pick(&[20.0, 45.0]);
    let mix = ctx.pick(&[[CAR, CAR], [TRUCK, CAR]]);
    let halt = ctx.choose(2) == 1;
    let net = road(shape, 2, 9.0, 0);
    let mut w = net.build();
    let mut twin = net.build();
    let mut frame = 0;
    for i in 0..n {
        if !crate::props::junction::start_free(&w, lane[i], 14.0) {
            return ctx.prune();
        }
        for x in [&mut w, &mut twin] {
            x.add(&mix[i % 2], lane[i], Some(2 + lane[i]));
        }
        for _ in 0..dt.frames(every) {
            w.step(ctx, dt.at(frame));
            twin.step(ctx, dt.at(frame));
            frame += 1;
        }
    }
    let a = w.snap(who).unwrap();
    if a.link > 1 || a.pos + dist + 5.0 > w.len(a.link) {
        return ctx.prune();
    }
    let to = 1 - lane[who];
    w.sim.do_lane_change(w.v[who], w.l[to], dist);
    w.dest(who, 2 + to);
    ctx.log(|| w.describe());
    let begin = w.time;
    for _ in 0..dt.frames(10.0) {
        w.freeze(who, halt && w.time > begin + 1.5);
        w.step(ctx, dt.at(frame));
        twin.step(ctx, dt.at(frame));
        frame += 1;
        ctx.log(|| w.describe());
        for v in 0..who {
            let (Some(a), Some(b)) = (w.snap(v), twin.snap(v)) else { continue };
            ctx.checked();
            ensure!((a.vel - b.vel).abs() < 1e-6, "v{} drives at {:.3} m/s after v{}, behind it, has begun to change lanes, and otherwise at {:.3} m/s", v, a.vel, who, b.vel);
        }
        ctx.cover("changes lanes behind others");
    }
    ctx.state(w.hash());
    ctx.observe(w.hash());
    Ok(())
}

pub fn neighbours(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "ahead",
            "5 (thorough 6) vehicles 3 or 4.5 s apart in every distribution over two lanes, of which any but the first changes lanes, driving on or halting on the way; 3 road shapes x 2 mixes x 2 distances x 2 step patterns; those ahead compared with the run without the change",
            move |c| ahead(c, if t { 6 } else { 5 }),
        )
        .reaching(&["changes lanes behind others"]),
        Suite::new(
            "passing",
            "three vehicles in three lanes, every order of arrival in 5 (quick) / 7 (thorough) slots, with and without a halt of any of them; 3 road shapes x 3 arrangements of kinds x 2 step patterns; each compared with driving alone",
            move |c| passing(c, if t { 7 } else { 5 }),
        )
        .reaching(&["side by side"]),
        Suite::new(
            "weaving",
            "4 vehicles in 2 or 3 lanes, every history of at most 2 (quick) / 3 (thorough) lane changes into a gap, halts and releases at 10 (quick) / 12 (thorough) instants; 3 road shapes x 2 limits x 2 mixes x 2 step patterns",
            move |c| if t { weaving(c, 12, 3) } else { weaving(c, 10, 2) },
        )
        .reaching(&["changes lanes in traffic", "cleared"]),
        Suite::new(
            "over-the-end",
            "a lane change over 20, 30 or 45 m that begins 8 to 40 m before the end of a section (8 distances), into or out of the lane where a vehicle stands at 7 places of the next section; 3 road shapes x 2 limits x 2 kinds x 2 step patterns",
            over_the_end,
        )
        .reaching(&["stands in the lane entered", "stands in the lane left"]),
        Suite::new(
            "straddled",
            "one fixed history: a lane change beside a vehicle that stands between the next two lanes",
            known_straddled,
        )
        .known(),
        Suite::new(
            "between",
            "a vehicle changes between any neighbouring lanes of 2, 3 or 4 over 30 or 60 m and halts at any of 10 (quick) / 16 (thorough) instants, with another one at 3 distances behind it in either lane; 3 road shapes x 2 limits x 2 kinds x 2 step patterns",
            move |c| between(c, &[2, 3, 4], if t { 16 } else { 10 }),
        )
        .reaching(&["halts between the lanes", "the one behind waits", "cleared"]),
        Suite::new(
            "around",
            "a vehicle changes between any neighbouring lanes of 2 or 3 over 15, 30 or 45 m at any of 14 instants and passes one that stands at 4 distances in the lane it left; 3 road shapes x 2 limits x 2-6 pairs of kinds x 3 step patterns; compared with the run in which the standing one is removed as the change begins",
            around,
        )
        .reaching(&["past a standing vehicle"]),
    ]
}
