//! C12, C13, C22: routes, lane permissions and network queries.

use crate::engine::*;
use crate::scen::*;
use crate::world::*;
use crate::{ensure, fail};
use traffic_sim::LinkId;

/// The reference view of a network: connections and permitted lane changes.
struct Graph {
    n: usize,
    conns: Vec<(usize, usize)>,
    /// Permitted single lane changes.
    lc: Vec<(usize, usize)>,
}

impl Graph {
    fn of(net: &Net) -> Graph {
        let mut lc = vec![];
        for (g, mask) in &net.groups {
            for i in 0..g.len() {
                if i > 0 && mask >> (2 * i) & 1 != 0 {
                    lc.push((g[i], g[i - 1]));
                }
                if i + 1 < g.len() && mask >> (2 * i + 1) & 1 != 0 {
                    lc.push((g[i], g[i + 1]));
                }
            }
        }
        Graph { n: net.links.len(), conns: net.conns.clone(), lc }
    }

    fn out(&self, a: usize) -> Vec<usize> {
        self.conns.iter().filter(|c| c.0 == a).map(|c| c.1).collect()
    }

    fn inn(&self, a: usize) -> Vec<usize> {
        self.conns.iter().filter(|c| c.1 == a).map(|c| c.0).collect()
    }

    /// The links that can be reached from `a` by the given edges, itself included.
    fn closure(&self, a: usize, conns: bool, lanes: bool) -> Vec<usize> {
        let mut seen = vec![a];
        let mut i = 0;
        while i < seen.len() {
            let x = seen[i];
            let c = self.conns.iter().filter(|_| conns).chain(self.lc.iter().filter(|_| lanes));
            for (p, q) in c {
                if *p == x && !seen.contains(q) {
                    seen.push(*q);
                }
            }
            i += 1;
        }
        seen
    }

    fn reaches(&self, a: usize, b: usize) -> bool {
        self.closure(a, true, true).contains(&b)
    }

    /// The least cost from `src` to `dst`, paying for each link that is left over its end.
    fn cost(&self, src: usize, dst: usize, cost: &[f64]) -> Option<f64> {
        let mut d = vec![f64::INFINITY; self.n];
        d[src] = 0.0;
        for _ in 0..=self.n * 2 {
            for (a, b) in &self.conns {
                d[*b] = d[*b].min(d[*a] + cost[*a]);
            }
            for (a, b) in &self.lc {
                d[*b] = d[*b].min(d[*a]);
            }
        }
        d[dst].is_finite().then_some(d[dst])
    }
}

/// For each link its reported cost, and the time it takes at its limit, in tenths of a second.
fn costs(net: &Net, w: &World) -> [Vec<f64>; 2] {
    let reported = w.l.iter().map(|l| w.sim.get_link(*l).cost() as f64).collect();
    let time = net.links.iter().enumerate().map(|(i, l)| 10.0 * w.len(i) / l.1).collect();
    [reported, time]
}

/// The route taken costs no more than the best one, by the reported costs and by the times, which
/// the costs may fall short of by one per link.
fn check_route(g: &Graph, cost: &[Vec<f64>; 2], tr: &Track, src: usize, dst: usize) -> Res {
    let (Some(best), Some(quick)) = (g.cost(src, dst, &cost[0]), g.cost(src, dst, &cost[1])) else {
        fail!("the vehicle arrived at link {} which cannot be reached from link {}", dst, src)
    };
    ensure!(tr.paid[0] == best, "the vehicle took a route of cost {} from link {} to link {}; the best one costs {}", tr.paid[0], src, dst, best);
    ensure!(
        tr.paid[1] <= quick + g.n as f64,
        "the vehicle took a route of {:.1} s from link {} to link {}; the quickest takes {:.1} s",
        0.1 * tr.paid[1], src, dst, 0.1 * quick
    );
    Ok(())
}

/// Follows one vehicle and checks each change of link against the graph.
struct Track {
    at: usize,
    paid: [f64; 2],
    turns: usize,
}

impl Track {
    fn new(at: usize) -> Track {
        Track { at, paid: [0.0; 2], turns: 0 }
    }

    /// The cost of getting from `a` to `b` within a step: over a connection or a lane change, and
    /// on from there if that lane ends or that link is too short to be seen on.
    fn hop(g: &Graph, cost: &[f64], w: &World, a: usize, b: usize, depth: usize) -> Option<f64> {
        if a == b {
            return Some(0.0);
        }
        if depth == 4 {
            return None;
        }
        let c = g.conns.iter().filter(|c| c.0 == a).map(|c| (c.1, cost[a], c.1 == b || w.len(c.1) < 5.0));
        let l = g.lc.iter().filter(|c| c.0 == a).map(|c| (c.1, 0.0, true));
        c.chain(l).filter(|x| x.2).filter_map(|x| Self::hop(g, cost, w, x.0, b, depth + 1).map(|y| x.1 + y)).min_by(f64::total_cmp)
    }

    fn pay(&mut self, g: &Graph, cost: &[Vec<f64>; 2], w: &World, b: usize) -> bool {
        for (p, c) in self.paid.iter_mut().zip(cost) {
            match Self::hop(g, c, w, self.at, b, 0) {
                Some(h) => *p += h,
                None => return false,
            }
        }
        true
    }

    /// Returns whether the vehicle is still there.
    fn look(&mut self, g: &Graph, cost: &[Vec<f64>; 2], w: &World, v: usize, dst: usize) -> Result<bool, Stop> {
        let Some(s) = w.snap(v) else {
            let there = self.at == dst || w.len(dst) < 5.0 && self.pay(g, cost, w, dst);
            ensure!(there, "v{} left the network from link {} while its destination is link {}", v, self.at, dst);
            return Ok(false);
        };
        if s.link != self.at {
            ensure!(
                self.pay(g, cost, w, s.link),
                "v{} went from link {} to link {}, which is neither connected nor a permitted lane change", v, self.at, s.link
            );
            self.at = s.link;
            self.turns += 1;
        }
        Ok(true)
    }
}

/// Every directed graph of `n` links.
fn graph(ctx: &mut Ctx, n: usize, lens: &[f64], lims: &[f64]) -> Net {
    let mut net = Net::new();
    for i in 0..n {
        let l = ctx.pick(lens);
        net.line(0.0, 10.0 * i as f64, l, 10.0 * i as f64, lims[i % lims.len()]);
    }
    for a in 0..n {
        for b in 0..n {
            if a != b && ctx.choose(2) == 1 {
                net.conn(a, b);
            }
        }
    }
    net
}

/// Runs a vehicle from `src` until it has left, or long enough to see that it stays.
fn arrives(ctx: &mut Ctx, net: &Net, w: &mut World, v: usize, dst: usize, dt: Dt, limit_s: f64, quickest: bool) -> Res {
    let g = Graph::of(net);
    let cost = costs(net, w);
    let src = w.snap(v).unwrap().link;
    let can = g.reaches(src, dst);
    let mut tr = Track::new(src);
    for f in 0..dt.frames(limit_s) {
        w.step(ctx, dt.at(f));
        if f % 32 == 0 {
            ctx.state(w.hash());
        }
        ctx.log(|| w.describe());
        if !tr.look(&g, &cost, w, v, dst)? {
            ctx.checked();
            if quickest {
                check_route(&g, &cost, &tr, src, dst)?;
            }
            ctx.cover("arrived");
            if tr.turns > 0 {
                ctx.cover("arrived over other links");
            }
            return Ok(());
        }
        if !can && f > dt.frames(60.0) {
            ctx.cover("stays without a route");
            return Ok(());
        }
    }
    ensure!(!can, "v{} has not reached link {} from link {} within {} s: {}", v, dst, src, limit_s, w.describe());
    Ok(())
}

fn graphs(ctx: &mut Ctx, n: usize, lens: &[f64]) -> Res {
    let net = graph(ctx, n, lens, &[15.0, 15.0, 9.0, 15.0]);
    let mut w = net.build();
    let src = 0;
    let dst = ctx.choose(n);
    w.add(&CAR, src, Some(dst));
    arrives(ctx, &net, &mut w, 0, dst, Dt::Const(0.2), 240.0, true)?;
    ctx.observe(w.hash());
    Ok(())
}

/// Stages of alternatives: the quickest one has to be taken in each, beyond the planning horizon.
fn ladder(ctx: &mut Ctx, stages: usize) -> Res {
    let short = ctx.choose(2) == 1;
    let mut net = Net::new();
    net.line(0.0, 0.0, 40.0, 0.0, 14.0);
    let mut x = 40.0;
    let mut last = 0;
    for _ in 0..stages {
        let c = ctx.choose(3);
        let (la, lb) = match (c, short) {
            (0, false) => (30.0, 60.0),
            (1, false) => (60.0, 30.0),
            (_, false) => (45.0, 30.0),
            (0, true) => (3.0, 9.0),
            (1, true) => (9.0, 3.0),
            (_, true) => (5.0, 3.0),
        };
        let slow = if c == 2 { 0.5 } else { 1.0 };
        let a = net.line(x, 5.0, x + la, 5.0, 14.0);
        let b = net.line(x, -5.0, x + lb, -5.0, 14.0 * slow);
        x += 60.0;
        let j = if short { net.line(x, 0.0, x + 2.0, 0.0, 14.0) } else { net.line(x, 0.0, x + 20.0, 0.0, 14.0) };
        net.conn(last, a);
        net.conn(last, b);
        net.conn(a, j);
        net.conn(b, j);
        last = j;
    }
    let kind = kind(ctx);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let mut w = net.build();
    w.add(&kind, 0, Some(last));
    arrives(ctx, &net, &mut w, 0, last, dt, 300.0, true)?;
    ctx.observe(w.hash());
    Ok(())
}

/// Many ways from one link, of which the quickest has to be taken, or to as many destinations.
fn fans(ctx: &mut Ctx) -> Res {
    let ways = ctx.pick(&[3, 4, 5, 8, 12]);
    let way = ctx.choose(ways);
    let own = ctx.choose(3);
    let back = ctx.choose(2) == 1;
    let mut net = Net::new();
    net.line(0.0, 0.0, 60.0, 0.0, 14.0);
    let mut last = 0;
    for i in 0..ways {
        let l = if i == way { 30.0 } else { 60.0 + 2.0 * i as f64 };
        let a = net.line(60.0, 5.0 * i as f64, 60.0 + l, 5.0 * i as f64, 14.0);
        if i == way {
            last = a;
        }
    }
    for i in 0..ways {
        net.conn(0, 1 + if back { ways - 1 - i } else { i });
    }
    // The way itself, a link behind it, or one that all ways lead to is the destination.
    let dst = match own {
        0 => last,
        1 => {
            let b = net.line(140.0, 0.0, 180.0, 0.0, 14.0);
            net.conn(last, b);
            b
        }
        _ => {
            let b = net.line(140.0, 0.0, 180.0, 0.0, 14.0);
            for i in 0..ways {
                net.conn(1 + i, b);
            }
            b
        }
    };
    let kind = kind(ctx);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let mut w = net.build();
    w.add(&kind, 0, Some(dst));
    arrives(ctx, &net, &mut w, 0, dst, dt, 120.0, true)?;
    ctx.observe(w.hash());
    Ok(())
}

/// One link after the other, of every length around the planning distance, and long rows of short ones.
fn rows(ctx: &mut Ctx, n: usize, lens: &[f64]) -> Res {
    let mut net = Net::new();
    let first = ctx.pick(&[5.0, 60.0, 230.0]);
    let (reps, n) = if ctx.choose(2) == 1 { (ctx.pick(&[4, 7, 8, 9, 12]), 1) } else { (1, n) };
    let mut x = 0.0;
    let add = |net: &mut Net, x: &mut f64, l: f64| {
        let i = net.line(*x, 0.0, *x + l, 0.0, 15.0);
        *x += l;
        if i > 0 {
            net.conn(i - 1, i);
        }
        i
    };
    add(&mut net, &mut x, first);
    for _ in 0..n {
        let l = ctx.pick(lens);
        for _ in 0..reps {
            add(&mut net, &mut x, l);
        }
    }
    let dst = add(&mut net, &mut x, 30.0);
    // A side exit before the last link, to be passed by.
    let side = net.line(x, 10.0, x + 30.0, 10.0, 15.0);
    net.conn(dst - 1, side);
    let mut w = net.build();
    let kind = kind(ctx);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2)]);
    w.add(&kind, 0, Some(dst));
    arrives(ctx, &net, &mut w, 0, dst, dt, 120.0 + x / 3.0, true)?;
    ctx.observe(w.hash());
    Ok(())
}

/// Twelve links that are together only six metres long.
fn known_tiny_links(ctx: &mut Ctx) -> Res {
    let mut lens = vec![60.0];
    lens.extend([0.5; 12]);
    lens.push(60.0);
    let mut w = chain(&lens, &[12.0]).build();
    w.add(&CAR, 0, Some(13));
    for _ in 0..1500 {
        w.step(ctx, 0.1);
        if w.snap(0).is_none() {
            return Ok(());
        }
    }
    fail!("the vehicle does not get across twelve links of half a metre: {}", w.describe())
}

/// Two ways of several links each, whose times differ by little on each link.
fn detours(ctx: &mut Ctx, lens: &[f64]) -> Res {
    let mut net = Net::new();
    net.line(0.0, 0.0, 40.0, 0.0, 12.0);
    let ends: Vec<usize> = (0..2)
        .map(|side| {
            let n = 1 + ctx.choose(4);
            let (len, lim) = (ctx.pick(lens), ctx.pick(&[9.0, 17.5, 25.0]));
            let mut last = 0;
            for i in 0..n {
                let (y, x) = (20.0 * side as f64 - 10.0, 40.0 + len * i as f64);
                let l = net.line(x, y, x + len, y, lim);
                net.conn(last, l);
                last = l;
            }
            last
        })
        .collect();
    let dst = net.line(200.0, 0.0, 240.0, 0.0, 12.0);
    for e in ends {
        net.conn(e, dst);
    }
    let mut w = net.build();
    w.add(&CAR, 0, Some(dst));
    arrives(ctx, &net, &mut w, 0, dst, Dt::Const(0.2), 200.0, true)?;
    ctx.observe(w.hash());
    Ok(())
}

/// A vehicle is put into another lane by hand, on or off its route.
fn moved(ctx: &mut Ctx, k: usize, lens: &[f64], instants: usize) -> Res {
    let mut net = Net::new();
    for i in 0..k {
        net.line(0.0, -3.5 * i as f64, 200.0, -3.5 * i as f64, 14.0);
    }
    let mask = if k == 2 { ctx.choose(4) as u32 * 2 } else { ctx.pick(&[0, 0b01_11_10, 0b00_10_10, 0b01_01_00]) };
    net.groups.push(((0..k).collect(), mask));
    let mid: Vec<usize> = (0..2)
        .map(|i| {
            let l = ctx.pick(lens);
            net.line(200.0, -8.0 * i as f64, 200.0 + l, -8.0 * i as f64, 14.0)
        })
        .collect();
    let dst = net.line(300.0, 0.0, 350.0, 0.0, 14.0);
    for i in 0..k {
        let outs = ctx.choose(8);
        for (b, l) in mid.iter().chain([&dst]).enumerate() {
            if outs >> b & 1 == 1 {
                net.conn(i, *l);
            }
        }
    }
    net.conn(mid[0], dst);
    net.conn(mid[1], dst);
    let g = Graph::of(&net);
    let src = ctx.choose(k);
    let to = ctx.choose(k);
    let dist = ctx.pick(&[25.0, 50.0]);
    let when = 1.5 * (1 + ctx.choose(instants)) as f64;
    if to.abs_diff(src) != 1 {
        return ctx.prune();
    }
    let mut w = net.build();
    let dt = Dt::Const(0.2);
    w.add(&CAR, src, Some(dst));
    let mut frame = 0;
    for _ in 0..dt.frames(when) {
        w.step(ctx, dt.at(frame));
        frame += 1;
    }
    // The vehicle may have changed lanes by itself.
    let s = w.snap(0).unwrap();
    if s.link != src || !g.reaches(to, dst) {
        return ctx.prune();
    }
    w.sim.do_lane_change(w.v[0], w.l[to], dist);
    let on = g.closure(src, true, true).contains(&to);
    ctx.cover(if on { "moved within its reach" } else { "moved off its route" });
    ctx.log(|| format!("moved to link {} | {}", to, w.describe()));
    // It may keep to its former route, where that can be reached from the new lane.
    arrives(ctx, &net, &mut w, 0, dst, dt, 150.0, false)?;
    ctx.observe(w.hash());
    Ok(())
}

/// A vehicle is put by hand into a lane beside its destination shortly before that ends.
fn beside_its_end(ctx: &mut Ctx) -> Res {
    let k = ctx.pick(&[2, 3]);
    let lim = ctx.pick(&[3.0, 5.0]);
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let attr = kind(ctx);
    let bits: Vec<usize> = (0..k).flat_map(|i| [2 * i, 2 * i + 1]).skip(1).take(2 * k - 2).collect();
    let sub = ctx.choose(1 << bits.len());
    let mask = bits.iter().enumerate().filter(|(i, _)| sub >> i & 1 == 1).map(|(_, b)| 1 << b).sum();
    let net = lanes(k, 90.0, 3.5, lim, mask);
    let g = Graph::of(&net);
    let dst = ctx.choose(k);
    let to = ctx.choose(k);
    if to.abs_diff(dst) != 1 {
        return ctx.prune();
    }
    let left = ctx.pick(&[4.0, 6.0, 8.0, 11.0, 16.0, 25.0, 40.0]);
    let dist = ctx.pick(&[3.0, 10.0, 30.0]);
    let mut w = net.build();
    w.add(&attr, dst, Some(dst));
    let mut frame = 0;
    // The front of the vehicle has to stop before the end.
    while w.snap(0).unwrap().front() < 90.0 - left {
        w.step(ctx, dt.at(frame));
        frame += 1;
    }
    w.sim.do_lane_change(w.v[0], w.l[to], dist);
    let cost = costs(&net, &w);
    // One that cannot finish the lane change before the lane ends is stuck there.
    let can = g.reaches(to, dst) && dist + 4.0 <= left;
    ctx.cover(if can { "can get back" } else { "cannot get back" });
    let mut tr = Track::new(to);
    for f in 0..dt.frames(100.0) {
        w.step(ctx, dt.at(frame));
        frame += 1;
        ctx.log(|| w.describe());
        ctx.checked();
        if f % 32 == 0 {
            ctx.state(w.hash());
        }
        if !tr.look(&g, &cost, &w, 0, dst)? {
            ctx.cover("gets back");
            ctx.observe(w.hash());
            return Ok(());
        }
    }
    ensure!(!can, "v0 has not reached link {} from link {}: {}", dst, to, w.describe());
    ctx.observe(w.hash());
    Ok(())
}

/// The destination is changed on the way, at any moment.
fn rerouted(ctx: &mut Ctx, n: usize, changes: usize) -> Res {
    let net = graph(ctx, n, &[60.0], &[13.0, 13.0, 7.0, 13.0]);
    let g = Graph::of(&net);
    let mut w = net.build();
    let dt = Dt::Const(0.2);
    let first = ctx.choose(n);
    w.add(&CAR, 0, Some(first));
    let mut tr = Track::new(0);
    let cost = costs(&net, &w);
    let (mut start, mut dst) = (0, first);
    ctx.set_budget(changes);
    for f in 0..dt.frames(300.0) {
        if f % 9 == 0 && f < 72 {
            let s = w.snap(0).unwrap();
            let mut opts = vec![];
            if crate::driver::can_turn(&w, &s, CAR.comf_dec) {
                opts = (0..n).filter(|d| *d != dst && g.reaches(s.link, *d)).collect();
            }
            let c = ctx.dev(1 + opts.len());
            if c > 0 {
                (start, dst) = (s.link, opts[c - 1]);
                tr = Track::new(start);
                ctx.log(|| format!("destination changed to link {}", dst));
                w.dest(0, dst);
                ctx.cover("rerouted");
            }
        }
        w.step(ctx, dt.at(f));
        ctx.log(|| w.describe());
        if f % 32 == 0 {
            ctx.state(w.hash());
        }
        if !tr.look(&g, &cost, &w, 0, dst)? {
            ctx.checked();
            check_route(&g, &cost, &tr, start, dst)?;
            ctx.cover("arrived");
            ctx.observe(w.hash());
            return Ok(());
        }
        if f > dt.frames(60.0) && !g.reaches(start, dst) {
            return Ok(());
        }
    }
    fail!("v0 has not reached link {} from link {}: {}", dst, start, w.describe())
}

pub fn routes(t: bool) -> Vec<Suite> {
    vec![
        Suite::new("tiny-links", "one fixed history: a row of twelve links of half a metre", known_tiny_links).known(),
        Suite::new(
            "graphs",
            "every directed graph of 4 links of 20 or 60 m (thorough also 35 m); from link 0 to every destination, reachable or not",
            move |c| graphs(c, 4, if t { &[20.0, 35.0, 60.0] } else { &[20.0, 60.0] }),
        )
        .reaching(&["arrived over other links", "stays without a route"]),
        Suite::new(
            "ladders",
            "every combination of 5 (quick) / 6 (thorough) stages of two alternatives (shorter left, shorter right, slower right), on long and on very short links; 3 kinds x 3 step patterns",
            move |c| ladder(c, if t { 6 } else { 5 }),
        )
        .reaching(&["arrived over other links"]),
        Suite::new(
            "rows",
            "rows of a first link of 5, 60 or 230 m and every 3 (quick) / 4 (thorough) links of 4, 60, 190, 205 or 450 m, or 4, 7, 8, 9 or 12 equal ones, before the destination and a side exit; 3 kinds x 2 step patterns",
            move |c| rows(c, if t { 4 } else { 3 }, &[4.0, 60.0, 190.0, 205.0, 450.0]),
        )
        .reaching(&["arrived over other links"]),
        Suite::new(
            "fans",
            "3, 4, 5, 8 or 12 ways from one link in both orders; any one of them is the destination, leads to it, or is the quickest; 3 kinds x 3 step patterns",
            fans,
        )
        .reaching(&["arrived over other links"]),
        Suite::new(
            "detours",
            "two ways of 1 to 4 links each, every length of 6 (quick) / 9 (thorough) between 14 and 97 m and limit of 9, 17.5 or 25 m/s on either",
            move |c| detours(c, if t { &[14.0, 19.0, 26.0, 33.3, 41.0, 48.0, 60.0, 72.0, 97.0] } else { &[14.0, 26.0, 33.3, 48.0, 60.0, 97.0] }),
        )
        .reaching(&["arrived over other links"]),
        Suite::new(
            "moved",
            "a vehicle is put by hand into a neighbouring lane of 2 or 3 lanes, at 5 (quick) / 9 (thorough) instants and over 25 or 50 m; every pattern of connections of each lane to two ways of 40 or 90 m and the destination; every (2 lanes) or 4 (3 lanes) permission masks",
            move |c| {
                let k = c.pick(&[2, 3]);
                moved(c, k, if k == 2 { &[40.0, 90.0] } else { &[40.0] }, if t { 9 } else { 5 })
            },
        )
        .reaching(&["moved off its route", "moved within its reach", "arrived over other links"]),
        Suite::new(
            "beside-its-end",
            "a vehicle of 3 kinds is put by hand, over 3, 10 or 30 m, into a lane beside its destination when its front is 4 to 40 m before the end of it; 2 or 3 lanes, every permission mask, destination and neighbour; 2 limits x 3 step patterns",
            beside_its_end,
        )
        .reaching(&["can get back", "cannot get back", "gets back"]),
        Suite::new(
            "rerouted",
            "every directed graph of 4 links, every first destination and every 1 (quick) / 2 (thorough) later changes to a reachable destination at 8 instants",
            move |c| rerouted(c, 4, if t { 2 } else { 1 }),
        )
        .reaching(&["rerouted", "arrived"]),
    ]
}

/// A group of lanes with every permission mask and every pattern of exits.
pub fn lane_net(ctx: &mut Ctx, k: usize, len: f64, curved: bool) -> Net {
    let mut net = Net::new();
    for i in 0..k {
        let y = -3.5 * i as f64;
        if curved {
            // Concentric arcs around (0, 120), of a quarter of a turn.
            let r = 120.0 - y;
            let c = 0.5522847498 * r;
            net.cubic([0.0, 120.0 - r, c, 120.0 - r, r, 120.0 - c, r, 120.0], 14.0);
        } else {
            net.line(0.0, y, len, y, 14.0);
        }
    }
    let mask = ctx.choose(1 << (2 * k)) as u32;
    net.groups.push(((0..k).collect(), mask));
    net
}

fn lane_masks(ctx: &mut Ctx, k: usize, len: f64, curved: bool) -> Res {
    let net = lane_net(ctx, k, len, curved);
    lane_course(ctx, net, k, len, curved)
}

/// Wide or long groups, in which all changes, those in one direction or all but one are allowed.
fn large_groups(ctx: &mut Ctx, ks: &[usize], lens: &[f64]) -> Res {
    let k = ctx.pick(ks);
    let len = ctx.pick(lens) * k as f64;
    let all = all_changes(k);
    let right = all & 0xaaaa_aaaa;
    let mask = match ctx.choose(3 + k) {
        0 => all,
        1 => right,
        2 => all & !right,
        i => all & !(3 << (2 * (i - 3))),
    };
    let mut net = Net::new();
    for i in 0..k {
        let y = -3.5 * i as f64;
        net.line(0.0, y, len, y, 14.0);
    }
    net.groups.push(((0..k).collect(), mask));
    lane_course(ctx, net, k, len, false)
}

/// Five changes are needed, over 2 km.
fn known_six_lanes(ctx: &mut Ctx) -> Res {
    let mut net = lanes(6, 2000.0, 3.5, 14.0, all_changes(6));
    let dst = net.line(2000.0, -17.5, 2060.0, -17.5, 14.0);
    net.conn(5, dst);
    let mut w = net.build();
    w.add(&CAR, 0, Some(dst));
    for _ in 0..4000 {
        w.step(ctx, 0.1);
        if w.snap(0).is_none() {
            return Ok(());
        }
    }
    fail!("the vehicle does not get to the exit behind the sixth lane: {}", w.describe())
}

fn lane_course(ctx: &mut Ctx, mut net: Net, k: usize, len: f64, curved: bool) -> Res {
    let exits = ctx.choose(3);
    // Every lane its own exit; only one exit for the outer lanes; a common exit for all.
    for i in 0..k {
        if exits < 2 || i == 0 {
            let y = -3.5 * i as f64;
            if curved {
                let x = 120.0 - y;
                net.line(x, 120.0, x, 180.0, 14.0);
            } else {
                net.line(len, y, len + 60.0, y, 14.0);
            }
        }
    }
    for i in 0..k {
        match exits {
            0 => net.conn(i, k + i),
            1 => {
                net.conn(i, k + i);
                if i > 0 {
                    net.conn(i, k + i - 1);
                }
            }
            _ => net.conn(i, k),
        }
    }
    let mut w = net.build();
    let src = ctx.choose(k);
    let links = net.links.len();
    let dst = ctx.choose(links);
    let kind = if k >= 4 { CAR } else { kind(ctx) };
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2)]);
    w.add(&kind, src, Some(dst));
    let g = Graph::of(&net);
    let cost = costs(&net, &w);
    let can = g.reaches(src, dst);
    let mut tr = Track::new(src);
    let mut left = false;
    let mut before: f64 = 0.0;
    for f in 0..dt.frames(if can { 80.0 + 0.1 * len } else { 45.0 }) {
        w.step(ctx, dt.at(f));
        if f % 16 == 0 {
            ctx.state(w.hash());
        }
        let at = tr.at;
        if !tr.look(&g, &cost, &w, 0, dst)? {
            left = true;
            break;
        }
        let beside = before;
        before = super::lanes::offset(&w, &w.snap(0).unwrap()).abs();
        if tr.at != at {
            ctx.log(|| w.describe());
            ctx.checked();
            if tr.at < k {
                ctx.cover("changed lanes");
                ensure!(beside < 0.1, "v0 began to change to lane {} when it was still {:.2} m beside lane {}", tr.at, beside, at);
                if can {
                    ensure!(g.reaches(tr.at, dst), "v0 changed from lane {} to lane {}, from which link {} cannot be reached", at, tr.at, dst);
                }
            }
            // Without need it stays in its lane.
            if tr.at < k && can && g.closure(at, true, false).contains(&dst) {
                fail!("v0 changed from lane {} to lane {} although its destination {} lies ahead", at, tr.at, dst);
            }
        }
    }
    ensure!(left == can, "link {} is {} from lane {}, but the vehicle has {} it", dst, if can { "reachable" } else { "not reachable" }, src, if left { "reached" } else { "not reached" });
    if can && src != dst && dst < k {
        ctx.cover("ends in another lane");
    }
    ctx.observe(w.hash());
    Ok(())
}

/// Two groups one after the other, joined by connections between them.
fn two_groups(ctx: &mut Ctx) -> Res {
    let mut net = Net::new();
    let len = 160.0;
    for s in 0..2 {
        for i in 0..2 {
            let y = -3.5 * i as f64;
            net.line(len * s as f64, y, len * (s + 1) as f64, y, 14.0);
        }
    }
    for i in 0..2 {
        let y = -3.5 * i as f64;
        net.line(2.0 * len, y, 2.0 * len + 60.0, y, 14.0);
    }
    let m1 = ctx.choose(4) as u32;
    let m2 = ctx.choose(4) as u32;
    let bits = |m: u32| (m & 1) << 1 | (m >> 1) << 2;
    net.groups.push((vec![0, 1], bits(m1)));
    net.groups.push((vec![2, 3], bits(m2)));
    for (a, b) in [(0, 2), (1, 3), (2, 4), (3, 5)] {
        if ctx.choose(2) == 1 {
            net.conn(a, b);
        }
    }
    let src = ctx.choose(2);
    let dst = ctx.choose(6);
    let kind = kind(ctx);
    let mut w = net.build();
    w.add(&kind, src, Some(dst));
    let g = Graph::of(&net);
    let cost = costs(&net, &w);
    let can = g.reaches(src, dst);
    let mut tr = Track::new(src);
    let mut left = false;
    for f in 0..600 {
        w.step(ctx, 0.2);
        if f % 16 == 0 {
            ctx.state(w.hash());
        }
        if !tr.look(&g, &cost, &w, 0, dst)? {
            left = true;
            break;
        }
        if can {
            ensure!(g.reaches(tr.at, dst), "v0 is on link {}, from which its destination {} cannot be reached", tr.at, dst);
        } else if f > 250 {
            break;
        }
    }
    ctx.checked();
    ensure!(left == can, "link {} is {} from lane {}, but the vehicle has {} it", dst, if can { "reachable" } else { "not reachable" }, src, if left { "reached" } else { "not reached" });
    ctx.observe(w.hash());
    Ok(())
}

/// A vehicle in one lane gets a destination behind another lane, driving, halted or standing at a closed line.
fn sent_to_lane(ctx: &mut Ctx, k: usize, grid: usize) -> Res {
    let len = 330.0;
    let mut net = lane_net(ctx, k, len, false);
    for i in 0..k {
        let y = -3.5 * i as f64;
        net.line(len, y, len + 60.0, y, 14.0);
        net.conn(i, k + i);
    }
    let g = Graph::of(&net);
    let src = ctx.choose(k);
    let dst = k + ctx.choose(k);
    if dst == k + src || !g.reaches(src, dst) {
        return ctx.prune();
    }
    let dt = ctx.pick(&[Dt::Const(0.1), Dt::Const(0.2), Dt::Alt(0.03, 0.17)]);
    let kind = kind(ctx);
    // Driving; halted and released later; standing at the closed end of its lane.
    let mode = ctx.choose(3);
    let at = if mode == 2 { f64::MAX } else { 320.0 / grid as f64 * ctx.choose(grid) as f64 };
    let mut w = net.build();
    let v = w.add(&kind, src, Some(k + src));
    if mode == 2 {
        w.control(k + src, CLOSED);
    }
    let cost = costs(&net, &w);
    let mut tr = Track::new(src);
    let mut frame = 0;
    let mut aim = k + src;
    let (mut sent, mut halted) = (None, None);
    let mut demanded = false;
    for f in 0..dt.frames(170.0) {
        let Some(s) = w.snap(v) else { break };
        if mode == 1 && halted.is_none() && s.pos >= at {
            halted = Some(f);
            w.freeze(v, true);
        }
        let ready = match mode {
            0 => s.pos >= at,
            1 => halted.is_some_and(|h| f == h + dt.frames(8.0)),
            _ => s.vel < 0.001 && s.pos > len - 20.0,
        };
        if sent.is_none() && ready {
            if s.link != src {
                return ctx.prune();
            }
            w.dest(v, dst);
            aim = dst;
            sent = Some(f);
            let left = len - s.pos;
            let changes = (dst - k).abs_diff(src) as f64;
            demanded = if mode == 0 { left >= 45.0 * changes + 60.0 } else { left >= 45.0 * (changes - 1.0) && (mode == 2 || left > 10.0) };
            ctx.cover(["sent while driving", "sent while halted", "sent while standing at the end of its lane"][mode]);
            ctx.log(|| w.describe());
        }
        if mode == 1 && sent.is_some_and(|h| f == h + dt.frames(3.0)) {
            w.freeze(v, false);
        }
        w.step(ctx, dt.at(f));
        frame += 1;
        if frame % 16 == 0 {
            ctx.state(w.hash());
            ctx.log(|| w.describe());
        }
        ctx.checked();
        // Sent too late it may find its lane at an end, unable to stop.
        if sent.is_some() && !demanded && !w.alive(v) {
            break;
        }
        if !tr.look(&g, &cost, &w, v, aim)? {
            break;
        }
        if sent.is_none() && tr.at < k {
            ensure!(tr.at == src, "v0 changed lanes without need");
        }
    }
    if demanded {
        ctx.cover("enough room");
        ensure!(!w.alive(v), "v0 was sent from lane {} to link {} in time and has not got there: {}", src, dst, w.describe());
    }
    ctx.observe(w.hash());
    Ok(())
}

pub fn lane_permissions(t: bool) -> Vec<Suite> {
    let mut s = vec![
        Suite::new(
            "two-lanes",
            "all 16 masks x 3 exit patterns x every origin lane and destination, straight and curved; 3 kinds x 2 time steps",
            |c| {
                let curved = c.choose(2) == 1;
                lane_masks(c, 2, 250.0, curved)
            },
        )
        .reaching(&["changed lanes", "ends in another lane"]),
        Suite::new(
            "three-lanes",
            "all 64 masks x 3 exit patterns x every origin lane and destination, straight and curved; 3 kinds x 2 time steps",
            |c| {
                let curved = c.choose(2) == 1;
                lane_masks(c, 3, 330.0, curved)
            },
        )
        .reaching(&["changed lanes", "ends in another lane"]),
        Suite::new(
            "two-groups",
            "two groups of two lanes in a row; all masks and connections; every origin and destination x 3 kinds",
            two_groups,
        ),
        Suite::new(
            "sent-to-another-lane",
            "a vehicle is sent behind another lane at each of 16/64 places, driving or halted, or while it stands at the closed end of its lane; 2 and 3 lanes with all masks; 3 kinds x 3 step patterns",
            move |c| {
                let k = 2 + c.choose(2);
                sent_to_lane(c, k, if t { 64 } else { 16 })
            },
        )
        .reaching(&["sent while driving", "sent while halted", "sent while standing at the end of its lane", "enough room"]),
    ];
    s.push(
        Suite::new(
            "five-lanes",
            "5 lanes of 750 m in which all changes, those to one side, or all but those from one lane are allowed x 3 exit patterns x every origin lane and destination; 2 time steps",
            |c| large_groups(c, &[5], &[150.0]),
        )
        .reaching(&["changed lanes", "ends in another lane"]),
    );
    s.push(
        Suite::new(
            "long-lanes",
            "2 or 3 (thorough 4) lanes of 7 to 14 km, otherwise as five-lanes",
            move |c| large_groups(c, if t { &[2, 3, 4] } else { &[2, 3] }, &[3500.0]),
        )
        .reaching(&["changed lanes", "ends in another lane"]),
    );
    s.push(
        Suite::new(
            "six-lanes",
            "one fixed history: a vehicle on the first of six lanes whose destination lies behind the last one",
            known_six_lanes,
        )
        .known(),
    );
    s.push(
        Suite::new(
            "four-lanes",
            "all 256 masks x 3 exit patterns x every origin lane and destination; 2 time steps (thorough also curved)",
            move |c| {
                let curved = t && c.choose(2) == 1;
                lane_masks(c, 4, 420.0, curved)
            },
        )
        .reaching(&["changed lanes", "ends in another lane"]),
    );
    s
}

fn ids(w: &World, l: &[LinkId]) -> Vec<usize> {
    let mut v: Vec<usize> = l.iter().map(|x| w.li(*x).unwrap_or(usize::MAX)).collect();
    v.sort();
    v
}

fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}

/// Compares every query with the reference.
fn check_queries(ctx: &mut Ctx, net: &Net, w: &World) -> Res {
    let g = Graph::of(net);
    let inv = Graph {
        n: g.n,
        conns: g.conns.iter().map(|c| (c.1, c.0)).collect(),
        lc: g.lc.iter().map(|c| (c.1, c.0)).collect(),
    };
    let listed: Vec<usize> = w.sim.iter_links().map(|l| w.li(l.id()).unwrap_or(usize::MAX)).collect();
    ensure!(sorted(listed.clone()) == (0..g.n).collect::<Vec<_>>(), "the links listed are {:?}", listed);
    for i in 0..g.n {
        let l = w.sim.get_link(w.l[i]);
        ctx.checked();
        ensure!(l.id() == w.l[i], "link {} has another identity", i);
        ensure!(l.speed_limit() == net.links[i].1, "link {} has limit {} instead of {}", i, l.speed_limit(), net.links[i].1);
        if let Shape::Line([a, b, c, d]) = net.links[i].0 {
            let len = ((c - a).powi(2) + (d - b).powi(2)).sqrt();
            ensure!((l.length() - len).abs() < 0.02 * len + 0.01, "link {} has length {} instead of {}", i, l.length(), len);
        }
        let want = 10.0 * l.length() / l.speed_limit();
        ensure!(l.cost() as f64 <= want + 1e-9 && l.cost() as f64 > want - 1.0 - 1e-9, "link {} costs {} but its travel time is {:.2} tenths of a second", i, l.cost(), want);
        let cmp = |what: &str, got: Vec<usize>, want: Vec<usize>| -> Res {
            ensure!(got == want, "{} of link {} are {:?} instead of {:?}", what, i, got, want);
            Ok(())
        };
        cmp("successors", ids(w, l.links_out()), sorted(g.out(i)))?;
        cmp("predecessors", ids(w, l.links_in()), sorted(g.inn(i)))?;
        cmp("lane changes", ids(w, l.lane_changes()), sorted(g.lc.iter().filter(|c| c.0 == i).map(|c| c.1).collect()))?;
        cmp("reachable lanes", ids(w, l.reachable_lanes()), sorted(g.closure(i, false, true)))?;
        cmp("lanes from which it can be reached", ids(w, l.reachable_from_lanes()), sorted(inv.closure(i, false, true)))?;
    }
    let mut want = vec![];
    for a in 0..g.n {
        if g.inn(a).is_empty() {
            for b in g.closure(a, true, true) {
                if g.out(b).is_empty() {
                    want.push((a, b));
                }
            }
        }
    }
    want.sort();
    let mut got: Vec<(usize, usize)> = w.sim.all_routes().map(|(a, b)| (w.li(a).unwrap(), w.li(b).unwrap())).collect();
    got.sort();
    ensure!(got == want, "the routes are {:?} instead of {:?}", got, want);
    if want.len() > 1 {
        ctx.cover("several routes");
    }
    let mut m = Mix::new();
    for (a, b) in &got {
        m.u((a * 16 + b) as u64);
    }
    for i in 0..g.n {
        for c in g.out(i) {
            m.u((i * 16 + c + 1000) as u64);
        }
    }
    for (a, b) in &g.lc {
        m.u((a * 16 + b + 2000) as u64);
    }
    ctx.state(m.0);
    ctx.observe(m.0);
    Ok(())
}

fn query_graphs(ctx: &mut Ctx, n: usize, lens: &[f64]) -> Res {
    let net = graph(ctx, n, lens, &[15.0, 11.0, 9.0, 30.0]);
    let w = net.build();
    check_queries(ctx, &net, &w)
}

/// A lane group with every mask, entered and left by connections of every pattern.
fn query_lanes(ctx: &mut Ctx, k: usize) -> Res {
    let mut net = lane_net(ctx, k, 60.0, false);
    let e = net.line(-50.0, 0.0, 0.0, 0.0, 12.0);
    let x = net.line(60.0, 0.0, 100.0, 0.0, 12.0);
    for i in 0..k {
        if ctx.choose(2) == 1 {
            net.conn(e, i);
        }
        if ctx.choose(2) == 1 {
            net.conn(i, x);
        }
    }
    let w = net.build();
    check_queries(ctx, &net, &w)
}

/// A group of up to 16 lanes in which all but two permissions are given, or only two.
fn query_wide(ctx: &mut Ctx) -> Res {
    let k = 5 + ctx.choose(12);
    let bits: Vec<usize> = (1..2 * k - 1).collect();
    let a = ctx.pick(&bits);
    let b = ctx.pick(&bits);
    if a > b {
        return ctx.prune();
    }
    let pair = (1u32 << a) | (1 << b);
    let most = ctx.choose(2) == 1;
    let mut net = lanes(k, 30.0, 3.5, 12.0, if most { all_changes(k) & !pair } else { pair });
    let from = ctx.pick(&[0, k / 2, k - 1]);
    let e = net.line(-50.0, 0.0, 0.0, 0.0, 12.0);
    let x = net.line(30.0, 0.0, 70.0, 0.0, 12.0);
    net.conn(e, from);
    net.conn(k - 1 - from, x);
    let w = net.build();
    check_queries(ctx, &net, &w)
}

/// Two groups in a row with every mask.
fn query_two(ctx: &mut Ctx) -> Res {
    let mut net = Net::new();
    for s in 0..2 {
        for i in 0..2 {
            net.line(50.0 * s as f64, -3.5 * i as f64, 50.0 * (s + 1) as f64, -3.5 * i as f64, 10.0);
        }
    }
    for s in 0..2 {
        let m = ctx.choose(16) as u32;
        net.groups.push((vec![2 * s, 2 * s + 1], m));
    }
    for a in 0..2 {
        for b in 2..4 {
            if ctx.choose(2) == 1 {
                net.conn(a, b);
            }
        }
    }
    let w = net.build();
    check_queries(ctx, &net, &w)
}

pub fn queries(t: bool) -> Vec<Suite> {
    vec![
        Suite::new(
            "graphs",
            "every directed graph of 4 links (thorough: also of 5 links), of 20 or 60 m",
            move |c| {
                let n = if t { c.pick(&[4, 5]) } else { 4 };
                query_graphs(c, n, if n == 4 { &[20.0, 60.0] } else { &[20.0] })
            },
        )
        .reaching(&["several routes"]),
        Suite::new("lanes", "groups of 2 to 4 (thorough 5) lanes with every mask and every pattern of connections from an entrance and to an exit", move |c| {
            let k = c.pick(if t { &[2, 3, 4, 5] } else { &[2, 3, 4] });
            query_lanes(c, k)
        })
        .reaching(&["several routes"]),
        Suite::new("two-groups", "two groups of two lanes in a row, with every pair of masks and every pattern of connections", query_two),
        Suite::new("wide-groups", "groups of 5 to 16 lanes in which every one or two permissions are missing, or only those are given; 3 places of entrance and exit", query_wide)
            .reaching(&["several routes"]),
    ]
}
