//! Connections come and go.
use crate::{net::*, oracle::Book, rt};
use explore::{Check, Ctx, Outcome, Scenario, ensure};
use kompact_net::NetworkStatusRequest as Ask;
use mio::sim;
use std::{cell::Cell, rc::Rc};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    /// host 0 sends to host 1
    Send,
    /// host 1 sends to host 0
    Reply,
    /// one retry interval passes
    Tick,
    /// nobody can connect any more / again
    Toggle,
    /// the connection breaks
    Cut,
    /// host 0 / 1 asks for the connection to be closed
    Close(usize),
    /// host 0 asks for a connection
    Connect,
}

fn reachable(n: &Net, yes: bool, silent: bool) {
    let all = if yes { vec![] } else { n.hosts.iter().map(|h| h.addr).collect() };
    n.ctx.log(|| format!("the hosts are {}reachable", if yes { "" } else { "un" }));
    sim::with(|s| if silent { s.silent = all } else { s.refused = all });
}

/// Host 0 sends to a host that cannot be reached at times: exactly what is to happen is known.
fn refused(ctx: &Ctx, depth: usize) -> Outcome {
    let retries = ctx.pick(3) as u8;
    let silent = ctx.pick(2) == 1;
    let sync = !silent && ctx.pick(2) == 1;
    let o = Opts {
        retries,
        sim: sim::Options { sync_refusal: sync, ..Default::default() },
        ..Opts::default()
    };
    let mut plan: Vec<Op> = (0..depth).map(|_| *ctx.pick_of(&[Op::Tick, Op::Send, Op::Toggle])).collect();
    // everything is over after that
    plan.extend(std::iter::repeat_n(Op::Tick, retries as usize + 1));
    with_net(ctx, &o, |n| {
        let b = Book::default();
        let (from, to) = (n.hosts[0].addr.ip(), n.hosts[1].addr);
        // the reference
        let mut up = false;
        let mut net = false;
        let mut pending: Option<u8> = None;
        let mut queue: Vec<u32> = vec![];
        let (mut delivered, mut dropped, mut attempts) = (vec![], 0, 0);
        reachable(n, net, silent);
        for op in &plan {
            let mut attempt = false;
            match op {
                Op::Toggle => {
                    net = !net;
                    reachable(n, net, silent);
                }
                Op::Send => {
                    let seq = b.send(n, 0, 1, 0, 20, How::Lazy);
                    queue.push(seq);
                    if !up && pending.is_none() {
                        pending = Some(0);
                        attempt = true;
                    }
                }
                _ => {
                    n.advance(RETRY);
                    match pending {
                        Some(r) if r < retries => {
                            pending = Some(r + 1);
                            attempt = true;
                        }
                        Some(_) => {
                            pending = None;
                            dropped += 1;
                            queue.clear();
                        }
                        None => (),
                    }
                }
            }
            if attempt {
                attempts += 1;
                if net {
                    up = true;
                    pending = None;
                }
            }
            if up {
                delivered.append(&mut queue);
            }
            n.rt.explore()?;
            let got: Vec<u32> = n.hosts[1].got().iter().map(|g| g.pay.as_ref().map_or(u32::MAX, |p| p.seq)).collect();
            let status = n.hosts[0].status();
            let drops = status.iter().filter(|s| matches!(s, S::Dropped(a) if *a == to)).count();
            let tried = sim::with(|s| s.attempts.iter().filter(|a| **a == (from, to)).count());
            ensure!(
                got == delivered,
                "n03-delivered",
                "after {op:?}: handled {got:?} instead of {delivered:?}; {status:?}"
            );
            ensure!(drops == dropped, "n03-dropped", "after {op:?}: gave up {drops} times instead of {dropped}: {status:?}");
            ensure!(tried == attempts, "n03-attempts", "after {op:?}: {tried} attempts to connect instead of {attempts}");
            ensure!(
                status.len() == dropped + up as usize,
                "n03-status",
                "after {op:?}: reported {status:?} with up={up} and {dropped} drops"
            );
        }
        n.show();
        ctx.outcome(&(delivered.len(), dropped, attempts));
        reachable(n, true, silent);
        b.intact(n, "n03")
    })
}

/// Connections are made, lost and closed in any order.
fn history(ctx: &Ctx, depth: usize, ops: &[Op]) -> Outcome {
    let retries = 1 + ctx.pick(2);
    explore::det_order(*ctx.pick_of(&[explore::Order::Ascending, explore::Order::Descending]));
    let o = Opts { retries: retries as u8, ..Opts::default() };
    let plan: Vec<Op> = (0..depth).map(|_| *ctx.pick_of(ops)).collect();
    with_net(ctx, &o, |n| {
        let b = Book::default();
        let mut net = true;
        let mut cuts = 0;
        let mut closes = 0;
        // what was sent by whom, after how many reports, with or without a connection
        let mut sent: Vec<(usize, u32, usize, bool)> = vec![];
        let settle_all = |n: &Net| -> Outcome {
            for h in &n.hosts {
                grammar(h, retries)?;
            }
            Ok(())
        };
        for op in &plan {
            ctx.log(|| format!("-- {op:?}"));
            match op {
                Op::Send | Op::Reply => {
                    let a = (*op == Op::Reply) as usize;
                    let h = &n.hosts[a];
                    let (at, live) = (h.status().len(), !h.live().is_empty());
                    let seq = b.send(n, a, 1 - a, 0, 20, How::Lazy);
                    sent.push((a, seq, at, live));
                }
                Op::Tick => n.advance(RETRY),
                Op::Toggle => {
                    net = !net;
                    reachable(n, net, false);
                }
                Op::Cut => {
                    for (x, y) in sim::with(|s| s.connections()) {
                        ctx.log(|| format!("#{x}-#{y} breaks"));
                        cuts += 1;
                        sim::with(|s| s.break_connection(x, y, |k| k));
                    }
                }
                Op::Close(i) => {
                    if !n.hosts[*i].live().is_empty() {
                        closes += 1;
                    }
                    n.hosts[*i].ask(Ask::DisconnectSystem(n.hosts[1 - *i].path()));
                }
                Op::Connect => n.hosts[0].ask(Ask::ConnectSystem(n.hosts[1].path())),
            }
            n.rt.explore()?;
            settle_all(n)?;
            let cs = sim::with(|s| s.connections()).len();
            let (l0, l1) = (n.hosts[0].live(), n.hosts[1].live());
            ensure!(
                l0.iter().map(|x| x.1).eq(l1.iter().map(|x| x.1)),
                "n03-sessions",
                "after {op:?}: the systems report different sessions: {l0:?} / {l1:?}"
            );
            ensure!(cs >= l0.len(), "n03-status", "after {op:?}: {cs} connections, but reported {l0:?}");
        }
        // everything works from now on
        reachable(n, true, false);
        n.wait_out(retries + 3)?;
        n.show();
        settle_all(n)?;
        for h in &n.hosts {
            let (lost, closed) = (
                h.status().iter().filter(|s| matches!(s, S::Lost(..))).count(),
                h.status().iter().filter(|s| matches!(s, S::Closed(..))).count(),
            );
            ctx.outcome(&(lost, closed, h.status().len()));
            ensure!(lost == cuts, "n03-lost", "{} reported {lost} losses of {cuts}: {:?}", h.addr, h.status());
            ensure!(closed == closes, "n03-closed", "{} reported {closed} of {closes} closed connections: {:?}", h.addr, h.status());
        }
        for (a, seq, at, live) in &sent {
            let st = n.hosts[*a].status();
            let fate = st[*at..].iter().find(|s| matches!(s, S::Up(..) | S::Dropped(_)));
            let want = *live || !matches!(fate, Some(S::Dropped(_)));
            let got = n.hosts[1 - *a].got().iter().any(|g| matches!(&g.pay, Ok(p) if p.seq == *seq));
            ensure!(
                got == want,
                if want { "n03-undelivered" } else { "n03-dropped" },
                "host {a} sent {seq} {} after {at} reports of {st:?}: it was {}handled",
                if *live { "while connected" } else { "while not connected" },
                if got { "" } else { "never " }
            );
        }
        b.intact(n, "n03")?;
        b.increasing(n, "n03")?;
        // it works
        for a in [0, 1] {
            b.send(n, a, 1 - a, 0, 3, How::Lazy);
            n.wait_out(retries + 3)?;
            let last = n.hosts[1 - a].got().last().map(|g| g.pay.clone().unwrap().seq);
            ensure!(
                last == Some(b.0.borrow().len() as u32 - 1),
                "n03-dead",
                "host {a} cannot send any more: {:?} / {:?}",
                n.hosts[0].status(),
                n.hosts[1].status()
            );
        }
        settle_all(n)?;
        b.intact(n, "n03")?;
        b.increasing(n, "n03")
    })
}

/// As `history` without failures, but what is asked for overlaps.
fn overlapping(ctx: &Ctx, depth: usize, partial: bool) -> Outcome {
    explore::det_order(*ctx.pick_of(&[explore::Order::Ascending, explore::Order::Descending]));
    let o = Opts {
        sim: sim::Options { short_writes: partial, ..Default::default() },
        ..Opts::default()
    };
    let ops = [Op::Send, Op::Reply, Op::Close(0), Op::Close(1), if partial { Op::Tick } else { Op::Connect }];
    let plan: Vec<(Op, bool)> = (0..depth).map(|_| (*ctx.pick_of(&ops), ctx.pick(2) == 0)).collect();
    with_net(ctx, &o, |n| {
        let b = Book::default();
        // connected from the start
        b.send(n, 0, 1, 0, 20, How::Lazy);
        n.rt.settle()?;
        for (op, wait) in &plan {
            ctx.log(|| format!("-- {op:?}"));
            match op {
                Op::Send | Op::Reply => {
                    let a = (*op == Op::Reply) as usize;
                    b.send(n, a, 1 - a, 0, 20, How::Lazy);
                }
                Op::Close(i) => n.hosts[*i].ask(Ask::DisconnectSystem(n.hosts[1 - *i].path())),
                Op::Tick => n.advance(RETRY),
                _ => n.hosts[0].ask(Ask::ConnectSystem(n.hosts[1].path())),
            }
            if *wait {
                n.rt.explore()?;
            }
        }
        n.rt.explore()?;
        n.wait_out(4)?;
        n.show();
        for h in &n.hosts {
            grammar(h, 2)?;
            ensure!(
                !h.status().iter().any(|s| matches!(s, S::Lost(..) | S::Dropped(_))),
                "n03-lost",
                "nothing broke, but {} reports {:?}",
                h.addr,
                h.status()
            );
        }
        b.intact(n, "n03")?;
        b.increasing(n, "n03")?;
        b.complete(n, "n03")?;
        let ended: Vec<Vec<S>> = n
            .hosts
            .iter()
            .map(|h| h.status().iter().filter(|s| matches!(s, S::Closed(..))).cloned().collect())
            .collect();
        ctx.outcome(&(ended[0].len(), ended[1].len()));
        let (l0, l1) = (n.hosts[0].live(), n.hosts[1].live());
        let cs = sim::with(|s| s.connections()).len();
        ensure!(
            l0.iter().map(|x| x.1).eq(l1.iter().map(|x| x.1)) && cs == l0.len(),
            "n03-sessions",
            "{cs} connections, the systems report {l0:?} / {l1:?}"
        );
        Ok(())
    })
}

#[derive(Clone, Copy, Default)]
pub struct Way {
    /// threads are switched at every operation
    pub fine: bool,
    /// not connected at first
    pub fresh: bool,
    /// host 1 stands still for a while
    pub slow: bool,
}

/// A user asks for things while others are being done: after any number of steps of the threads.
pub fn meanwhile(ctx: &Ctx, id: &'static str, depth: usize, apart: usize, ops: &[Op], how: Way) -> Outcome {
    explore::det_order(*ctx.pick_of(&[explore::Order::Ascending, explore::Order::Descending]));
    let plan: Vec<(Op, usize)> =
        (0..depth).map(|i| (*ctx.pick_of(ops), if i == 0 { 0 } else { ctx.pick(apart) })).collect();
    // a handshake that lasts for longer than a whole interval is given up, too
    let broken = plan.iter().any(|(op, _)| *op == Op::Cut) || plan.iter().filter(|(op, _)| *op == Op::Tick).count() > 1;
    let Way { fine, fresh, slow } = how;
    // the other host is slow for a while
    let slow = if slow {
        let from = ctx.pick(depth);
        Some((from, from + 1 + ctx.pick(depth - from)))
    } else {
        None
    };
    let retries = 3;
    with_net(ctx, &Opts { retries: retries as u8, ..Opts::default() }, |n| {
        n.env.fine.set(fine);
        let b = Book::default();
        if !fresh {
            // connected from the start
            b.send(n, 0, 1, 0, 20, How::Lazy);
            b.send(n, 1, 0, 0, 20, How::Lazy);
            n.wait_out(4)?;
            b.complete(n, id)?;
        }
        let hurry = Rc::new(Cell::new(false));
        let done = Rc::new(Cell::new(false));
        {
            let (hurry, done, ctx, rt) = (hurry.clone(), done.clone(), ctx.clone(), n.rt.clone());
            // the thread ends before this function does, or is never run again
            let (n, b): (&'static Net, &'static Book) =
                unsafe { (std::mem::transmute::<&Net, &Net>(&*n), std::mem::transmute::<&Book, &Book>(&b)) };
            let plan = plan.clone();
            n.rt.set_home(0);
            rt::spawn("user", move || {
                for (i, (op, after)) in plan.into_iter().enumerate() {
                    let from = rt.runs();
                    if after > 0 {
                        rt::wait_until(|| hurry.get() || rt.runs() >= from + after);
                        hurry.set(false);
                    }
                    match slow {
                        Some((from, _)) if from == i => rt.freeze(Some(1)),
                        Some((_, to)) if to == i => rt.freeze(None),
                        _ => (),
                    }
                    ctx.log(|| format!("-- {op:?}"));
                    match op {
                        Op::Send | Op::Reply => {
                            let a = (op == Op::Reply) as usize;
                            b.send(n, a, 1 - a, 0, 20, How::Lazy);
                        }
                        Op::Close(i) => n.hosts[i].ask(Ask::DisconnectSystem(n.hosts[1 - i].path())),
                        Op::Cut => {
                            for (x, y) in sim::with(|s| s.connections()) {
                                ctx.log(|| format!("#{x}-#{y} breaks"));
                                sim::with(|s| s.break_connection(x, y, |k| k));
                            }
                        }
                        Op::Tick => n.advance(RETRY),
                        _ => n.hosts[0].ask(Ask::ConnectSystem(n.hosts[1].path())),
                    }
                }
                done.set(true);
            });
        }
        n.rt.explore()?;
        while !done.get() {
            // everyone waits for the user
            hurry.set(true);
            n.rt.explore()?;
        }
        n.rt.freeze(None);
        n.rt.explore()?;
        n.wait_out(retries + 2)?;
        n.show();
        b.intact(n, id)?;
        b.increasing(n, id)?;
        for h in &n.hosts {
            grammar(h, retries)?;
        }
        if broken {
            b.all_may_be_lost();
            // no gaps
            b.ordered(n, id)?;
            b.accounted(n, id)?;
        } else {
            for h in &n.hosts {
                ensure!(
                    !h.status().iter().any(|s| matches!(s, S::Lost(..) | S::Dropped(_))),
                    format!("{id}-lost"),
                    "nothing broke, but {} reports {:?}",
                    h.addr,
                    h.status()
                );
            }
            b.complete(n, id)?;
        }
        ctx.outcome(&(b.handled(n), n.hosts[0].status().len(), n.hosts[1].status().len()));
        // it works
        for a in [0, 1] {
            b.send(n, a, 1 - a, 0, 3, How::Lazy);
            n.wait_out(retries + 2)?;
        }
        b.intact(n, id)?;
        b.increasing(n, id)?;
        b.complete(n, id)?;
        let (l0, l1) = (n.hosts[0].live(), n.hosts[1].live());
        let cs = sim::with(|s| s.connections()).len();
        ensure!(
            l0.iter().map(|x| x.1).eq(l1.iter().map(|x| x.1)) && cs == l0.len(),
            format!("{id}-sessions"),
            "{cs} connections, the systems report {l0:?} / {l1:?}"
        );
        Ok(())
    })
}

/// A remote system goes away and comes back.
fn restart(ctx: &Ctx, depth: usize) -> Outcome {
    explore::det_order(*ctx.pick_of(&[explore::Order::Ascending, explore::Order::Descending]));
    let o = Opts::default();
    let kill = ctx.pick(2) == 1;
    // how long it is away
    let away = ctx.pick(4);
    // when host 0 sends: before, at once, while it is away, after
    let sends: Vec<bool> = (0..4).map(|_| ctx.pick(2) == 1).collect();
    let reply = ctx.pick(2) == 1;
    let again = ctx.pick(depth);
    with_net(ctx, &o, |n| {
        let b = Book::default();
        for round in 0..=again {
            if round > 0 {
                n.wait_out(4)?;
            }
            if sends[0] {
                b.send(n, 0, 1, 0, 20, How::Lazy);
            }
            if reply {
                b.send(n, 1, 0, 0, 20, How::Lazy);
            }
            n.rt.explore()?;
            b.complete_from(n, "n03", 0)?;
            let before: Vec<usize> = (0..2).map(|h| n.hosts[h].status().len()).collect();
            let was_live = !n.hosts[0].live().is_empty();
            if sends[1] {
                // may be lost on the way
                b.send(n, 0, 1, 0, 20, How::Lazy);
                b.may_be_lost();
            }
            if kill {
                n.kill(1);
            } else {
                n.shutdown(1);
            }
            n.rt.explore()?;
            if was_live {
                let st = n.hosts[0].status();
                let end = st[before[0]..].iter().find(|s| matches!(s, S::Lost(..) | S::Closed(..)));
                ensure!(end.is_some(), "n03-unnoticed", "host 0 has not noticed that host 1 is gone: {st:?}");
                if !sends[1] {
                    ensure!(
                        matches!(end, Some(S::Lost(..))) == kill,
                        "n03-reported",
                        "host 1 was {}, but host 0 reports {end:?}",
                        if kill { "killed" } else { "shut down" }
                    );
                }
            }
            let mut waiting = None;
            for i in 0..away {
                if i == 0 && sends[2] {
                    waiting = Some((b.send(n, 0, 1, 0, 20, How::Lazy), n.hosts[0].status().len()));
                    n.rt.explore()?;
                }
                n.advance(RETRY);
                n.rt.explore()?;
            }
            n.restart(1, &o)?;
            n.rt.explore()?;
            if sends[3] {
                let at = n.hosts[0].status().len();
                waiting = waiting.or(Some((b.send(n, 0, 1, 0, 20, How::Lazy), at)));
                n.rt.explore()?;
            }
            n.wait_out(4)?;
            if let Some((seq, at)) = waiting {
                let st = n.hosts[0].status();
                let fate = st[at..].iter().find(|s| matches!(s, S::Up(..) | S::Dropped(_)));
                let want = !matches!(fate, Some(S::Dropped(_)));
                let got = n.hosts[1].got().iter().any(|g| matches!(&g.pay, Ok(p) if p.seq == seq));
                ensure!(
                    got == want,
                    if want { "n03-undelivered" } else { "n03-dropped" },
                    "host 0 sent {seq} after {at} reports of {st:?}: it was {}handled",
                    if got { "" } else { "never " }
                );
            }
            b.all_may_be_lost();
            n.show();
            b.intact(n, "n03")?;
            b.increasing(n, "n03")?;
            grammar(&n.hosts[0], 2)?;
            grammar(&n.hosts[1], 2)?;
            let last = b.send(n, 0, 1, 0, 3, How::Lazy);
            n.wait_out(4)?;
            ensure!(
                n.hosts[1].got().iter().any(|g| matches!(&g.pay, Ok(p) if p.seq == last)),
                "n03-dead",
                "host 0 cannot send to the restarted host: {:?} / {:?}",
                n.hosts[0].status(),
                n.hosts[1].status()
            );
        }
        Ok(())
    })
}

/// A remote system is gone without a trace, and comes back: nobody has noticed.
fn unnoticed(ctx: &Ctx, depth: usize) -> Outcome {
    explore::det_order(*ctx.pick_of(&[explore::Order::Ascending, explore::Order::Descending]));
    let o = Opts::default();
    // who has connected, who else has sent
    let first = ctx.pick(2);
    let reply = ctx.pick(2) == 1;
    let away = ctx.pick(3);
    let plan: Vec<Op> = (0..depth).map(|_| *ctx.pick_of(&[Op::Send, Op::Reply, Op::Tick])).collect();
    with_net(ctx, &o, |n| {
        let b = Book::default();
        b.send(n, first, 1 - first, 0, 20, How::Lazy);
        n.rt.settle()?;
        if reply {
            b.send(n, 1 - first, first, 0, 20, How::Lazy);
            n.rt.settle()?;
        }
        b.complete(n, "n03")?;
        let heard = reply || first == 1;
        sim::with(|s| s.unnoticed = true);
        n.kill(1);
        n.rt.settle()?;
        sim::with(|s| s.unnoticed = false);
        for _ in 0..away {
            n.advance(RETRY);
            n.rt.settle()?;
        }
        n.restart(1, &o)?;
        n.rt.settle()?;
        let mut sent = false;
        for op in &plan {
            match op {
                Op::Send => {
                    b.send(n, 0, 1, 0, 20, How::Lazy);
                    b.may_be_lost();
                    sent = true;
                }
                Op::Reply => {
                    b.send(n, 1, 0, 0, 20, How::Lazy);
                    // a connection on which nothing has arrived yet is preferred to a new one
                    if !heard {
                        b.may_be_lost();
                    }
                }
                _ => n.advance(RETRY),
            }
            n.rt.explore()?;
        }
        n.wait_out(5)?;
        n.show();
        b.intact(n, "n03")?;
        b.increasing(n, "n03")?;
        b.complete(n, "n03")?;
        grammar(&n.hosts[0], 2)?;
        grammar(&n.hosts[1], 2)?;
        ctx.outcome(&(b.handled(n), n.hosts[0].status().len(), n.hosts[1].status().len(), sent));
        if !sent && !(heard && plan.contains(&Op::Reply)) {
            // this shows that the connection is gone
            b.send(n, 0, 1, 0, 20, How::Lazy);
            b.may_be_lost();
            n.wait_out(5)?;
        }
        for a in [0, 1, 0] {
            b.send(n, a, 1 - a, 0, 3, How::Lazy);
            n.wait_out(5)?;
        }
        n.show();
        b.intact(n, "n03")?;
        b.increasing(n, "n03")?;
        b.complete(n, "n03")?;
        let (l0, l1) = (n.hosts[0].live(), n.hosts[1].live());
        ensure!(
            l0.iter().map(|x| x.1).eq(l1.iter().map(|x| x.1)),
            "n03-sessions",
            "the systems report {l0:?} / {l1:?}"
        );
        Ok(())
    })
}

/// A connection breaks with messages anywhere on their way, and cannot be made again for so long that
/// the system gives up: what was sent until then is not handled any more, what is sent later is.
fn given_up(ctx: &Ctx) -> Outcome {
    let retries = 1 + ctx.pick(2) as u8;
    let o = Opts { retries, ..Opts::default() };
    let first = ctx.pick(2);
    let (under_way, behind) = (ctx.pick(3), ctx.pick(3));
    // does the dispatcher or the network thread hear of it first
    let steps = if behind > 0 { ctx.pick(8) } else { 0 };
    let at_once = ctx.pick(2) == 1;
    with_net(ctx, &o, |n| {
        let to = n.hosts[1].addr;
        let b = Book::default();
        b.send(n, first, 1 - first, 0, 20, How::Lazy);
        n.rt.settle()?;
        for _ in 0..under_way {
            b.send(n, 0, 1, 0, 20, How::Lazy);
        }
        sim::with(|s| s.at_once = at_once);
        reachable(n, false, false);
        let (hurry, done) = (Rc::new(Cell::new(false)), Rc::new(Cell::new(false)));
        {
            let (hurry, done, rt) = (hurry.clone(), done.clone(), n.rt.clone());
            // the thread ends before this function does, or is never run again
            let (n, b): (&'static Net, &'static Book) =
                unsafe { (std::mem::transmute::<&Net, &Net>(&*n), std::mem::transmute::<&Book, &Book>(&b)) };
            n.rt.set_home(0);
            rt::spawn("user", move || {
                for (x, y) in sim::with(|s| s.connections()) {
                    sim::with(|s| s.break_connection(x, y, |_| 0));
                }
                for _ in 0..behind {
                    let from = rt.runs();
                    rt::wait_until(|| rt.runs() >= from + steps || hurry.get());
                    b.send(n, 0, 1, 0, 20, How::Lazy);
                }
                done.set(true);
            });
        }
        n.rt.explore()?;
        while !done.get() {
            hurry.set(true);
            n.rt.explore()?;
        }
        n.wait_out(retries as usize + 2)?;
        let drops = |n: &Net| n.hosts[0].status().iter().filter(|s| matches!(s, S::Dropped(a) if *a == to)).count();
        ensure!(drops(n) == 1, "n03-dropped", "gave up {} times: {:?}", drops(n), n.hosts[0].status());
        b.all_may_be_lost();
        let old = b.handled(n);
        ctx.outcome(&old);
        reachable(n, true, false);
        sim::with(|s| s.at_once = false);
        n.wait_out(2)?;
        b.send(n, 0, 1, 0, 20, How::Lazy);
        n.wait_out(2)?;
        b.send(n, 1, 0, 0, 20, How::Lazy);
        n.wait_out(2)?;
        n.show();
        b.intact(n, "n03")?;
        b.increasing(n, "n03")?;
        b.complete(n, "n03")?;
        let new = b.handled(n);
        ensure!(drops(n) == 1, "n03-dropped", "gave up {} times: {:?}", drops(n), n.hosts[0].status());
        ensure!(new == old + 2, "n03-dropped", "handled {old:?} before it gave up, {new:?} in the end");
        grammar(&n.hosts[0], 2)?;
        grammar(&n.hosts[1], 2)
    })
}

/// How a connection ends.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum End {
    Cut,
    CutLosing,
    Close(usize),
    Block(usize),
    BlockSystem(usize),
    Shutdown,
    Kill,
    /// it is cut, and cannot be made for a while: attempts fail later, at once, never
    Refused,
    AtOnce,
    Silent,
}
const ENDS: [End; 12] = [
    End::Refused,
    End::AtOnce,
    End::Silent,
    End::Cut,
    End::CutLosing,
    End::Close(0),
    End::Close(1),
    End::Block(0),
    End::Block(1),
    End::BlockSystem(0),
    End::Shutdown,
    End::Kill,
];

/// Connections come and go many times: nothing is used up.
fn churn(ctx: &Ctx, kinds: usize, times: usize) -> Outcome {
    let ends: Vec<End> = (0..kinds).map(|_| *ctx.pick_of(&ENDS)).collect();
    // who sends before, and whether it is still under way
    let sends = ctx.pick(4);
    let under_way = ctx.pick(2) == 1;
    let o = Opts { chunks: 8, ..Opts::default() };
    with_net(ctx, &o, |n| {
        let b = Book::default();
        for i in 0..times {
            for h in 0..2 {
                if sends & (1 << h) != 0 {
                    b.send(n, h, 1 - h, 0, 20, How::Lazy);
                }
            }
            if !under_way {
                n.rt.settle()?;
            }
            let end = ends[i % kinds];
            ctx.log(|| format!("-- {end:?}"));
            match end {
                End::Cut | End::CutLosing => {
                    for (x, y) in sim::with(|s| s.connections()) {
                        sim::with(|s| s.break_connection(x, y, |k| if end == End::Cut { k } else { 0 }));
                    }
                }
                End::Close(i) => n.hosts[i].ask(Ask::DisconnectSystem(n.hosts[1 - i].path())),
                End::Block(i) => {
                    let ip = n.hosts[1 - i].addr.ip();
                    n.hosts[i].ask(Ask::BlockIp(ip));
                    n.rt.settle()?;
                    n.hosts[i].ask(Ask::AllowIp(ip));
                }
                End::BlockSystem(i) => {
                    n.hosts[i].ask(Ask::BlockSystem(n.hosts[1 - i].path()));
                    n.rt.settle()?;
                    n.hosts[i].ask(Ask::AllowSystem(n.hosts[1 - i].path()));
                }
                End::Shutdown => {
                    n.shutdown(1);
                    n.rt.settle()?;
                    n.restart(1, &o)?;
                }
                End::Kill => {
                    n.kill(1);
                    n.rt.settle()?;
                    n.restart(1, &o)?;
                }
                End::Refused | End::AtOnce | End::Silent => {
                    sim::with(|s| s.at_once = end == End::AtOnce);
                    reachable(n, false, end == End::Silent);
                    for (x, y) in sim::with(|s| s.connections()) {
                        sim::with(|s| s.break_connection(x, y, |k| k));
                    }
                    n.rt.settle()?;
                    n.wait_out(1)?;
                    reachable(n, true, end == End::Silent);
                    sim::with(|s| s.at_once = false);
                }
            }
            n.rt.settle()?;
            n.wait_out(1)?;
        }
        n.wait_out(4)?;
        b.all_may_be_lost();
        b.intact(n, "n03")?;
        b.increasing(n, "n03")?;
        for h in 0..2 {
            b.send(n, h, 1 - h, 0, 20, How::Lazy);
            n.wait_out(4)?;
        }
        // others are welcome, too
        for i in 0..4u8 {
            n.add(std::net::SocketAddr::new([10, 0, 0, 10 + i].into(), 1000), &Opts::default())?;
            let h = n.hosts.len() - 1;
            b.send(n, h, 0, 0, 20, How::Lazy);
            n.wait_out(1)?;
            b.send(n, 0, h, 0, 20, How::Lazy);
            n.wait_out(1)?;
        }
        n.show();
        for h in &n.hosts {
            ensure!(!h.status().contains(&S::Failure), "n03-failure", "the network of {} failed: {:?}", h.addr, h.status());
        }
        b.intact(n, "n03")?;
        b.complete(n, "n03")
    })
}

/// A connection ends while it does not take any more data.
fn stalled(ctx: &Ctx, most: usize) -> Outcome {
    let first = ctx.pick(2);
    let sends = 1 + ctx.pick(most);
    let space = *ctx.pick_of(&[0, 5, 60, 130, 260]);
    let ends = [vec![End::Cut], vec![End::CutLosing], vec![End::Close(0)], vec![End::Close(1)], vec![End::Close(0), End::Close(1)], vec![End::Close(1), End::Close(0)], vec![End::Shutdown], vec![End::Kill], vec![End::Block(0)], vec![End::Block(1)], vec![End::BlockSystem(0)]];
    let end = ctx.pick_of(&ends).clone();
    // whether the end is noticed before there is space again
    let early = ctx.pick(2) == 1;
    let later = ctx.pick(2) == 1;
    let reply = ctx.pick(2) == 1;
    let o = Opts::default();
    with_net(ctx, &o, |n| {
        let b = Book::default();
        b.send(n, first, 1 - first, 0, 20, How::Lazy);
        n.rt.settle()?;
        b.complete(n, "n03")?;
        let (x, y) = sim::with(|s| s.connections())[0];
        let fd = if sim::with(|s| s.fds[x].local.ip()) == n.hosts[0].addr.ip() { x } else { y };
        sim::with(|s| s.stall(fd, space));
        for _ in 0..sends {
            b.send(n, 0, 1, 0, 20, How::Lazy);
        }
        n.rt.settle()?;
        let mut graceful = true;
        let mut blocked = false;
        if early {
            sim::with(|s| s.flow(fd));
        }
        for e in &end {
            match e {
                End::Cut | End::CutLosing => {
                    graceful = false;
                    sim::with(|s| s.break_connection(x, y, |k| if *e == End::Cut { k } else { 0 }));
                }
                End::Close(i) => n.hosts[*i].ask(Ask::DisconnectSystem(n.hosts[1 - *i].path())),
                End::Block(i) => {
                    blocked = true;
                    let ip = n.hosts[1 - *i].addr.ip();
                    n.hosts[*i].ask(Ask::BlockIp(ip));
                }
                End::BlockSystem(i) => {
                    blocked = true;
                    n.hosts[*i].ask(Ask::BlockSystem(n.hosts[1 - *i].path()));
                }
                End::Shutdown => {
                    graceful = false;
                    n.shutdown(1)
                }
                _ => {
                    graceful = false;
                    n.kill(1)
                }
            }
        }
        n.rt.explore()?;
        if reply && end != [End::Shutdown] && end != [End::Kill] {
            b.send(n, 1, 0, 0, 20, How::Lazy);
        }
        if later {
            b.send(n, 0, 1, 0, 20, How::Lazy);
        }
        n.rt.explore()?;
        sim::with(|s| s.flow(fd));
        n.rt.explore()?;
        if end == [End::Shutdown] || end == [End::Kill] {
            n.restart(1, &o)?;
        }
        for e in &end {
            match e {
                End::Block(i) => {
                    let ip = n.hosts[1 - *i].addr.ip();
                    n.hosts[*i].ask(Ask::AllowIp(ip));
                }
                End::BlockSystem(i) => n.hosts[*i].ask(Ask::AllowSystem(n.hosts[1 - *i].path())),
                _ => (),
            }
        }
        n.wait_out(4)?;
        n.show();
        b.intact(n, "n03")?;
        b.increasing(n, "n03")?;
        if !blocked {
            b.accounted(n, "n03")?;
            for h in &n.hosts {
                grammar(h, 2)?;
            }
        }
        if graceful && !blocked {
            b.complete(n, "n03")?;
        }
        ctx.outcome(&(b.handled(n), n.hosts[0].status().len(), n.hosts[1].status().len()));
        b.all_may_be_lost();
        for h in 0..2 {
            b.send(n, h, 1 - h, 0, 3, How::Lazy);
            n.wait_out(4)?;
        }
        b.complete(n, "n03")
    })
}

/// Reports make sense, in their order.
fn grammar(h: &Host, _retries: usize) -> Outcome {
    let st = h.status();
    let mut live: Vec<(std::net::SocketAddr, u128)> = vec![];
    let mut ids = vec![];
    for s in &st {
        match s {
            S::Up(a, id) => {
                ensure!(
                    live.iter().all(|x| x.0 != *a),
                    "n03-status",
                    "{} reports a second connection to {a}: {st:?}",
                    h.addr
                );
                ensure!(!ids.contains(id), "n03-status", "{} reports the session {id} again: {st:?}", h.addr);
                ids.push(*id);
                live.push((*a, *id));
            }
            S::Lost(a, id) | S::Closed(a, id) => {
                let k = live.len();
                live.retain(|x| *x != (*a, *id));
                ensure!(live.len() < k, "n03-status", "{} reports the end of {id}, which is not live: {st:?}", h.addr);
            }
            S::Dropped(a) => {
                ensure!(
                    live.iter().all(|x| x.0 != *a),
                    "n03-status",
                    "{} gives up on {a}, to which it has a connection: {st:?}",
                    h.addr
                );
            }
            _ => (),
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "N03",
        level: "model_checking",
        rule: "one execution is one history of sends, ticks, (un)reachability, breaks, close and connect requests, kills and restarts, in one order of the threads involved",
        assumptions: vec![
            "sockets behave as simulated: edge-triggered readiness, ordered reliable streams until they break, unreliable datagrams".into(),
            "thread switches happen where threads wait, and at socket operations where noted".into(),
        ],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("refused", t.or(0, 1), move |ctx| refused(ctx, t.or(5, 7))),
                Scenario::new("refused-orders", t.or(1, 2), move |ctx| refused(ctx, t.or(2, 3))),
                Scenario::new("lost", t.or(0, 1), move |ctx| {
                    history(ctx, t.or(5, 7), &[Op::Send, Op::Reply, Op::Tick, Op::Toggle, Op::Cut])
                }),
                Scenario::new("closed", t.or(0, 1), move |ctx| {
                    history(ctx, t.or(5, 7), &[Op::Send, Op::Reply, Op::Close(0), Op::Close(1), Op::Connect])
                }),
                Scenario::new("orders", t.or(1, 2), move |ctx| {
                    history(
                        ctx,
                        3,
                        &[Op::Send, Op::Reply, Op::Tick, Op::Toggle, Op::Cut, Op::Close(0), Op::Close(1), Op::Connect],
                    )
                }),
                Scenario::new("overlapping", t.or(1, 2), move |ctx| overlapping(ctx, t.or(3, 3), false)).weight(2),
                Scenario::new("overlapping-partial", t.or(2, 2), move |ctx| overlapping(ctx, t.or(2, 3), true)).weight(3),
                Scenario::new("overlapping-long", 0, move |ctx| overlapping(ctx, t.or(4, 5), false)),
                Scenario::new("meanwhile", t.or(0, 1), move |ctx| {
                    meanwhile(ctx, "n03", 3, t.or(12, 24), &[Op::Send, Op::Reply, Op::Close(0), Op::Close(1)], Way::default())
                }),
                Scenario::new("meanwhile-slow", t.or(0, 1), move |ctx| {
                    let slow = Way { slow: true, ..Way::default() };
                    meanwhile(ctx, "n03", t.or(3, 4), t.or(6, 8), &[Op::Send, Op::Reply, Op::Close(0), Op::Tick, Op::Cut], slow)
                }),
                Scenario::new("meanwhile-cut", t.or(0, 1), move |ctx| {
                    meanwhile(ctx, "n03", 3, t.or(10, 24), &[Op::Send, Op::Reply, Op::Cut, Op::Close(0), Op::Tick], Way::default())
                }),
                Scenario::new("meanwhile-fine", t.or(1, 2), move |ctx| {
                    meanwhile(ctx, "n03", 3, t.or(5, 16), &[Op::Send, Op::Cut, Op::Close(0)], Way { fine: true, ..Way::default() })
                }),
                Scenario::new("restart", t.or(1, 2), move |ctx| restart(ctx, t.or(1, 2))),
                Scenario::new("unnoticed", t.or(1, 2), move |ctx| unnoticed(ctx, t.or(3, 4))),
                Scenario::new("given-up", t.or(1, 2), given_up),
                Scenario::new("stalled", t.or(1, 2), move |ctx| stalled(ctx, t.or(2, 3))),
                Scenario::new("churn", 0, move |ctx| churn(ctx, t.or(2, 3), t.or(12, 24))),
                Scenario::new("mixed", t.or(0, 0), move |ctx| {
                    history(
                        ctx,
                        t.or(4, 6),
                        &[Op::Send, Op::Reply, Op::Tick, Op::Toggle, Op::Cut, Op::Close(0), Op::Close(1), Op::Connect],
                    )
                }),
            ]
        }),
    }]
}
