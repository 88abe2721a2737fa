//! The numbers of connections are limited.
use crate::{net::*, oracle::Book};
use explore::{Check, Ctx, Outcome, Scenario, ensure};
use kompact_net::NetworkStatusRequest as Ask;
use mio::sim;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    /// host 0 sends to this host
    To(usize),
    /// this host sends to host 0
    From(usize),
    /// host 0 asks for the connection to be closed
    Close(usize),
    /// host 0 asks for a connection
    Connect(usize),
    /// the connection breaks
    Cut(usize),
}
fn menu(others: usize, more: bool) -> Vec<Op> {
    let mut l = vec![];
    for i in 1..=others {
        l.extend([Op::To(i), Op::From(i)]);
        if more {
            l.extend([Op::Close(i), Op::Connect(i), Op::Cut(i)]);
        }
    }
    l
}
const ADDRS: [&str; 5] = ["10.0.0.1:1000", "10.0.0.2:2000", "10.0.0.3:3000", "10.0.0.4:4000", "10.0.0.5:5000"];

/// Only host 0 has limits.
fn net(ctx: &Ctx, soft: u32, hard: u32, others: usize, f: impl FnOnce(&mut Net) -> Outcome) -> Outcome {
    let o = Opts { addrs: vec![ADDRS[0]], soft, hard, ..Opts::default() };
    with_net(ctx, &o, |n| {
        for a in &ADDRS[1..=others] {
            n.add(a.parse().unwrap(), &Opts::default())?;
        }
        f(n)
    })
}
/// The hosts that host 0 has connections to.
fn peers(n: &Net) -> Vec<usize> {
    let mut l: Vec<usize> =
        n.hosts[0].live().iter().map(|(a, _)| n.hosts.iter().position(|h| h.addr == *a).unwrap()).collect();
    l.sort();
    l
}
fn apply(n: &Net, b: &Book, op: Op) -> Option<u32> {
    match op {
        Op::To(i) => Some(b.send(n, 0, i, 0, 20, How::Lazy)),
        Op::From(i) => Some(b.send(n, i, 0, 0, 20, How::Eager)),
        Op::Close(i) => {
            n.hosts[0].ask(Ask::DisconnectSystem(n.hosts[i].path()));
            None
        }
        Op::Connect(i) => {
            n.hosts[0].ask(Ask::ConnectSystem(n.hosts[i].path()));
            None
        }
        Op::Cut(i) => {
            let ip = n.hosts[i].addr.ip();
            let cs = sim::with(|s| {
                let mut l = s.connections();
                l.retain(|(a, b)| [*a, *b].iter().any(|x| s.fds[*x].local.ip() == ip));
                l
            });
            for (x, y) in cs {
                sim::with(|s| s.break_connection(x, y, |k| k));
            }
            None
        }
    }
}
fn no_failure(n: &Net) -> Outcome {
    for h in &n.hosts {
        ensure!(!h.status().contains(&S::Failure), "n07-failure", "the network of {} failed: {:?}", h.addr, h.status());
    }
    Ok(())
}
fn consistent(n: &Net, after: &str) -> Outcome {
    let cs = sim::with(|s| s.connections()).len();
    let l = n.hosts[0].live();
    ensure!(cs == l.len(), "n07-status", "{after}: {cs} connections, but reported {l:?}");
    for (a, id) in &l {
        let h = n.hosts.iter().find(|h| h.addr == *a).unwrap();
        ensure!(
            h.live().iter().any(|x| x.1 == *id),
            "n07-status",
            "{after}: host 0 reports {a} as connected, which reports {:?}",
            h.live()
        );
    }
    for h in &n.hosts[1..] {
        ensure!(
            h.live().iter().all(|(_, id)| l.iter().any(|x| x.1 == *id)),
            "n07-status",
            "{after}: {} reports {:?}, host 0 {l:?}",
            h.addr,
            h.live()
        );
    }
    Ok(())
}

/// With too many connections the one not used for the longest time is closed.
fn soft(ctx: &Ctx, depth: usize, others: usize) -> Outcome {
    let limit = 1 + ctx.pick(others - 1);
    let m = menu(others, false);
    let plan: Vec<Op> = (0..depth).map(|_| *ctx.pick_of(&m)).collect();
    net(ctx, limit as u32, 100, others, |n| {
        let b = Book::default();
        // the least recently used one first
        let mut live: Vec<usize> = vec![];
        let mut closed = 0;
        for op in &plan {
            let (Op::To(i) | Op::From(i)) = *op else { unreachable!() };
            apply(n, &b, *op);
            n.rt.settle()?;
            live.retain(|x| *x != i);
            live.push(i);
            if live.len() > limit {
                closed += 1;
                live.remove(0);
            }
            let mut want = live.clone();
            want.sort();
            let have = peers(n);
            ensure!(
                want == have,
                "n07-lru",
                "after {op:?} of {plan:?} with limit {limit}: connected to {have:?}, but {live:?} were used last"
            );
            consistent(n, &format!("after {op:?} of {plan:?}"))?;
            b.complete(n, "n07")?;
        }
        n.show();
        ctx.outcome(&(limit, closed));
        let st = n.hosts[0].status();
        let told = st.iter().filter(|s| **s == S::Limit("soft")).count();
        let ended = st.iter().filter(|s| matches!(s, S::Closed(..))).count();
        ensure!(told == closed && ended == closed, "n07-told", "{closed} connections too many: {st:?}");
        ensure!(
            !n.hosts.iter().any(|h| h.status().iter().any(|s| matches!(s, S::Lost(..) | S::Dropped(_)))),
            "n07-lost",
            "nothing broke: {st:?}"
        );
        no_failure(n)?;
        b.intact(n, "n07")?;
        b.increasing(n, "n07")
    })
}

/// The same, with overlapping requests.
fn soft_overlapping(ctx: &Ctx, depth: usize, others: usize, more: bool) -> Outcome {
    explore::det_order(*ctx.pick_of(&[explore::Order::Ascending, explore::Order::Descending]));
    let limit = 1 + ctx.pick(others - 1);
    let m = menu(others, more);
    let plan: Vec<(Op, bool)> = (0..depth).map(|_| (*ctx.pick_of(&m), ctx.pick(2) == 1)).collect();
    net(ctx, limit as u32, 100, others, |n| {
        let b = Book::default();
        let mut cuts = false;
        for (op, wait) in &plan {
            if matches!(op, Op::Cut(_)) {
                cuts = true;
                // what is under way may get lost
                b.all_may_be_lost();
            }
            apply(n, &b, *op);
            if *wait {
                n.rt.explore()?;
            }
        }
        n.rt.explore()?;
        n.wait_out(5)?;
        n.show();
        no_failure(n)?;
        let have = peers(n);
        ctx.outcome(&have);
        ensure!(have.len() <= limit, "n07-limit", "the limit is {limit}, connected to {have:?}: {:?}", n.hosts[0].status());
        consistent(n, "in the end")?;
        b.intact(n, "n07")?;
        b.increasing(n, "n07")?;
        b.complete(n, "n07")?;
        ensure!(
            cuts || !n.hosts.iter().any(|h| h.status().iter().any(|s| matches!(s, S::Lost(..) | S::Dropped(_)))),
            "n07-lost",
            "nothing broke: {:?}",
            n.hosts.iter().map(|h| h.status()).collect::<Vec<_>>()
        );
        Ok(())
    })
}

/// No more connections than this.
fn hard(ctx: &Ctx, depth: usize, others: usize) -> Outcome {
    let limit = 1 + ctx.pick(others - 1);
    let m = menu(others, true);
    let plan: Vec<Op> = (0..depth).map(|_| *ctx.pick_of(&m)).collect();
    net(ctx, 100, limit as u32, others, |n| {
        let b = Book::default();
        let mut live: Vec<usize> = vec![];
        for op in &plan {
            let before = n.hosts[0].status().len();
            let seq = apply(n, &b, *op);
            n.rt.settle()?;
            n.wait_out(4)?;
            let st = n.hosts[0].status()[before..].to_vec();
            let told = st.contains(&S::Limit("hard"));
            match *op {
                Op::Close(i) => live.retain(|x| *x != i),
                // is established again
                Op::Cut(_) => (),
                Op::To(i) | Op::From(i) | Op::Connect(i) => {
                    let ok = live.contains(&i) || live.len() < limit;
                    ensure!(ok || told, "n07-told", "{op:?} of {plan:?} with limit {limit} was not possible: {st:?}");
                    if ok && !live.contains(&i) {
                        live.push(i);
                    }
                    let to = if matches!(op, Op::From(_)) { 0 } else { i };
                    if let Some(seq) = seq {
                        let got = n.hosts[to].got().iter().any(|g| matches!(&g.pay, Ok(p) if p.seq == seq));
                        ensure!(
                            got == ok,
                            if ok { "n07-lost" } else { "n07-limit" },
                            "{op:?} of {plan:?} with limit {limit} should {}be possible, it was {}handled",
                            if ok { "" } else { "not " },
                            if got { "" } else { "not " }
                        );
                        let me = if matches!(op, Op::From(_)) { i } else { 0 };
                        ensure!(
                            ok || n.hosts[me].status().iter().any(|s| matches!(s, S::Dropped(_))),
                            "n07-told",
                            "{op:?} of {plan:?} with limit {limit} was not possible: {:?}",
                            n.hosts[me].status()
                        );
                    }
                }
            }
            live.sort();
            let have = peers(n);
            ensure!(live == have, "n07-limit", "after {op:?} of {plan:?} with limit {limit}: {have:?} instead of {live:?}");
            consistent(n, &format!("after {op:?} of {plan:?}"))?;
        }
        n.show();
        ctx.outcome(&live);
        no_failure(n)?;
        b.intact(n, "n07")?;
        b.increasing(n, "n07")
    })
}

/// Connections are requested at the same time.
fn hard_overlapping(ctx: &Ctx, depth: usize, others: usize) -> Outcome {
    explore::det_order(*ctx.pick_of(&[explore::Order::Ascending, explore::Order::Descending]));
    let limit = 1 + ctx.pick(others - 1);
    let soft = if ctx.pick(2) == 1 { limit - 1 } else { 100 };
    if soft == 0 {
        return Ok(());
    }
    let m = menu(others, true);
    let plan: Vec<(Op, bool)> = (0..depth).map(|_| (*ctx.pick_of(&m), ctx.pick(2) == 1)).collect();
    net(ctx, soft as u32, limit as u32, others, |n| {
        let b = Book::default();
        for (op, wait) in &plan {
            apply(n, &b, *op);
            if *wait {
                n.rt.explore()?;
                let c = peers(n).len();
                ensure!(c <= limit, "n07-limit", "after {op:?} of {plan:?}: {c} connections: {:?}", n.hosts[0].status());
            }
        }
        n.rt.explore()?;
        n.wait_out(5)?;
        n.show();
        no_failure(n)?;
        let have = peers(n);
        ctx.outcome(&have);
        ensure!(have.len() <= limit.min(soft), "n07-limit", "limits {soft}, {limit}, connected to {have:?}: {:?}", n.hosts[0].status());
        consistent(n, "in the end")?;
        b.intact(n, "n07")?;
        b.increasing(n, "n07")?;
        b.all_may_be_lost();
        // once there is space again everybody can connect
        for i in have {
            apply(n, &b, Op::Close(i));
        }
        n.wait_out(1)?;
        for i in 1..=others {
            let seq = apply(n, &b, if i % 2 == 0 { Op::To(i) } else { Op::From(i) });
            n.wait_out(1)?;
            apply(n, &b, Op::Close(i));
            n.wait_out(1)?;
            b.complete_from(n, "n07", seq.unwrap())?;
        }
        ensure!(peers(n).is_empty(), "n07-limit", "everything was closed: {:?}", n.hosts[0].status());
        b.intact(n, "n07")?;
        b.increasing(n, "n07")
    })
}

/// The connection that is to be closed does not take any more data for now.
fn soft_stalled(ctx: &Ctx, most: usize) -> Outcome {
    let first = *ctx.pick_of(&[Op::To(1), Op::From(1)]);
    // who cannot send, and how much nevertheless
    let who = ctx.pick(2);
    let space = *ctx.pick_of(&[0, 5, 130]);
    let sends = 1 + ctx.pick(most);
    let exceed = *ctx.pick_of(&[Op::To(2), Op::From(2)]);
    let more: Vec<Option<Op>> =
        (0..2).map(|_| *ctx.pick_of(&[None, Some(Op::To(1)), Some(Op::From(1)), Some(Op::Close(1))])).collect();
    net(ctx, 1, 100, 2, |n| {
        let b = Book::default();
        apply(n, &b, first);
        n.rt.settle()?;
        let (x, y) = sim::with(|s| s.connections())[0];
        let fd = if sim::with(|s| s.fds[x].local.ip()) == n.hosts[who].addr.ip() { x } else { y };
        sim::with(|s| s.stall(fd, space));
        for _ in 0..sends {
            apply(n, &b, if who == 0 { Op::To(1) } else { Op::From(1) });
        }
        n.rt.settle()?;
        apply(n, &b, exceed);
        n.rt.explore()?;
        for op in more.iter().flatten() {
            apply(n, &b, *op);
            n.rt.explore()?;
        }
        sim::with(|s| s.flow(fd));
        n.rt.explore()?;
        n.wait_out(4)?;
        n.show();
        no_failure(n)?;
        b.intact(n, "n07")?;
        b.increasing(n, "n07")?;
        b.complete(n, "n07")?;
        consistent(n, "in the end")?;
        ensure!(peers(n).len() <= 1, "n07-limit", "connections to {:?} are left", peers(n));
        ctx.outcome(&(n.hosts[0].status().len(), peers(n)));
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "N07",
        level: "model_checking",
        rule: "one execution is one sequence of sends, breaks, close and connect requests among several systems, one of which has limits, in one order of the threads involved",
        assumptions: vec![
            "sockets behave as simulated: edge-triggered readiness, ordered reliable streams until they break, unreliable datagrams".into(),
            "thread switches happen where threads wait, and at socket operations where noted".into(),
        ],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("soft", 0, move |ctx| soft(ctx, t.or(5, 6), 3)),
                Scenario::new("soft-overlapping", 1, move |ctx| soft_overlapping(ctx, t.or(2, 3), 3, false)).weight(2),
                Scenario::new("soft-stalled", t.or(1, 2), move |ctx| soft_stalled(ctx, t.or(2, 3))),
                Scenario::new("soft-long", 0, move |ctx| soft_overlapping(ctx, t.or(3, 4), 3, false)),
                Scenario::new("soft-mixed", 0, move |ctx| soft_overlapping(ctx, t.or(3, 4), t.or(2, 3), true)),
                Scenario::new("hard", 0, move |ctx| hard(ctx, t.or(3, 4), 3)),
                Scenario::new("hard-overlapping", t.or(0, 1), move |ctx| hard_overlapping(ctx, 2, 3)).weight(2),
                Scenario::new("hard-long", 0, move |ctx| hard_overlapping(ctx, 3, t.or(2, 3))).weight(2),
            ]
        }),
    }]
}
