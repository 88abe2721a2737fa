use crate::{
    life::{Op, Way, meanwhile},
    net::*,
    oracle::Book,
};
use explore::{Check, Ctx, Outcome, Scenario, ensure};
use mio::sim;

/// Messages of every size and kind, over buffers of several sizes.
fn plans(ctx: &Ctx, depth: usize) -> Outcome {
    let o = Opts {
        chunk: *ctx.pick_of(&[128, 200, 512]),
        ..Opts::default()
    };
    let k = 1 + ctx.pick(depth);
    let plan: Vec<(How, u32)> = (0..k)
        .map(|_| (*ctx.pick_of(&HOWS), *ctx.pick_of(&[0, 50, 150, 900])))
        .collect();
    with_net(ctx, &o, |n| {
        let b = Book::default();
        for (how, len) in &plan {
            b.send(n, 0, 1, 0, *len, *how);
        }
        n.rt.explore()?;
        n.show();
        b.intact(n, "n01")?;
        b.ordered(n, "n01")?;
        b.complete(n, "n01")
    })
}

/// Sockets that read and write as they like.
fn partial(ctx: &Ctx, writes: bool, reads: bool) -> Outcome {
    let o = Opts {
        chunk: *ctx.pick_of(&[128, 512]),
        sim: sim::Options {
            short_reads: reads,
            short_writes: writes,
            interrupts: true,
            ..Default::default()
        },
        ..Opts::default()
    };
    let plan = *ctx.pick_of(&[
        &[(How::Lazy, 0), (How::Lazy, 50)][..],
        &[(How::Eager, 300), (How::Lazy, 10)],
        &[(How::Pre, 300), (How::Eager, 10)],
    ]);
    with_net(ctx, &o, |n| {
        let b = Book::default();
        for (how, len) in plan {
            b.send(n, 0, 1, 0, *len, *how);
        }
        n.rt.explore()?;
        n.show();
        b.intact(n, "n01")?;
        b.ordered(n, "n01")?;
        b.complete(n, "n01")
    })
}

/// Both directions, several receivers, one after the other.
fn both_ways(ctx: &Ctx) -> Outcome {
    let o = Opts { sinks: 2, ..Opts::default() };
    with_net(ctx, &o, |n| {
        let b = Book::default();
        for round in 0..2 {
            for (from, sink) in [(0, 0), (1, 1), (0, 1), (1, 0)] {
                if round > 0 || ctx.pick(2) == 1 {
                    b.send(n, from, 1 - from, sink, 20, if sink == 0 { How::Lazy } else { How::Eager });
                }
            }
            n.rt.explore()?;
        }
        // the merging of simultaneous connections may have to be retried
        n.wait_out(4)?;
        n.show();
        b.intact(n, "n01")?;
        b.ordered(n, "n01")?;
        b.complete(n, "n01")
    })
}

/// Connections break at any operation.
fn breaks(ctx: &Ctx, faults: usize, partial: bool) -> Outcome {
    let o = Opts {
        sim: sim::Options { short_writes: partial, ..Default::default() },
        ..Opts::default()
    };
    let hows = *ctx.pick_of(&[[How::Lazy; 4], [How::Eager; 4]]);
    with_net(ctx, &o, |n| {
        *n.env.faults.borrow_mut() = vec![Fault::Break, Fault::BreakLosing];
        n.env.left.set(faults);
        let b = Book::default();
        b.send(n, 0, 1, 0, 30, hows[0]);
        b.send(n, 0, 1, 0, 60, hows[1]);
        n.rt.explore()?;
        b.send(n, 0, 1, 0, 20, hows[2]);
        n.rt.explore()?;
        n.advance(RETRY);
        n.rt.explore()?;
        b.send(n, 0, 1, 0, 40, hows[3]);
        n.rt.explore()?;
        n.wait_out(4)?;
        n.show();
        ctx.outcome(&b.handled(n));
        b.intact(n, "n01")?;
        b.ordered(n, "n01")?;
        if n.env.happened.get() == 0 {
            b.complete(n, "n01")?;
        }
        b.accounted(n, "n01")?;
        // what is sent once everything works again arrives
        let before = b.handled(n);
        b.send(n, 0, 1, 0, 5, How::Lazy);
        n.wait_out(5)?;
        b.send(n, 0, 1, 0, 6, How::Lazy);
        n.wait_out(5)?;
        n.show();
        b.intact(n, "n01")?;
        b.ordered(n, "n01")?;
        let _ = before;
        let last = n.hosts[1].got().last().map(|g| g.pay.clone().unwrap().seq);
        ensure!(last == Some(5), "n01-dead", "the connection does not work again: {:?}", n.hosts[0].status());
        Ok(())
    })
}

/// There are fewer buffers than there is to send. What cannot be sent is dropped, nothing else.
fn starved(ctx: &Ctx) -> Outcome {
    let o = Opts {
        chunks: 3 + ctx.pick(2),
        chunk: 128,
        addrs: vec!["10.0.0.1:1000"],
        ..Opts::default()
    };
    let k = 1 + ctx.pick(6);
    let len = *ctx.pick_of(&[20, 90]);
    with_net(ctx, &o, |n| {
        n.add("10.0.0.2:2000".parse().unwrap(), &Opts { chunk: 128, ..Opts::default() })?;
        let b = Book::default();
        b.send(n, 0, 1, 0, 1, How::Lazy);
        n.rt.explore()?;
        for _ in 0..k {
            b.send(n, 0, 1, 0, len, How::Lazy);
        }
        n.rt.explore()?;
        n.wait_out(1)?;
        for _ in 0..2 {
            let seq = b.send(n, 0, 1, 0, 3, How::Lazy);
            n.rt.explore()?;
            let last = n.hosts[1].got().last().map(|g| g.pay.clone().unwrap().seq);
            ensure!(
                last == Some(seq),
                "n01-slow",
                "there are buffers again, but the last message handled is {last:?} instead of {seq}"
            );
        }
        n.show();
        b.intact(n, "n01")?;
        b.increasing(n, "n01")?;
        ctx.outcome(&b.handled(n));
        Ok(())
    })
}

/// The receiver keeps what it receives, until it has no space for more.
fn hoarded(ctx: &Ctx) -> Outcome {
    let chunks = *ctx.pick_of(&[3, 4, 6]);
    let retries = 1 + ctx.pick(2);
    let lens = *ctx.pick_of(&[[20, 20], [90, 20], [20, 300], [90, 90]]);
    let k = *ctx.pick_of(&[1, 3, 6, 8]);
    let wait = *ctx.pick_of(&[0, 1, 3]);
    let step = ctx.pick(2) == 1;
    let o = Opts { retries: retries as u8, ..Opts::default() };
    with_net(ctx, &Opts { addrs: vec!["10.0.0.1:1000"], ..o }, |n| {
        n.add("10.0.0.2:2000".parse().unwrap(), &Opts { chunk: 128, chunks, retries: retries as u8, ..Opts::default() })?;
        let b = Book::default();
        n.hosts[1].keep();
        for i in 0..k {
            b.send(n, 0, 1, 0, lens[i % 2], How::Lazy);
            if step {
                n.rt.explore()?;
            }
        }
        n.rt.explore()?;
        for _ in 0..wait {
            n.advance(RETRY);
            n.rt.explore()?;
        }
        ctx.outcome(&n.hosts[1].kept());
        n.hosts[1].release();
        n.wait_out(4)?;
        b.intact(n, "n01")?;
        b.increasing(n, "n01")?;
        if !n.hosts.iter().any(|h| h.status().iter().any(|s| matches!(s, S::Lost(..) | S::Dropped(_)))) {
            b.complete(n, "n01")?;
            b.ordered(n, "n01")?;
        }
        ctx.outcome(&(b.handled(n), n.hosts[0].status().len(), n.hosts[1].status().len()));
        for x in [0, 1] {
            let seq = b.send(n, x, 1 - x, 0, 90, How::Lazy);
            n.wait_out(4)?;
            ensure!(
                n.hosts[1 - x].got().iter().any(|g| matches!(&g.pay, Ok(p) if p.seq == seq)),
                "n01-dead",
                "there is space again, but host {x} cannot send: {:?} / {:?}",
                n.hosts[0].status(),
                n.hosts[1].status()
            );
        }
        b.intact(n, "n01")
    })
}

/// Two systems connect to each other.
fn mutual(ctx: &Ctx, fine: bool) -> Outcome {
    let o = Opts::default();
    explore::det_order(*ctx.pick_of(&[
        explore::Order::Ascending,
        explore::Order::Descending,
        explore::Order::Alternating,
    ]));
    let (mine, theirs) = *ctx.pick_of(&[(1, 1), (2, 1), (1, 2)]);
    let later = ctx.pick(2) == 1;
    with_net(ctx, &o, |n| {
        n.env.fine.set(fine);
        let b = Book::default();
        for _ in 0..mine {
            b.send(n, 0, 1, 0, 10, How::Lazy);
        }
        for _ in 0..theirs {
            b.send(n, 1, 0, 0, 12, How::Lazy);
        }
        n.rt.explore()?;
        if later {
            // during the retries, if any
            b.send(n, 0, 1, 0, 10, How::Lazy);
            b.send(n, 1, 0, 0, 10, How::Lazy);
            n.advance(RETRY);
            n.rt.explore()?;
        }
        n.wait_out(4)?;
        n.show();
        b.intact(n, "n02")?;
        b.increasing(n, "n02")?;
        b.complete(n, "n02")?;
        one_channel(n)?;
        // in use, in both directions
        b.send(n, 0, 1, 0, 10, How::Lazy);
        b.send(n, 1, 0, 0, 10, How::Lazy);
        n.rt.settle()?;
        b.intact(n, "n02")?;
        b.increasing(n, "n02")?;
        b.complete(n, "n02")?;
        one_channel(n)
    })
}
fn one_channel(n: &Net) -> Outcome {
    for h in &n.hosts {
        ensure!(
            !h.status().iter().any(|s| matches!(s, S::Lost(..) | S::Closed(..) | S::Dropped(_))),
            "n02-lost",
            "nothing broke, but {} reports {:?}",
            h.addr,
            h.status()
        );
    }
    let cs = sim::with(|s| s.connections());
    n.ctx.outcome(&(cs.len(), n.hosts[0].status().len(), n.hosts[1].status().len()));
    ensure!(
        cs.len() == 1,
        "n02-channels",
        "{} connections between the two systems: {cs:?}; {:?} / {:?}",
        cs.len(),
        n.hosts[0].status(),
        n.hosts[1].status()
    );
    for h in &n.hosts {
        let live = h.live();
        ensure!(live.len() == 1, "n02-status", "{} has reported sessions {live:?} as live: {:?}", h.addr, h.status());
    }
    let (a, b) = (n.hosts[0].live()[0].1, n.hosts[1].live()[0].1);
    ensure!(a == b, "n02-session", "the two systems use different sessions: {a} and {b}");
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "N01",
        level: "model_checking",
        rule: "one execution is one plan of sends on connected hosts with one placement of partial reads and writes, would-blocks, interrupts, breaks, exhausted buffers and one order of the threads involved",
        assumptions: vec![
            "sockets behave as simulated: edge-triggered readiness, ordered reliable streams until they break, unreliable datagrams".into(),
            "thread switches happen where threads wait, and at socket operations where noted".into(),
        ],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("plans", t.or(0, 1), move |ctx| plans(ctx, t.or(2, 3))),
                Scenario::new("plans-orders", t.or(1, 2), move |ctx| plans(ctx, t.or(1, 2))),
                Scenario::new("short-writes", t.or(2, 3), |ctx| partial(ctx, true, false)),
                Scenario::new("short-reads", t.or(2, 3), |ctx| partial(ctx, false, true)),
                Scenario::new("both-ways", t.or(1, 2), both_ways),
                Scenario::new("starved", t.or(1, 2), starved),
                Scenario::new("hoarded", t.or(1, 2), hoarded),
                Scenario::new("break", t.or(2, 3), |ctx| breaks(ctx, 1, false)),
                Scenario::new("break-partial", t.or(2, 3), |ctx| breaks(ctx, 1, true)),
                Scenario::new("break-twice", t.or(2, 3), |ctx| breaks(ctx, 2, false)),
            ]
        }),
    },
    Check {
        id: "N02",
        level: "model_checking",
        rule: "one execution is one order of the steps of up to two simultaneous handshakes with sends queued by either side, for one order of session identifiers",
        assumptions: vec![
            "sockets behave as simulated: edge-triggered readiness, ordered reliable streams until they break, unreliable datagrams".into(),
            "thread switches happen where threads wait, and at socket operations where noted".into(),
        ],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("mutual", t.or(2, 4), |ctx| mutual(ctx, false)),
                Scenario::new("mutual-fine", t.or(1, 3), |ctx| mutual(ctx, true)),
                Scenario::new("meanwhile", t.or(1, 2), move |ctx| {
                    meanwhile(ctx, "n02", 3, t.or(6, 12), &[Op::Send, Op::Reply, Op::Tick], Way { fresh: true, ..Way::default() })
                }),
            ]
        }),
    }]
}
