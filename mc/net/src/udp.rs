//! Messages sent by UDP.
use crate::{net::*, oracle::Book};
use explore::{Check, Ctx, Outcome, Scenario, ensure};
use mio::sim;

/// Which of the sent messages a datagram carries.
fn carried(b: &Book, data: &[u8]) -> Option<u32> {
    b.0.borrow().iter().find(|s| s.udp && data.ends_with(&s.pay.bytes())).map(|s| s.pay.seq)
}
/// What arrived at a host, in order.
fn arrived(n: &Net, b: &Book, h: usize) -> Vec<u32> {
    let to = n.hosts[h].addr;
    sim::with(|s| s.arrived.iter().filter(|d| d.1 == to).map(|d| d.2.clone()).collect::<Vec<_>>())
        .iter()
        .filter_map(|d| carried(b, d))
        .collect()
}
fn handled(n: &Net, h: usize, udp: bool) -> Vec<u32> {
    n.hosts[h]
        .got()
        .iter()
        .filter(|g| g.session.is_none() == udp)
        .map(|g| g.pay.as_ref().map_or(u32::MAX, |p| p.seq))
        .collect()
}

const LENS: [u32; 4] = [0, 20, 120, 380];

/// Whatever is sent arrives once and in order, by the kindness of this network.
fn plans(ctx: &Ctx, depth: usize) -> Outcome {
    let o = Opts { sinks: 2, ..Opts::default() };
    let chunk_wise = ctx.pick(2) == 1;
    with_net(ctx, &o, |n| {
        let b = Book::default();
        for _ in 0..depth {
            let (len, how) = (*ctx.pick_of(&LENS), *ctx.pick_of(&HOWS));
            let (from, sink, udp) = *ctx.pick_of(&[(0, 0, true), (1, 1, true), (0, 1, false)]);
            b.send_via(n, from, 1 - from, sink, len, how, udp);
            if chunk_wise {
                n.rt.explore()?;
            }
        }
        n.rt.explore()?;
        n.wait_out(3)?;
        b.intact(n, "n05")?;
        b.complete(n, "n05")?;
        for h in [0, 1] {
            for udp in [true, false] {
                let l = handled(n, h, udp);
                ensure!(l.is_sorted(), "n05-order", "host {h} handled {l:?} (udp={udp}) on a network that keeps the order");
            }
        }
        ctx.outcome(&b.handled(n));
        Ok(())
    })
}

/// Datagrams get lost, repeated and overtaken: whatever arrives is handled.
fn lossy(ctx: &Ctx, depth: usize) -> Outcome {
    let o = Opts {
        sim: sim::Options { lossy: true, short_writes: true, interrupts: true, ..Default::default() },
        ..Opts::default()
    };
    let how = *ctx.pick_of(&HOWS);
    let tcp = ctx.pick(2) == 1;
    with_net(ctx, &o, |n| {
        let b = Book::default();
        for i in 0..depth {
            b.send_via(n, i % 2, 1 - i % 2, 0, LENS[i % LENS.len()], how, true);
            if tcp {
                b.send(n, 0, 1, 0, 10, How::Lazy);
            }
            if ctx.pick(2) == 0 {
                n.rt.explore()?;
            }
        }
        n.rt.explore()?;
        n.wait_out(3)?;
        n.show();
        let mut all = 0;
        for h in [0, 1] {
            let (a, l) = (arrived(n, &b, h), handled(n, h, true));
            ensure!(a == l, "n05-arrived", "{a:?} arrived at host {h}, which handled {l:?}");
            all += l.len();
            let want: Vec<u32> =
                b.0.borrow().iter().filter(|s| !s.udp && s.to_host == h).map(|s| s.pay.seq).collect();
            let l = handled(n, h, false);
            ensure!(l == want, "n05-tcp", "host {h} handled {l:?} instead of {want:?} by TCP");
        }
        // whatever did not get lost arrived
        let (lost, held, twice) = sim::with(|s| (s.lost, s.held(), s.twice));
        let sent = b.0.borrow().iter().filter(|s| s.udp).count();
        ensure!(
            all + lost + held == sent + twice,
            "n05-unsent",
            "{sent} were sent, {lost} lost, {twice} repeated and {held} are late, but {all} arrived"
        );
        ctx.outcome(&(all, lost));
        Ok(())
    })
}

/// What may arrive besides messages.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Bad {
    /// the first bytes of a message
    Cut(usize),
    /// all of a message, but the last
    CutLast,
    Garbage(usize),
    /// a frame without a body, of this type
    Kind(u8),
    /// a frame that announces more or less than there is
    Announce(i32),
    /// a message with more behind it
    Trailing,
    /// well-framed, but not a message
    Content(usize),
    /// to someone who does not exist
    Stranger,
    /// a complete `Hello` or `Start`
    Hello(bool),
}
const BADS: [Bad; 22] = [
    Bad::Cut(0),
    Bad::Cut(1),
    Bad::Cut(8),
    Bad::Cut(9),
    Bad::Cut(10),
    Bad::Cut(30),
    Bad::CutLast,
    Bad::Garbage(5),
    Bad::Garbage(9),
    Bad::Garbage(40),
    Bad::Kind(2),
    Bad::Kind(4),
    Bad::Kind(5),
    Bad::Kind(7),
    Bad::Kind(99),
    Bad::Announce(70),
    Bad::Announce(-5),
    Bad::Trailing,
    Bad::Content(3),
    Bad::Content(40),
    Bad::Stranger,
    Bad::Hello(true),
];

fn head(kind: u8, len: usize) -> Vec<u8> {
    let mut v = 0xC0A1BA11u32.to_be_bytes().to_vec();
    v.extend((len as u32).to_be_bytes());
    v.push(kind);
    v
}
impl Bad {
    fn bytes(self, proper: &[u8]) -> Vec<u8> {
        match self {
            Bad::Cut(k) => proper[..k].to_vec(),
            Bad::CutLast => proper[..proper.len() - 1].to_vec(),
            Bad::Garbage(k) => (0..k).map(|i| (i * 37 + 5) as u8).collect(),
            Bad::Kind(k) => head(k, 0),
            Bad::Announce(d) => {
                let mut v = head(2, (proper.len() as i32 - 9 + d) as usize);
                v.extend(&proper[9..]);
                v
            }
            Bad::Trailing => {
                let mut v = proper.to_vec();
                v.extend([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
                v
            }
            Bad::Content(k) => {
                let mut v = head(2, k);
                v.extend((0..k).map(|i| (i * 37 + 5) as u8));
                v
            }
            Bad::Stranger => {
                // the last path segment changes, the length does not
                let at = proper.windows(5).rposition(|w| w == b"sink0").unwrap();
                let mut v = proper.to_vec();
                v[at..at + 5].copy_from_slice(b"nobod");
                v
            }
            Bad::Hello(start) => {
                let mut body = vec![4, 10, 0, 0, 1, 3, 232];
                if start {
                    body.extend([7; 16]);
                }
                let mut v = head(if start { 5 } else { 4 }, body.len());
                v.extend(body);
                v
            }
        }
    }
}

/// Anything may arrive: messages are handled in spite of it, and nothing else is.
fn malformed(ctx: &Ctx, depth: usize, chunks: &[usize]) -> Outcome {
    let chunk = *ctx.pick_of(chunks);
    let plan: Vec<Bad> = (0..depth).map(|_| *ctx.pick_of(&BADS)).collect();
    // messages in between, or only behind
    let between = ctx.pick(2) == 1;
    let at_once = ctx.pick(2) == 1;
    with_net(ctx, &Opts { chunk, ..Opts::default() }, |n| {
        let b = Book::default();
        b.send_via(n, 0, 1, 0, 20, How::Lazy, true);
        n.rt.settle()?;
        let (from, to, proper) = sim::with(|s| s.arrived.last().cloned()).expect("a datagram");
        for (i, bad) in plan.iter().enumerate() {
            let bytes = bad.bytes(&proper);
            ctx.log(|| format!("-- {bad:?}: {} bytes", bytes.len()));
            if matches!(bad, Bad::Trailing | Bad::Announce(_)) {
                // complete, so that it may be handled again
                b.again(0);
            }
            sim::with(|s| s.inject(from, to, bytes));
            if !at_once {
                n.rt.settle()?;
            }
            if between && i + 1 < depth {
                b.send_via(n, 0, 1, 0, LENS[i % 3], How::Lazy, true);
                if !at_once {
                    n.rt.settle()?;
                }
            }
        }
        for len in [0, 120, 20] {
            b.send_via(n, 0, 1, 0, len, How::Eager, true);
        }
        b.send(n, 0, 1, 0, 20, How::Lazy);
        b.send_via(n, 1, 0, 0, 20, How::Lazy, true);
        n.wait_out(3)?;
        n.show();
        // whoever announces less than there is cuts the message
        n.hosts[1].log.lock().unwrap().retain(|g| g.pay.is_ok() || !plan.contains(&Bad::Announce(-5)));
        ctx.outcome(&b.handled(n));
        b.intact(n, "n05")?;
        b.complete(n, "n05")?;
        ensure!(!n.hosts[1].status().contains(&S::Failure), "n05-failure", "the network failed");
        Ok(())
    })
}

/// Messages that are too large are not handled, all others are.
fn oversize(ctx: &Ctx, depth: usize) -> Outcome {
    let big = ctx.pick(2) == 1;
    // in a chunk of the receiver, more than that, more than the network takes
    let lens: &[u32] = if big { &[20, 380, 600, 65_400, 65_536, 70_000] } else { &[20, 380, 440, 500, 600, 1200] };
    let chunk = if big { 128 * 1024 } else { 512 };
    let how = *ctx.pick_of(&HOWS);
    let wait = ctx.pick(2) == 1;
    with_net(ctx, &Opts { chunk, ..Opts::default() }, |n| {
        let b = Book::default();
        for _ in 0..depth {
            let len = *ctx.pick_of(lens);
            b.send_via(n, 0, 1, 0, len, how, true);
            // 54 bytes around the content
            if len > if big { 65_400 } else { 440 } {
                b.may_be_lost();
            }
            if wait {
                n.rt.settle()?;
            }
        }
        b.send(n, 0, 1, 0, 380, How::Lazy);
        n.rt.settle()?;
        b.send_via(n, 0, 1, 0, 20, How::Lazy, true);
        n.wait_out(3)?;
        ctx.outcome(&b.handled(n));
        b.intact(n, "n05")?;
        b.complete(n, "n05")
    })
}

/// A socket that is blocked for a while delays messages, but does not drop or reorder them; those
/// that are too large for the network are dropped in between.
fn blocked(ctx: &Ctx, depth: usize) -> Outcome {
    let o = Opts {
        sim: sim::Options { short_writes: true, interrupts: true, ..Default::default() },
        chunk: 128 * 1024,
        ..Opts::default()
    };
    let how = *ctx.pick_of(&HOWS);
    let tcp = how == HOWS[0] && ctx.pick(2) == 1;
    with_net(ctx, &o, |n| {
        let b = Book::default();
        for i in 0..depth {
            let len = *ctx.pick_of(&[20, 120, 66_000]);
            b.send_via(n, 0, 1, 0, len, how, true);
            if len > 65_400 {
                b.may_be_lost();
            }
            if tcp {
                b.send(n, 0, 1, 0, 10, How::Lazy);
            }
            if i + 1 < depth && ctx.pick(2) == 0 {
                n.rt.explore()?;
            }
        }
        n.rt.explore()?;
        n.wait_out(3)?;
        n.show();
        b.intact(n, "n05")?;
        b.complete(n, "n05")?;
        for udp in [true, false] {
            let l = handled(n, 1, udp);
            ensure!(l.is_sorted(), "n05-order", "host 1 handled {l:?} (udp={udp}) on a network that keeps the order");
        }
        ctx.outcome(&b.handled(n));
        Ok(())
    })
}

/// The receiver keeps what it receives, until it has no space for more.
fn hoarded(ctx: &Ctx) -> Outcome {
    let chunks = *ctx.pick_of(&[3, 4, 6]);
    let lens = *ctx.pick_of(&[[20, 20], [60, 20], [60, 60]]);
    let k = 1 + ctx.pick(8);
    let wait = ctx.pick(4);
    let step = ctx.pick(2) == 1;
    let tcp = ctx.pick(2) == 1;
    with_net(ctx, &Opts { addrs: vec!["10.0.0.1:1000"], ..Opts::default() }, |n| {
        n.add("10.0.0.2:2000".parse().unwrap(), &Opts { chunk: 128, chunks, ..Opts::default() })?;
        let b = Book::default();
        n.hosts[1].keep();
        for i in 0..k {
            b.send_via(n, 0, 1, 0, lens[i % 2], How::Lazy, true);
            if tcp {
                b.send(n, 0, 1, 0, lens[i % 2], How::Lazy);
            }
            if step {
                n.rt.explore()?;
            }
        }
        n.rt.explore()?;
        for _ in 0..wait {
            n.advance(RETRY);
            n.rt.explore()?;
        }
        ctx.outcome(&n.hosts[1].kept());
        n.hosts[1].release();
        n.wait_out(4)?;
        b.intact(n, "n05")?;
        let (a, l) = (arrived(n, &b, 1), handled(n, 1, true));
        ensure!(a == l, "n05-arrived", "{a:?} arrived, but {l:?} were handled");
        ctx.outcome(&b.handled(n));
        for _ in 0..2 {
            let seq = b.send_via(n, 0, 1, 0, 60, How::Lazy, true);
            n.wait_out(2)?;
            ensure!(
                handled(n, 1, true).last() == Some(&seq),
                "n05-dead",
                "there is space again, but what host 0 sends is never handled"
            );
        }
        let (a, l) = (arrived(n, &b, 1), handled(n, 1, true));
        ensure!(a == l && a.len() == k + 2, "n05-arrived", "{a:?} arrived, but {l:?} were handled");
        b.intact(n, "n05")
    })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "N05",
        level: "model_checking",
        rule: "one execution is one plan of sends or one sequence of malformed datagrams among messages, with one placement of losses, repetitions, reorderings and would-blocks",
        assumptions: vec![
            "sockets behave as simulated: edge-triggered readiness, ordered reliable streams until they break, unreliable datagrams".into(),
            "thread switches happen where threads wait, and at socket operations where noted".into(),
        ],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("plans", t.or(0, 1), move |ctx| plans(ctx, t.or(2, 3))),
                Scenario::new("lossy", t.or(1, 2), move |ctx| lossy(ctx, 4)),
                Scenario::new("lossy-twice", t.or(2, 3), move |ctx| lossy(ctx, t.or(2, 3))),
                Scenario::new("blocked", t.or(1, 2), move |ctx| blocked(ctx, t.or(3, 4))),
                Scenario::new("hoarded", t.or(1, 2), hoarded),
                Scenario::new("malformed", 0, move |ctx| malformed(ctx, t.or(2, 3), &[512, 256])),
                Scenario::new("oversize", 0, move |ctx| oversize(ctx, t.or(3, 4))),
            ]
        }),
    }]
}
