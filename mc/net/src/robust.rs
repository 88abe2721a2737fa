//! Remote hosts that do not keep to the protocol.
use crate::{net::*, oracle::Book};
use explore::{Check, Ctx, Outcome, Scenario, ensure};
use kompact::{
    net::buffers::{BufferConfig, EncodeBuffer},
    prelude::{ActorPath, ser_helpers::serialise_msg},
};
use mio::sim;
use std::net::{IpAddr, SocketAddr};

const MAGIC: u32 = 0xC0A1_BA11;

fn frame(kind: u8, body: &[u8]) -> Vec<u8> {
    let mut v = MAGIC.to_be_bytes().to_vec();
    v.extend((body.len() as u32).to_be_bytes());
    v.push(kind);
    v.extend(body);
    v
}
fn addr(a: SocketAddr) -> Vec<u8> {
    let mut v = match a.ip() {
        IpAddr::V4(i) => [&[4][..], &i.octets()].concat(),
        IpAddr::V6(i) => [&[6][..], &i.octets()].concat(),
    };
    v.extend(a.port().to_be_bytes());
    v
}
fn hello(a: SocketAddr) -> Vec<u8> {
    frame(4, &addr(a))
}
fn start(a: SocketAddr, id: u128) -> Vec<u8> {
    frame(5, &[addr(a), id.to_be_bytes().to_vec()].concat())
}
fn ack() -> Vec<u8> {
    frame(6, &[])
}
fn bye() -> Vec<u8> {
    frame(7, &[])
}
/// The frame of a message.
fn data(from: SocketAddr, to: &ActorPath, pay: &Pay) -> Vec<u8> {
    let from: ActorPath = format!("tcp://{from}/remote").parse().unwrap();
    let mut buf = EncodeBuffer::with_config(&BufferConfig::default(), &None);
    let mut enc = buf.get_buffer_encoder().expect("space");
    let lease = serialise_msg(&from, to, pay, &mut enc).expect("serialised");
    use kompact::prelude::Buf;
    let mut lease = lease;
    let n = lease.remaining();
    lease.copy_to_bytes(n).to_vec()
}
/// The frames in here, up to one that is not complete: kind, body.
fn parse(mut b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut l = vec![];
    while b.len() >= 9 {
        let len = u32::from_be_bytes(b[4..8].try_into().unwrap()) as usize;
        if b.len() < 9 + len {
            break;
        }
        l.push((b[8], b[9..9 + len].to_vec()));
        b = &b[9 + len..];
    }
    l
}

/// What a remote host may send.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Say {
    /// a proper message
    Good,
    /// a message for nobody
    Nobody,
    /// a frame whose content is not a message
    Garbage,
    /// an empty one
    Empty,
    Hello,
    HelloOther,
    Start,
    /// the same with another session
    StartAgain,
    /// ... and another address
    StartOther,
    /// ... and the address of the socket
    StartSocket,
    Ack,
    Bye,
    /// an unknown frame
    Unknown,
    /// a frame that is larger than anything
    Huge,
    /// the beginning of a message
    Partial,
    /// something else
    Noise,
    /// a Hello or Start with too little in it
    Short,
}
const SAYS: [Say; 17] = [
    Say::Good,
    Say::Nobody,
    Say::Garbage,
    Say::Empty,
    Say::Hello,
    Say::HelloOther,
    Say::Start,
    Say::StartAgain,
    Say::StartOther,
    Say::StartSocket,
    Say::Ack,
    Say::Bye,
    Say::Unknown,
    Say::Huge,
    Say::Partial,
    Say::Noise,
    Say::Short,
];

/// A remote host that is not simulated.
struct Remote {
    addr: SocketAddr,
    fd: usize,
    /// messages sent on it so far
    next: u32,
    heard: Vec<u8>,
}
impl Remote {
    fn say(&mut self, n: &Net, what: Say, id: u128) {
        let me = self.addr;
        let other = |p| SocketAddr::new(me.ip(), p);
        let sink = &n.hosts[0].sinks[0];
        let bytes = match what {
            Say::Good => {
                self.next += 1;
                data(me, sink, &Pay { seq: self.next, len: 20 })
            }
            Say::Nobody => {
                let to: ActorPath = format!("tcp://{}/nobody", n.hosts[0].addr).parse().unwrap();
                data(me, &to, &Pay { seq: 0, len: 20 })
            }
            Say::Garbage => frame(2, &[0xff; 40]),
            Say::Empty => frame(2, &[]),
            Say::Hello => hello(me),
            Say::HelloOther => hello(other(3001)),
            Say::Start => start(me, id),
            Say::StartAgain => start(me, id + 1),
            Say::StartOther => start(other(3002), id),
            Say::StartSocket => start(sim::with(|s| s.fds[self.fd].local), id),
            Say::Ack => ack(),
            Say::Bye => bye(),
            Say::Unknown => frame(9, &[1, 2, 3]),
            Say::Huge => [&MAGIC.to_be_bytes()[..], &u32::MAX.to_be_bytes(), &[2, 1, 2, 3]].concat(),
            Say::Partial => {
                let d = data(me, sink, &Pay { seq: 0, len: 20 });
                d[..d.len() - 3].to_vec()
            }
            Say::Noise => vec![0x55; 64],
            Say::Short => frame(5, &[4, 1]),
        };
        n.ctx.log(|| format!("the remote says {what:?}"));
        sim::with(|s| s.put(self.fd, &bytes));
    }
    fn listen(&mut self) -> Vec<(u8, Vec<u8>)> {
        let fd = self.fd;
        self.heard.extend(sim::with(|s| s.take(fd)));
        parse(&self.heard)
    }
    fn heard(&mut self, kind: u8) -> bool {
        self.listen().iter().any(|(k, _)| *k == kind)
    }
}

/// What host 0 got from the remote; removed from its log.
fn from_remote(n: &Net, me: SocketAddr) -> Vec<Got> {
    let mut l = n.hosts[0].log.lock().unwrap();
    let (r, rest) = l.drain(..).partition(|g| g.sender.contains(&me.to_string()));
    *l = rest;
    r
}

/// A remote host says the wrong things.
fn wrong(ctx: &Ctx, depth: usize) -> Outcome {
    // whether it connects to us
    let dials = ctx.pick(2) == 0;
    // how much of it is right in the beginning
    let right = ctx.pick(3);
    let plan: Vec<Say> = (0..depth).map(|_| *ctx.pick_of(&SAYS)).collect();
    let at_once = ctx.pick(2) == 1;
    let abort = ctx.pick(2) == 1;
    let o = Opts { addrs: vec!["10.0.0.1:1000", "10.0.0.2:2000"], ..Opts::default() };
    with_net(ctx, &o, |n| {
        let b = Book::default();
        b.send(n, 0, 1, 0, 20, How::Lazy);
        b.send(n, 1, 0, 0, 20, How::Eager);
        n.rt.settle()?;
        let me: SocketAddr = "10.0.0.3:3000".parse().unwrap();
        let home = n.hosts[0].addr;
        let sink: ActorPath = format!("tcp://{me}/sink").parse().unwrap();
        let listener = sim::with(|s| s.listen(me));
        let fd = if dials {
            sim::with(|s| s.dial(me.ip(), home)).unwrap()
        } else {
            n.send(0, &sink, Pay { seq: 7000, len: 20 }, How::Lazy);
            n.rt.settle()?;
            sim::with(|s| s.next(listener)).expect("host 0 connects")
        };
        n.rt.settle()?;
        let mut r = Remote { addr: me, fd, next: 0, heard: vec![] };
        let mut proper = 0;
        match (dials, right) {
            (_, 0) => (),
            (true, _) => {
                r.say(n, Say::Start, 5);
                n.rt.settle()?;
                ensure!(r.heard(4) && r.heard(6), "n06-handshake", "no answer to Start: {:?}", r.listen());
            }
            (false, _) => {
                r.say(n, Say::Hello, 5);
                n.rt.settle()?;
                ensure!(r.heard(5), "n06-handshake", "no answer to Hello: {:?}", r.listen());
                if right == 2 {
                    r.say(n, Say::Ack, 5);
                    n.rt.settle()?;
                    ensure!(r.heard(2), "n06-handshake", "the message was not sent: {:?}", r.listen());
                }
            }
        }
        if right == 2 {
            r.say(n, Say::Good, 5);
            proper = 1;
            if !at_once {
                n.rt.settle()?;
            }
        }
        for what in &plan {
            if proper > 0 && proper == r.next && *what == Say::Good {
                proper += 1;
            }
            r.say(n, *what, 5);
            if !at_once {
                n.rt.settle()?;
                b.send(n, 0, 1, 0, 20, How::Eager);
                b.send(n, 1, 0, 0, 60, How::Lazy);
                n.rt.settle()?;
            }
            if !matches!(what, Say::Good | Say::Nobody) {
                // whatever comes now may not be accepted
                proper += 1000;
            }
        }
        let proper = proper % 1000;
        b.send(n, 0, 1, 0, 20, How::Eager);
        b.send(n, 1, 0, 0, 60, How::Lazy);
        n.rt.settle()?;
        sim::with(|s| s.hang_up(r.fd, abort));
        n.wait_out(3)?;
        n.show();
        let mut got = from_remote(n, me);
        // what completes a message cut short is not its end
        got.retain(|g| g.pay.is_ok() || !plan.contains(&Say::Partial));
        let seqs: Vec<u32> = got.iter().map(|g| g.pay.as_ref().map_or(u32::MAX, |p| p.seq)).collect();
        ctx.outcome(&seqs);
        ensure!(seqs.windows(2).all(|w| w[0] < w[1]), "n06-order", "the remote's messages were handled as {seqs:?}");
        ensure!(
            seqs.iter().all(|s| (1..=r.next).contains(s)),
            "n06-invented",
            "the remote sent {} messages, handled were {seqs:?}",
            r.next
        );
        ensure!(
            seqs.len() as u32 >= proper,
            "n06-lost",
            "{proper} messages were sent on a proper connection, handled were {seqs:?}"
        );
        for (i, h) in n.hosts.iter().enumerate() {
            ensure!(!h.status().contains(&S::Failure), "n06-failure", "the network of host {i} failed: {:?}", h.status());
        }
        let other = n.hosts[1].addr;
        ensure!(
            !n.hosts[0].status().iter().any(|s| matches!(s, S::Lost(a, _) | S::Closed(a, _) if *a == other)),
            "n06-other",
            "another connection ended: {:?}",
            n.hosts[0].status()
        );
        b.intact(n, "n06")?;
        b.increasing(n, "n06")?;
        b.complete(n, "n06")?;
        if ctx.pick(2) == 0 {
            return proper_again(n, me, listener, dials);
        }
        // there is space for all of these
        let mut all = vec![];
        for i in 0..4 {
            let me = SocketAddr::new([10, 0, 0, 10 + i].into(), 3000);
            let fd = sim::with(|s| s.dial(me.ip(), home)).unwrap();
            let mut r = Remote { addr: me, fd, next: 0, heard: vec![] };
            r.say(n, Say::Start, 900 + i as u128);
            n.rt.settle()?;
            ensure!(r.heard(6), "n06-dead", "connection {i} is not accepted: {:?}", n.hosts[0].status());
            all.push(fd);
        }
        for fd in all {
            sim::with(|s| s.hang_up(fd, false));
        }
        n.rt.settle()
    })
}

/// A remote behaves from now on.
fn proper_again(n: &mut Net, me: SocketAddr, listener: usize, dials: bool) -> Outcome {
    let home = n.hosts[0].addr;
    let sink: ActorPath = format!("tcp://{me}/sink").parse().unwrap();
    while let Some(f) = sim::with(|s| s.next(listener)) {
        sim::with(|s| s.hang_up(f, false));
        n.rt.settle()?;
    }
    n.wait_out(4)?;
    let fd = if dials {
        sim::with(|s| s.dial(me.ip(), home)).unwrap()
    } else {
        while sim::with(|s| s.next(listener)).is_some() {}
        n.send(0, &sink, Pay { seq: 7001, len: 20 }, How::Lazy);
        n.rt.settle()?;
        let Some(fd) = sim::with(|s| s.next(listener)) else {
            ensure!(false, "n06-dead", "host 0 does not connect to the remote again: {:?}", n.hosts[0].status());
            unreachable!()
        };
        fd
    };
    n.rt.settle()?;
    let mut r = Remote { addr: me, fd, next: 100, heard: vec![] };
    r.say(n, if dials { Say::Start } else { Say::Hello }, 77);
    n.rt.settle()?;
    if !dials {
        r.say(n, Say::Ack, 77);
        n.rt.settle()?;
    }
    ensure!(
        r.heard(if dials { 6 } else { 2 }),
        "n06-dead",
        "host 0 does not accept a new connection: heard {:?}, {:?}",
        r.listen(),
        n.hosts[0].status()
    );
    r.say(n, Say::Good, 77);
    n.rt.settle()?;
    let got = from_remote(n, me);
    ensure!(got.len() == 1, "n06-dead", "what the remote sends on a new connection is not handled: {got:?}");
    sim::with(|s| s.hang_up(r.fd, false));
    n.rt.settle()
}

/// A remote host connects and disconnects again and again.
fn again(ctx: &Ctx, times: usize) -> Outcome {
    let dials = ctx.pick(2) == 0;
    let right = ctx.pick(3);
    // something wrong, or nothing at all
    let what = match ctx.pick(1 + SAYS.len()) {
        0 => None,
        i => Some(SAYS[i - 1]),
    };
    // the connection is closed, aborted, or just replaced
    let end = ctx.pick(3);
    let slow = ctx.pick(2) == 1;
    with_net(ctx, &Opts { chunks: 8, ..Opts::default() }, |n| {
        let b = Book::default();
        b.send(n, 0, 1, 0, 20, How::Lazy);
        b.send(n, 1, 0, 0, 20, How::Eager);
        n.rt.settle()?;
        let me: SocketAddr = "10.0.0.3:3000".parse().unwrap();
        let home = n.hosts[0].addr;
        let sink: ActorPath = format!("tcp://{me}/sink").parse().unwrap();
        let listener = sim::with(|s| s.listen(me));
        let mut open = vec![];
        for i in 0..times {
            let fd = if dials {
                sim::with(|s| s.dial(me.ip(), home))
            } else {
                n.send(0, &sink, Pay { seq: 7000, len: 20 }, How::Lazy);
                n.rt.settle()?;
                sim::with(|s| s.next(listener))
            };
            n.rt.settle()?;
            if let Some(fd) = fd {
                let mut r = Remote { addr: me, fd, next: 10 * i as u32, heard: vec![] };
                let id = 5 + i as u128;
                if right > 0 {
                    r.say(n, if dials { Say::Start } else { Say::Hello }, id);
                    n.rt.settle()?;
                }
                if right == 2 {
                    if !dials {
                        r.say(n, Say::Ack, id);
                    }
                    r.say(n, Say::Good, id);
                    n.rt.settle()?;
                }
                if let Some(w) = what {
                    r.say(n, w, id);
                    n.rt.settle()?;
                }
                if end < 2 {
                    sim::with(|s| s.hang_up(fd, end == 1));
                } else {
                    open.push(fd);
                }
            }
            n.rt.settle()?;
            if slow {
                n.wait_out(1)?;
            }
        }
        for fd in open {
            sim::with(|s| s.hang_up(fd, false));
        }
        n.rt.settle()?;
        b.send(n, 0, 1, 0, 20, How::Eager);
        b.send(n, 1, 0, 0, 60, How::Lazy);
        n.wait_out(3)?;
        let got = from_remote(n, me);
        ctx.outcome(&got.len());
        n.show();
        ensure!(!n.hosts[0].status().contains(&S::Failure), "n06-failure", "the network failed: {:?}", n.hosts[0].status());
        b.intact(n, "n06")?;
        b.complete(n, "n06")?;
        if ctx.pick(2) == 0 {
            return proper_again(n, me, listener, dials);
        }
        // there is space for all of these
        let mut all = vec![];
        for i in 0..4 {
            let me = SocketAddr::new([10, 0, 0, 10 + i].into(), 3000);
            let fd = sim::with(|s| s.dial(me.ip(), home)).unwrap();
            let mut r = Remote { addr: me, fd, next: 0, heard: vec![] };
            r.say(n, Say::Start, 900 + i as u128);
            n.rt.settle()?;
            ensure!(r.heard(6), "n06-dead", "connection {i} is not accepted: {:?}", n.hosts[0].status());
            all.push(fd);
        }
        for fd in all {
            sim::with(|s| s.hang_up(fd, false));
        }
        n.rt.settle()
    })
}

/// Bytes of what a remote host sends are changed.
fn corrupt(ctx: &Ctx, times: usize) -> Outcome {
    const MINE: u32 = 0x0101_0101;
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    enum Which {
        Start,
        Data,
        Hello,
        Ack,
        Datagram,
    }
    use Which::*;
    let which = *ctx.pick_of(&[Start, Data, Hello, Ack, Datagram]);
    // another message follows, in the same packet or later
    let follow = ctx.pick(3);
    with_net(ctx, &Opts::default(), |n| {
        let b = Book::default();
        b.send(n, 0, 1, 0, 20, How::Lazy);
        b.send(n, 1, 0, 0, 20, How::Eager);
        n.rt.settle()?;
        let me: SocketAddr = "10.0.0.3:3000".parse().unwrap();
        let home = n.hosts[0].addr;
        let local = &n.hosts[0].sinks[0].clone();
        let sink: ActorPath = format!("tcp://{me}/sink").parse().unwrap();
        let mine = |i| Pay { seq: MINE + i, len: 6 };
        let mut bytes = match which {
            Start => start(me, 5),
            Hello => hello(me),
            Ack => ack(),
            Data | Datagram => data(me, local, &mine(0)),
        };
        let mut at = 0;
        let mut what = vec![];
        for i in 0..times {
            if at >= bytes.len() {
                break;
            }
            at += ctx.pick(bytes.len() - at);
            let old = bytes[at];
            let new = match ctx.pick(if i == 0 { 4 } else { 2 }) {
                0 => old ^ 0xff,
                1 => old ^ 1,
                2 => 0,
                _ => old.wrapping_add(1),
            };
            bytes[at] = new;
            what.push((at, old, new));
            at += 1;
        }
        ctx.log(|| format!("{which:?} with {what:?}"));
        let unchanged = what.iter().all(|(_, a, b)| a == b);
        let listener = sim::with(|s| s.listen(me));
        let mut fd = None;
        if which == Datagram {
            sim::with(|s| s.inject(me, home, bytes));
            if follow == 1 {
                n.rt.settle()?;
            }
            if follow > 0 {
                let more = data(me, local, &mine(1));
                sim::with(|s| s.inject(me, home, more));
            }
            n.rt.settle()?;
            b.send_via(n, 1, 0, 0, 20, How::Lazy, true);
            n.rt.settle()?;
        } else {
            let f = if matches!(which, Start | Data) {
                sim::with(|s| s.dial(me.ip(), home)).unwrap()
            } else {
                n.send(0, &sink, Pay { seq: 7000, len: 20 }, How::Lazy);
                n.rt.settle()?;
                sim::with(|s| s.next(listener)).expect("host 0 connects")
            };
            fd = Some(f);
            n.rt.settle()?;
            let put = |v: Vec<u8>| sim::with(|s| s.put(f, &v));
            if which == Data {
                put(start(me, 5));
                n.rt.settle()?;
            }
            if which == Ack {
                put(hello(me));
                n.rt.settle()?;
            }
            put(bytes);
            if follow == 1 {
                n.rt.settle()?;
            }
            if follow > 0 {
                put(data(me, local, &mine(1)));
            }
            n.rt.settle()?;
        }
        b.send(n, 0, 1, 0, 20, How::Eager);
        b.send(n, 1, 0, 0, 60, How::Lazy);
        n.rt.settle()?;
        if let Some(f) = fd {
            sim::with(|s| s.hang_up(f, false));
        }
        n.wait_out(3)?;
        n.show();
        // not from host 1
        let mut got = vec![];
        n.hosts[0].log.lock().unwrap().retain(|g| {
            let ours = g.sender.contains("10.0.0.2:2000");
            if !ours {
                got.push(g.clone());
            }
            ours
        });
        // the number of the changed message may have changed
        let seqs: Vec<Option<u32>> = got.iter().map(|g| g.pay.as_ref().ok().map(|p| (p.seq == MINE + 1) as u32)).collect();
        ctx.outcome(&(seqs.clone(), n.hosts[0].status().len()));
        let ok: Vec<u32> = seqs.iter().filter_map(|s| *s).collect();
        ensure!(
            ok.windows(2).all(|w| w[0] < w[1]) && ok.iter().all(|s| *s < 2),
            "n06-corrupt",
            "handled {ok:?} of the remote's messages"
        );
        ensure!(seqs.len() <= 2, "n06-invented", "two messages were sent, handled were {got:?}");
        if which == Datagram && follow > 0 {
            ensure!(ok.contains(&1), "n06-lost", "a proper datagram was not handled: {got:?}");
        }
        if unchanged && which != Ack && which != Hello && follow > 0 {
            ensure!(which == Start || ok.contains(&1), "n06-lost", "a proper message was not handled: {got:?}");
        }
        ensure!(!n.hosts[0].status().contains(&S::Failure), "n06-failure", "the network failed: {:?}", n.hosts[0].status());
        let other = n.hosts[1].addr;
        ensure!(
            !n.hosts[0].status().iter().any(|s| matches!(s, S::Lost(a, _) | S::Closed(a, _) if *a == other)),
            "n06-other",
            "another connection ended: {:?}",
            n.hosts[0].status()
        );
        b.intact(n, "n06")?;
        b.increasing(n, "n06")?;
        b.complete(n, "n06")?;
        // connections are still accepted
        let me = SocketAddr::new([10, 0, 0, 10].into(), 3000);
        let fd = sim::with(|s| s.dial(me.ip(), home)).unwrap();
        let mut r = Remote { addr: me, fd, next: 0, heard: vec![] };
        r.say(n, Say::Start, 900);
        n.rt.settle()?;
        ensure!(r.heard(6), "n06-dead", "a connection is not accepted: {:?}", n.hosts[0].status());
        sim::with(|s| s.hang_up(fd, false));
        n.rt.settle()
    })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "N06",
        level: "model_checking",
        rule: "one execution is one sequence of frames from a remote host, proper ones or not, at one stage of a connection in either direction",
        assumptions: vec![
            "sockets behave as simulated: edge-triggered readiness, ordered reliable streams until they break, unreliable datagrams".into(),
            "remote hosts do not claim to be somebody else".into(),
        ],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("wrong", 0, move |ctx| wrong(ctx, t.or(2, 3))).weight(3),
                Scenario::new("corrupt", 0, move |ctx| corrupt(ctx, t.or(1, 2))),
                Scenario::new("again", 0, move |ctx| again(ctx, t.or(12, 30))),
            ]
        }),
    }]
}
