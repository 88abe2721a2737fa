//! Systems, addresses and networks are blocked and allowed.
use crate::{net::*, oracle::Book};
use explore::{Check, Ctx, Outcome, Scenario, ensure};
use kompact_net::NetworkStatusRequest as Ask;
use mio::sim;
use std::net::{IpAddr, SocketAddr};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Rule {
    System(usize),
    Ip(&'static str),
    Net(&'static str),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Block(Rule),
    Allow(Rule),
    Send(usize, usize),
    Tick,
}
use Op::*;

impl Rule {
    fn ask(&self, n: &Net, block: bool) -> (Ask, S) {
        let (ask, name) = match self {
            Rule::System(h) => {
                let p = n.hosts[*h].path();
                (if block { Ask::BlockSystem(p) } else { Ask::AllowSystem(p) }, n.hosts[*h].addr.to_string())
            }
            Rule::Ip(a) => {
                let ip: IpAddr = a.parse().unwrap();
                (if block { Ask::BlockIp(ip) } else { Ask::AllowIp(ip) }, ip.to_string())
            }
            Rule::Net(a) => {
                let net: ipnet::IpNet = a.parse().unwrap();
                (if block { Ask::BlockIpNet(net) } else { Ask::AllowIpNet(net) }, net.to_string())
            }
        };
        (ask, if block { S::Blocked(name) } else { S::Allowed(name) })
    }
}

/// The documented meaning of a list of requests: allowed systems are allowed, blocked systems are blocked, for others
/// the last request that covers their address counts.
fn blocked(n: &[SocketAddr], rules: &[(Rule, bool)], host: usize) -> bool {
    let ip = n[host].ip();
    for (r, block) in rules.iter().rev() {
        if *r == Rule::System(host) {
            return *block;
        }
    }
    for (r, block) in rules.iter().rev() {
        let covers = match r {
            Rule::System(_) => false,
            Rule::Ip(a) => ip == a.parse::<IpAddr>().unwrap(),
            Rule::Net(a) => a.parse::<ipnet::IpNet>().unwrap().contains(&ip),
        };
        if covers {
            return *block;
        }
    }
    false
}

fn options() -> Opts {
    Opts { addrs: vec!["10.0.0.1:1000", "10.0.0.2:2000", "10.0.0.2:3000"], ..Opts::default() }
}

/// Connections between two hosts that are reported as established and not as gone. Being blocked ends them.
fn live(n: &Net, h: usize, to: usize) -> usize {
    let mut k = 0;
    let a = n.hosts[to].addr;
    for s in n.hosts[h].status() {
        match s {
            S::Up(x, _) if x == a => k += 1,
            S::Lost(x, _) | S::Closed(x, _) if x == a => k -= 1,
            S::Dropped(x) if x == a => k = 0,
            S::Blocked(x) if x == a.to_string() => k = 0,
            _ => (),
        }
    }
    k
}

fn delivered(n: &Net, h: usize, seq: u32) -> bool {
    n.hosts[h].got().iter().any(|g| matches!(&g.pay, Ok(p) if p.seq == seq))
}

/// Any list of rules, then everyone talks to everyone.
fn rules(ctx: &Ctx, depth: usize, before: bool) -> Outcome {
    let all = [
        Block(Rule::System(1)),
        Allow(Rule::System(1)),
        Block(Rule::Ip("10.0.0.2")),
        Allow(Rule::Ip("10.0.0.2")),
        Block(Rule::Net("10.0.0.0/24")),
        Allow(Rule::Net("10.0.0.2/31")),
        Allow(Rule::Ip("10.0.0.3")),
        Block(Rule::Net("10.0.0.3/32")),
    ];
    let connected = if before { ctx.pick(4) } else { 0 };
    let plan: Vec<Op> = (0..depth).map(|_| *ctx.pick_of(&all)).collect();
    // who speaks first
    let first = ctx.pick(2);
    with_net(ctx, &options(), |n| {
        let b = Book::default();
        let addrs: Vec<SocketAddr> = n.hosts.iter().map(|h| h.addr).collect();
        for h in [1, 2] {
            if connected & h != 0 {
                b.send(n, h, 0, 0, 20, How::Lazy);
                n.rt.settle()?;
            }
        }
        let mut rules = vec![];
        for op in &plan {
            let (r, block) = match op {
                Block(r) => (r, true),
                Allow(r) => (r, false),
                _ => unreachable!(),
            };
            let at = n.hosts[0].status().len();
            let (ask, want) = r.ask(n, block);
            ctx.log(|| format!("-- {ask:?}"));
            n.hosts[0].ask(ask);
            n.rt.settle()?;
            rules.push((*r, block));
            let st = n.hosts[0].status();
            ensure!(st[at..].contains(&want), "n04-answer", "{op:?} was not answered: {:?}", &st[at..]);
            for h in [1, 2] {
                if blocked(&addrs, &rules, h) {
                    ensure!(
                        live(n, 0, h) == 0 && live(n, h, 0) == 0,
                        "n04-connected",
                        "after {op:?}: connected to {}, which is blocked: {st:?} / {:?}",
                        addrs[h],
                        n.hosts[h].status()
                    );
                } else if connected & h != 0 && (1..=rules.len()).all(|k| !blocked(&addrs, &rules[..k], h)) {
                    // it has always been allowed
                    ensure!(
                        live(n, 0, h) == 1 && live(n, h, 0) == 1,
                        "n04-unaffected",
                        "{op:?} ended the connection to {}: {st:?} / {:?}",
                        addrs[h],
                        n.hosts[h].status()
                    );
                }
            }
        }
        for d in 0..2 {
            for h in [1, 2] {
                let (x, y) = if d == first { (0, h) } else { (h, 0) };
                let seq = b.send(n, x, y, 0, 20, How::Lazy);
                n.wait_out(4)?;
                let want = !blocked(&addrs, &rules, h);
                ensure!(
                    delivered(n, y, seq) == want,
                    if want { "n04-allowed" } else { "n04-blocked" },
                    "{rules:?}: host {h} is {}blocked, but what {x} sent to {y} was {}handled; {:?} / {:?}",
                    if want { "not " } else { "" },
                    if want { "never " } else { "" },
                    n.hosts[x].status(),
                    n.hosts[y].status()
                );
            }
        }
        ctx.outcome(&(blocked(&addrs, &rules, 1), blocked(&addrs, &rules, 2)));
        n.show();
        b.intact(n, "n04")?;
        b.increasing(n, "n04")
    })
}

/// One rule is set and lifted while systems communicate.
fn history(ctx: &Ctx, depth: usize) -> Outcome {
    explore::det_order(*ctx.pick_of(&[explore::Order::Ascending, explore::Order::Descending]));
    let rule = *ctx.pick_of(&[Rule::System(1), Rule::Ip("10.0.0.2"), Rule::Net("10.0.0.0/24")]);
    let ops = [Send(0, 1), Send(1, 0), Block(rule), Allow(rule), Tick];
    // whether to wait
    let plan: Vec<(Op, bool)> = (0..depth).map(|_| (*ctx.pick_of(&ops), ctx.pick(2) == 0)).collect();
    let o = Opts::default();
    with_net(ctx, &o, |n| {
        let b = Book::default();
        let mut is_blocked = false;
        // what was reported and handled when it last became blocked and this had settled
        let mut mark: Option<(usize, usize, usize)> = None;
        let mut sent: Vec<(usize, u32, usize, bool)> = vec![];
        let mut asked = vec![];
        let ups = |n: &Net, h: usize| n.hosts[h].status().iter().filter(|s| matches!(s, S::Up(..))).count();
        let last = plan.len();
        for (i, (op, wait)) in plan.iter().chain([&(Tick, true)]).enumerate() {
            if i < last {
                ctx.log(|| format!("-- {op:?}"));
                match op {
                    Send(x, y) => {
                        let at = n.hosts[*x].status().len();
                        // until it is confirmed
                        let still = asked.contains(&rule.ask(n, true).1)
                            && !matches!(
                                n.hosts[0].status().iter().rev().find(|s| matches!(s, S::Blocked(_) | S::Allowed(_))),
                                Some(S::Allowed(_))
                            );
                        let seq = b.send(n, *x, *y, 0, 20, How::Lazy);
                        sent.push((*x, seq, at, is_blocked || still));
                    }
                    Block(r) | Allow(r) => {
                        let block = matches!(op, Block(_));
                        let (ask, want) = r.ask(n, block);
                        n.hosts[0].ask(ask);
                        asked.push(want);
                        is_blocked = block;
                        if !block {
                            mark = None;
                        }
                    }
                    Tick => n.advance(RETRY),
                }
            }
            if *wait {
                n.rt.explore()?;
                let cs = sim::with(|s| s.connections()).len();
                if is_blocked {
                    ensure!(
                        live(n, 0, 1) == 0 && live(n, 1, 0) == 0 && cs == 0,
                        "n04-connected",
                        "after {op:?}: {cs} connections to a blocked system: {:?} / {:?}",
                        n.hosts[0].status(),
                        n.hosts[1].status()
                    );
                    let now = (ups(n, 0), n.hosts[0].got().len(), n.hosts[1].got().len());
                    let then = *mark.get_or_insert(now);
                    ensure!(
                        then == now,
                        "n04-blocked",
                        "after {op:?}: blocked systems communicated, {then:?} is now {now:?}: {:?} / {:?}",
                        n.hosts[0].status(),
                        n.hosts[1].status()
                    );
                }
            }
        }
        let answers: Vec<S> =
            n.hosts[0].status().into_iter().filter(|s| matches!(s, S::Blocked(_) | S::Allowed(_))).collect();
        ensure!(answers == asked, "n04-answer", "asked for {asked:?}, answered {answers:?}");
        n.hosts[0].ask(rule.ask(n, false).0);
        n.wait_out(5)?;
        n.show();
        b.intact(n, "n04")?;
        b.increasing(n, "n04")?;
        for (x, seq, at, was) in &sent {
            let st = n.hosts[*x].status();
            let excuse = (*was && *x == 0)
                || st[*at..].iter().any(|s| matches!(s, S::Lost(..) | S::Closed(..) | S::Dropped(_) | S::Blocked(_)));
            ensure!(
                delivered(n, 1 - *x, *seq) || excuse,
                "n04-lost",
                "host {x} sent {seq} after {at} reports of {st:?}: it was never handled"
            );
        }
        ctx.outcome(&(b.handled(n), n.hosts[0].status().len(), n.hosts[1].status().len()));
        for x in [0, 1] {
            let seq = b.send(n, x, 1 - x, 0, 20, How::Lazy);
            n.wait_out(4)?;
            ensure!(
                delivered(n, 1 - x, seq),
                "n04-dead",
                "host {x} cannot send any more: {:?} / {:?}",
                n.hosts[0].status(),
                n.hosts[1].status()
            );
        }
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "N04",
        level: "model_checking",
        rule: "one execution is one sequence of block and allow requests, sends and ticks, in one order of the threads involved",
        assumptions: vec![
            "sockets behave as simulated: edge-triggered readiness, ordered reliable streams until they break, unreliable datagrams".into(),
            "thread switches happen where threads wait, and at socket operations where noted".into(),
        ],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("rules", 0, move |ctx| rules(ctx, t.or(4, 5), false)),
                Scenario::new("rules-connected", 0, move |ctx| rules(ctx, t.or(3, 4), true)),
                Scenario::new("history", t.or(0, 1), move |ctx| history(ctx, t.or(4, 5))),
                Scenario::new("race", t.or(1, 2), move |ctx| history(ctx, 3)),
            ]
        }),
    }]
}
