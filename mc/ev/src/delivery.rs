use crate::{common::*, world::*};
use explore::*;
use kompact::prelude::*;
use std::sync::Arc;

const EXACT: &str = "message not handled exactly once in order";

/// Oracle: per (sender, route) the handled sequence numbers are 0..n.
fn exactly_once(log: &Log, who: u8, sent: &[M]) -> Outcome {
    let got: Vec<M> = log
        .of(who)
        .into_iter()
        .filter_map(|e| match e {
            E::Msg(m) => Some(m),
            _ => None,
        })
        .collect();
    let mut keys: Vec<(u8, u8)> = sent.iter().map(|m| (m.from, m.route)).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let s: Vec<u8> = sent.iter().filter(|m| (m.from, m.route) == k).map(|m| m.seq).collect();
        let g: Vec<u8> = got.iter().filter(|m| (m.from, m.route) == k).map(|m| m.seq).collect();
        ensure!(s == g, EXACT, "component {} from {:?}: sent {s:?}, handled {g:?}", who_name(who), k);
    }
    ensure!(got.len() == sent.len(), EXACT, "sent {sent:?}, handled {got:?}");
    Ok(())
}

/// External program: `depth` steps, each a send over one of `routes`, a request
/// to a relay component to send, or running one pending job.
fn program(ctx: &Ctx, depth: usize, throughput: usize) -> Outcome {
    let w = World::with(ctx, |c| {
        c.set_config_value(&kompact::config_keys::system::THROUGHPUT, throughput);
    });
    let log = Log::new(ctx);
    let sink = w.sys.create(|| Probe::new(0, &log, quiet()));
    w.name(sink.id(), "A");
    let reg = w.sys.register(&sink);
    w.sys.start(&sink);
    w.settle()?;
    let path = reg.wait().expect("registered");
    let aref: ActorRef<M> = sink.actor_ref();
    let strong = aref.hold().expect("live");
    let rec: Recipient<M> = aref.recipient();
    // relay components that forward with their own sender id
    let mut relays = vec![];
    for r in 1..3u8 {
        let (a2, p2) = (aref.clone(), path.clone());
        let relay = w.sys.create(|| {
            Probe::new(
                r,
                &log,
                Arc::new(move |me, e| {
                    if let E::Msg(x) = e {
                        if x.route == 9 {
                            a2.tell(m(me.who, 9, x.seq));
                        } else {
                            p2.tell(m(me.who, 8, x.seq), me);
                        }
                    }
                    Handled::OK
                }),
            )
        });
        w.name(relay.id(), who_name(r));
        w.sys.start(&relay);
        relays.push(relay);
    }
    w.settle()?;
    let mut sent = vec![];
    let mut next = std::collections::BTreeMap::<(u8, u8), u8>::new();
    let mut num = |k: (u8, u8)| {
        let e = next.entry(k).or_insert(0);
        *e += 1;
        *e - 1
    };
    for _ in 0..depth {
        let op = ctx.pick(8);
        match op {
            0 => {
                if !w.step()? {
                    // nothing to run: same as a shorter program
                    continue;
                }
            }
            1 => {
                let x = m(50, 0, num((50, 0)));
                ctx.log(|| format!("ref.tell {x:?}"));
                aref.tell(x);
                sent.push(x);
            }
            2 => {
                let x = m(50, 1, num((50, 1)));
                ctx.log(|| format!("strong.tell {x:?}"));
                strong.tell(x);
                sent.push(x);
            }
            3 => {
                let x = m(50, 2, num((50, 2)));
                ctx.log(|| format!("recipient.tell {x:?}"));
                rec.tell(x);
                sent.push(x);
            }
            4 => {
                let x = m(50, 3, num((50, 3)));
                ctx.log(|| format!("path.tell {x:?}"));
                path.tell(x, &w.sys);
                sent.push(x);
            }
            5 | 6 => {
                let r = op as u8 - 4;
                let x = m(r, 9, num((r, 9)));
                ctx.log(|| format!("relay {} sends {x:?}", who_name(r)));
                relays[op - 5].actor_ref().tell(x);
                sent.push(x);
            }
            _ => {
                let x = m(1, 8, num((1, 8)));
                ctx.log(|| format!("relay B sends over path {x:?}"));
                relays[0].actor_ref().tell(x);
                sent.push(x);
            }
        }
    }
    w.drain()?;
    log.finish();
    exactly_once(&log, 0, &sent)
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C01",
        level: "model_checking",
        rule: "stateless exploration of the real runtime under a controlled executor",
        assumptions: vec![],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("ext-programs", t.or(1, 2), move |c| program(c, t.or(4, 5), 50)),
                Scenario::new("ext-programs-tp1", t.or(1, 2), move |c| program(c, t.or(3, 4), 1)),
            ]
        }),
    }]
}
