//! Scenarios in which every interleaving of kompact's synchronisation operations by several
//! threads (within a bound on preemptions) is explored.
use crate::{common::*, rt::{self, Threads, with_threads}};
use explore::*;
use kompact::prelude::*;
use std::sync::{Arc, Mutex};

const EXACT: &str = "message not handled exactly once in order";

/// A handler during which others may run.
fn slow() -> Arc<Behave> {
    Arc::new(|_, _| {
        rt::point("in a handler");
        Handled::OK
    })
}

fn probe(w: &Threads, who: u8, log: &Log, b: Arc<Behave>) -> Arc<Component<Probe>> {
    let c = w.sys.create(|| Probe::new(who, log, b));
    w.name(c.id(), who_name(who));
    c
}

/// Per sender and route: handled once each and in order.
fn exact(got: &[M], sent: &[M]) -> Outcome {
    let mut keys: Vec<(u8, u8)> = sent.iter().map(|m| (m.from, m.route)).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let s: Vec<u8> = sent.iter().filter(|m| (m.from, m.route) == k).map(|m| m.seq).collect();
        let g: Vec<u8> = got.iter().filter(|m| (m.from, m.route) == k).map(|m| m.seq).collect();
        ensure!(s == g, EXACT, "from {k:?}: sent {s:?}, handled {g:?}");
    }
    ensure!(got.len() == sent.len(), EXACT, "sent {sent:?}, handled {got:?}");
    Ok(())
}
fn msgs(log: &Log, who: u8) -> Vec<M> {
    log.of(who).into_iter().filter_map(|e| if let E::Msg(m) = e { Some(m) } else { None }).collect()
}

/// Nothing may hang and no component may be lost.
fn at_rest(w: &Threads) -> Outcome {
    let d = w.deadlocked();
    ensure!(d.is_empty(), "deadlock", "waiting forever: {d:?}");
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Via {
    Ref,
    Strong,
    Recipient,
    Path,
}

/// Threads that send to one component.
fn senders(ctx: &Ctx, plan: &'static [&'static [Via]]) -> Outcome {
    with_threads(ctx, |w| {
        let log = Log::new(ctx);
        let a = probe(w, 0, &log, slow());
        let reg = w.sys.register(&a);
        w.sys.start(&a);
        w.settle()?;
        let path = reg.wait().expect("registered");
        let sent: Arc<Mutex<Vec<M>>> = Default::default();
        for (t, vias) in plan.iter().enumerate() {
            let (r, path, sent, sys) = (a.actor_ref(), path.clone(), sent.clone(), w.sys.clone());
            rt::spawn(&format!("sender {t}"), move || {
                for (i, v) in vias.iter().enumerate() {
                    let x = m(t as u8, *v as u8, i as u8);
                    sent.lock().unwrap().push(x);
                    match v {
                        Via::Ref => r.tell(x),
                        Via::Strong => r.hold().expect("live").tell(x),
                        Via::Recipient => { let q: Recipient<M> = r.recipient(); q.tell(x) },
                        Via::Path => path.tell(x, &sys),
                    }
                }
            });
        }
        w.explore()?;
        at_rest(w)?;
        log.finish();
        exact(&msgs(&log, 0), &sent.lock().unwrap())?;
        // and the component still works
        let x = m(99, 0, 0);
        a.actor_ref().tell(x);
        sent.lock().unwrap().push(x);
        w.settle()?;
        exact(&msgs(&log, 0), &sent.lock().unwrap())
    })
}

/// Threads that send to a component whose state changes meanwhile.
fn changing(ctx: &Ctx, plan: &'static [&'static [Via]]) -> Outcome {
    let change = ctx.pick(4);
    ctx.log(|| format!("meanwhile: {}", ["starts", "stops and starts", "blocks on another thread", "blocks on its own wake-up"][change]));
    with_threads(ctx, |w| {
        let log = Log::new(ctx);
        let gates: Gates = Default::default();
        let a = if change == 3 {
            let behave: Arc<Behave> = Arc::new(|me: &mut Probe, e| match e {
                E::Msg(x) if x.seq == 0 => Handled::block_on(me, move |mut me| async move {
                    fut(&mut me, 1, 0);
                    let mut again = true;
                    std::future::poll_fn(move |cx| {
                        if std::mem::take(&mut again) {
                            cx.waker().wake_by_ref();
                            return std::task::Poll::Pending;
                        }
                        std::task::Poll::Ready(())
                    })
                    .await;
                    fut(&mut me, 1, 1);
                    Handled::OK
                }),
                _ => Handled::OK,
            });
            probe(w, 0, &log, behave)
        } else {
            target(w, &log, &gates, false)
        };
        if change > 0 {
            w.sys.start(&a);
            w.settle()?;
        }
        let sent: Arc<Mutex<Vec<M>>> = Default::default();
        if change == 2 {
            let x = m(200, GO_BLOCK, 0);
            a.actor_ref().tell(x);
            sent.lock().unwrap().push(x);
            w.settle()?;
            let p = gates.lock().unwrap().pop().unwrap();
            rt::spawn("fulfil", move || drop(p.fulfil(1)));
        }
        for (t, vias) in plan.iter().enumerate() {
            let (r, sent) = (a.actor_ref(), sent.clone());
            rt::spawn(&format!("sender {t}"), move || {
                for (i, v) in vias.iter().enumerate() {
                    let x = m(t as u8, *v as u8, i as u8);
                    sent.lock().unwrap().push(x);
                    match v {
                        Via::Strong => r.hold().expect("live").tell(x),
                        _ => r.tell(x),
                    }
                }
            });
        }
        if change < 2 {
            let (s, a) = (w.sys.clone(), a.clone());
            rt::spawn("commands", move || {
                if change == 1 {
                    s.stop(&a);
                }
                s.start(&a);
            });
        }
        w.explore()?;
        at_rest(w)?;
        log.finish();
        exact(&msgs(&log, 0), &sent.lock().unwrap())?;
        let x = m(99, 0, 1);
        a.actor_ref().tell(x);
        sent.lock().unwrap().push(x);
        w.settle()?;
        exact(&msgs(&log, 0), &sent.lock().unwrap())
    })
}

/// What a thread does to component A.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Do {
    Tell,
    Port,
    Timer,
    Local,
    Block,
    Cycle,
    OnDef,
    Tell1,
    Ind,
    Kill,
    Future,
}
use Do::{Block, Cycle, Future, Ind, Kill, Local, OnDef, Port, Tell, Tell1};
const GO_LOCAL: u8 = 7;
const GO_BLOCK: u8 = 8;

/// Promises for futures that A awaits.
type Gates = Arc<Mutex<Vec<KPromise<u8>>>>;

/// Component A with a future per gate, and timers if asked for.
fn target(w: &Threads, log: &Log, gates: &Gates, dedicated: bool) -> Arc<Component<Probe>> {
    let g = gates.clone();
    let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
        rt::point("in a handler");
        match e {
            E::Msg(x) if x.route == GO_LOCAL => {
                let (p, f) = promise::<u8>();
                g.lock().unwrap().push(p);
                me.spawn_local(move |mut me| async move {
                    fut(&mut me, 0, 0);
                    let v = f.await.expect("value");
                    fut(&mut me, 0, v);
                    Handled::OK
                });
            }
            E::Msg(x) if x.route == GO_BLOCK => {
                let (p, f) = promise::<u8>();
                g.lock().unwrap().push(p);
                return Handled::block_on(me, move |mut me| async move {
                    fut(&mut me, 1, 0);
                    let v = f.await.expect("value");
                    fut(&mut me, 1, v);
                    Handled::OK
                });
            }
            E::Msg(x) if x.route == 9 => {
                let t = me.schedule_once(std::time::Duration::from_millis(10), |me: &mut Probe, _| me.on(E::Timer(0)));
                me.timers.push(t);
                let t = me.schedule_periodic(
                    std::time::Duration::from_millis(10),
                    std::time::Duration::from_millis(10),
                    |me: &mut Probe, _| me.on(E::Timer(1)),
                );
                me.timers.push(t);
            }
            _ => (),
        }
        Handled::OK
    });
    let a = if dedicated {
        w.sys.create_dedicated(|| Probe::new(0, log, behave))
    } else {
        w.sys.create(|| Probe::new(0, log, behave))
    };
    w.name(a.id(), "A");
    a
}
fn fut(me: &mut Probe, f: u8, p: u8) {
    let _b = me.enter();
    me.log.push(me.who, E::Fut(f, p));
    rt::point("in a future");
}

/// Every combination of `n` things happening to one component at once.
fn mix(ctx: &Ctx, n: usize, menu: &[Do], dedicated: bool) -> Outcome {
    let mut todo: Vec<Do> = vec![];
    let mut from = 0;
    for _ in 0..n {
        from += ctx.pick(menu.len() - from);
        todo.push(menu[from]);
    }
    let twice = |d| todo.iter().filter(|x| **x == d).count() > 1;
    if twice(Block) || twice(Cycle) || twice(Do::Timer) || twice(Kill) || (todo.contains(&Kill) && (todo.contains(&Cycle) || todo.contains(&Future))) {
        return Ok(());
    }
    ctx.log(|| format!("at once: {todo:?}"));
    with_threads(ctx, |w| {
        let log = Log::new(ctx);
        let gates: Gates = Default::default();
        let a = target(w, &log, &gates, dedicated);
        let b = probe(w, 1, &log, quiet());
        biconnect_components::<P1, _, _>(&a, &b).expect("connected");
        biconnect_components::<P2, _, _>(&b, &a).expect("connected");
        w.sys.start(&a);
        w.sys.start(&b);
        w.settle()?;
        let mut want: Vec<(E, usize)> = vec![(E::Start, 1)];
        let mut prior = vec![];
        for (route, d) in [(GO_LOCAL, Local), (9, Do::Timer), (GO_BLOCK, Block)] {
            let k = todo.iter().filter(|x| **x == d).count();
            for i in 0..k {
                let x = m(200, route, i as u8);
                prior.push(x);
                a.actor_ref().tell(x);
            }
        }
        let blocked = todo.contains(&Block);
        w.settle()?;
        let mut sent = prior.clone();
        let mut reqs = 0;
        let mut inds = 0;
        for (t, d) in todo.iter().enumerate() {
            let t = t as u8;
            let name = format!("{d:?}");
            match d {
                Tell | Tell1 => {
                    let r = a.actor_ref();
                    let k = if *d == Tell { 2 } else { 1 };
                    sent.extend((0..k).map(|i| m(t, 0, i)));
                    rt::spawn(&name, move || (0..k).for_each(|i| r.tell(m(t, 0, i))));
                }
                Port => {
                    let b = b.clone();
                    let r = reqs;
                    reqs += 1;
                    rt::spawn(&name, move || {
                        b.on_definition(|b| {
                            b.r1.trigger(m(50 + r, 0, 0));
                            b.r1.trigger(m(50 + r, 0, 1));
                        })
                    });
                    want.push((E::Req(1, m(50 + r, 0, 0)), 1));
                    want.push((E::Req(1, m(50 + r, 0, 1)), 1));
                }
                Ind => {
                    let b = b.clone();
                    let r = inds;
                    inds += 1;
                    rt::spawn(&name, move || b.on_definition(|b| b.p2.trigger(m(60 + r, 0, 0))));
                    want.push((E::Ind(2, m(60 + r, 0, 0)), 1));
                }
                Do::Timer => {
                    let timer = w.timer.clone();
                    rt::spawn(&name, move || timer.advance_by(std::time::Duration::from_millis(20)));
                    want.push((E::Timer(0), 1));
                    want.push((E::Timer(1), 2));
                }
                Local | Block => {
                    let mut g = gates.lock().unwrap();
                    let p = if *d == Local { g.remove(0) } else { g.pop().unwrap() };
                    let f = if *d == Local { 0 } else { 1 };
                    let v = 10 + t;
                    rt::spawn(&name, move || drop(p.fulfil(v)));
                    want.push((E::Fut(f, v), 1));
                }
                Future => {
                    // a request whose handler spawns, fulfilled by the same thread
                    let (r, g) = (a.actor_ref(), gates.clone());
                    let x = m(t, GO_LOCAL, 0);
                    sent.push(x);
                    let v = 20 + t;
                    rt::spawn(&name, move || {
                        r.tell(x);
                        rt::wait_until(|| !g.lock().unwrap().is_empty());
                        let p = g.lock().unwrap().pop().unwrap();
                        p.fulfil(v).expect("fulfilled");
                    });
                    want.push((E::Fut(0, v), 1));
                }
                Cycle => {
                    let (s, a) = (w.sys.clone(), a.clone());
                    rt::spawn(&name, move || {
                        s.stop(&a);
                        s.start(&a);
                    });
                    want[0].1 = 2;
                    want.push((E::Stop, 1));
                }
                Kill => {
                    let (s, a) = (w.sys.clone(), a.clone());
                    rt::spawn(&name, move || s.kill(a));
                    want.push((E::Kill, 1));
                }
                OnDef => {
                    let a = a.clone();
                    rt::spawn(&name, move || {
                        a.on_definition(|a| {
                            let _b = a.enter();
                            rt::point("in on_definition");
                            a.log.push(0, E::Note(9, t));
                        })
                    });
                    want.push((E::Note(9, t), 1));
                }
            }
        }
        w.explore()?;
        at_rest(w)?;
        log.finish();
        let got = log.of(0);
        let killed = todo.contains(&Kill);
        if killed {
            let at = got.iter().position(|e| *e == E::Kill);
            ensure!(at.is_some(), "not killed", "handled {got:?}");
            ensure!(
                got[at.unwrap() + 1..].iter().all(|e| matches!(e, E::Note(..))),
                "handled after kill",
                "handled {got:?}"
            );
            ensure!(a.is_destroyed(), "not destroyed", "handled {got:?}");
        }
        for (e, n) in &want {
            let k = got.iter().filter(|x| *x == e).count();
            ensure!(
                k == *n || (killed && k < *n && *e != E::Kill),
                "lost or repeated",
                "{e:?} handled {k} times instead of {n}: {got:?}"
            );
        }
        if !killed {
            exact(&msgs(&log, 0), &sent)?;
            let known = want.iter().map(|w| w.1).sum::<usize>() + sent.len();
            let fut0 = got.iter().filter(|e| matches!(e, E::Fut(_, 0))).count();
            ensure!(got.len() == known + fut0, "unexpected event", "{got:?} instead of {want:?} and {sent:?}");
            // port events in order
            for r in 0..reqs {
                let s: Vec<u8> =
                    got.iter().filter_map(|e| if let E::Req(1, x) = e { (x.from == 50 + r).then_some(x.seq) } else { None }).collect();
                ensure!(s == [0, 1], "port events out of order", "{got:?}");
            }
            // a stopped component handles nothing
            if let Some(i) = got.iter().position(|e| *e == E::Stop) {
                let j = got.iter().rposition(|e| *e == E::Start).unwrap();
                ensure!(j > i, "start before stop", "{got:?}");
                ensure!(
                    got[i + 1..j].iter().all(|e| matches!(e, E::Note(..) | E::Fut(..))),
                    "handled while stopped",
                    "{got:?}"
                );
            }
            if blocked {
                // nothing but the future between the blocking handler and its end
                let i = got.iter().position(|e| matches!(e, E::Fut(1, 0))).unwrap();
                let j = got.iter().position(|e| matches!(e, E::Fut(1, x) if *x > 0)).unwrap();
                ensure!(got[i + 1..j].iter().all(|e| matches!(e, E::Note(..))), "handled while blocked", "{got:?}");
            }
            // and the component still works
            let x = m(99, 0, 0);
            a.actor_ref().tell(x);
            sent.push(x);
            w.settle()?;
            exact(&msgs(&log, 0), &sent)?;
        }
        if dedicated {
            let on: std::collections::BTreeSet<_> = log.threads_of(0);
            ensure!(on.len() == 1, "wrong thread", "a component with its own thread ran on threads {on:?}");
            ensure!(
                killed || w.stuck().len() == 1,
                "wrong thread",
                "its thread is not idle: {:?}",
                w.stuck()
            );
            if !killed {
                w.sys.kill(a.clone());
                w.settle()?;
            }
            ensure!(a.is_destroyed(), "not destroyed", "the component was not destroyed");
            ensure!(w.stuck().is_empty(), "thread did not end", "after the kill {:?} still waits", w.stuck());
        }
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    use Via::*;
    const ALL: &[Do] = &[Tell1, Port, Do::Timer, Local, Block, Cycle, OnDef, Ind, Kill, Future];
    // commands, and what a component must not handle unless it is active
    const CMD: &[Do] = &[Tell, Port, Do::Timer, Cycle, Ind, Kill];
    let check = |id, scenarios| Check { id, level: "model_checking", rule: RULE, assumptions: vec![SC.into()], scenarios };
    vec![
        check(
            "C01",
            Box::new(|t: Tier| {
                vec![
                    Scenario::new("threads-two-senders", t.or(5, 7), |c| senders(c, &[&[Ref, Ref], &[Ref, Ref]])),
                    Scenario::new("threads-changing-state", t.or(3, 5), |c| changing(c, &[&[Ref, Ref], &[Strong]])),
                    Scenario::new("threads-three-senders", t.or(4, 6), |c| senders(c, &[&[Strong], &[Recipient], &[Ref, Ref]])),
                    Scenario::new("threads-path-senders", t.or(3, 4), |c| senders(c, &[&[Path, Path], &[Ref, Path]])),
                ]
            }),
        ),
        check(
            "C02",
            Box::new(|t: Tier| {
                vec![
                    Scenario::new("pairs", t.or(3, 4), |c| mix(c, 2, ALL, false)),
                    Scenario::new("triples", t.or(2, 3), |c| mix(c, 3, ALL, false)),
                ]
            }),
        ),
        check(
            "C03",
            Box::new(|t: Tier| {
                vec![
                    Scenario::new("threads-pairs", t.or(3, 4), |c| mix(c, 2, CMD, false)),
                    Scenario::new("threads-triples", t.or(2, 3), |c| mix(c, 3, CMD, false)),
                ]
            }),
        ),
        check(
            "C12",
            Box::new(|t: Tier| {
                vec![
                    Scenario::new("single", t.or(3, 5), |c| mix(c, 1, ALL, true)),
                    Scenario::new("pairs", t.or(2, 4), |c| mix(c, 2, ALL, true)),
                    Scenario::new("triples", t.or(1, 3), |c| mix(c, 3, ALL, true)),
                ]
            }),
        ),
    ]
}

pub const RULE: &str = "stateless exploration of the real runtime: every interleaving of its threads' synchronisation \
                    operations within a bound on context switches";
pub const SC: &str = "interleavings are sequentially consistent; context switches happen at operations on kompact's \
                  atomics, queues, locks, promises and park tokens, and inside handlers";
