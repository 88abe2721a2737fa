//! C03: components handle events only while started; nothing is lost meanwhile.
use crate::{common::*, world::*};
use explore::*;
use kompact::prelude::*;
use std::sync::Arc;

/// Message routes with a special meaning to the probe.
pub const SUICIDE: u8 = 6;
pub const SHUTDOWN: u8 = 7;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Created,
    Started,
    Stopped,
    Dead,
}

/// Replays the observed handler log against the specification automaton.
///
/// `cmds` are the lifecycle commands in the order in which they were issued.
fn conforms(evs: &[E], cmds: &[E]) -> Result<(St, usize), Violation> {
    let mut st = St::Created;
    let mut next = 0;
    let mut must_die = false;
    let mut suicides = 0;
    for e in evs {
        ensure!(st != St::Dead, "handler ran after kill", "{e:?} after Kill in {evs:?}");
        match e {
            E::Start | E::Stop | E::Kill => {
                if must_die {
                    ensure!(*e == E::Kill, "shutdown did not kill", "{e:?} after a shutdown request in {evs:?}");
                } else if cmds.get(next) == Some(e) {
                    next += 1;
                } else if *e == E::Kill && suicides > 0 {
                    suicides -= 1;
                } else {
                    return Err(Violation::new(
                        "lifecycle handler out of order",
                        format!("{e:?} is not command {next} of {cmds:?}; log {evs:?}"),
                    ));
                }
                st = match e {
                    E::Start => St::Started,
                    E::Stop => St::Stopped,
                    _ => St::Dead,
                };
            }
            E::Msg(_) | E::Req(..) | E::Ind(..) | E::Timer(_) | E::Fut(..) => {
                ensure!(!must_die, "handler ran after shutdown", "{e:?} after a shutdown request in {evs:?}");
                ensure!(
                    st == St::Started,
                    "event handled while not started",
                    "{e:?} handled in state {st:?}; log {evs:?}"
                );
                if let E::Msg(x) | E::Req(_, x) | E::Ind(_, x) = e {
                    if x.route == SHUTDOWN {
                        must_die = true;
                    }
                    if x.route == SUICIDE {
                        suicides += 1;
                    }
                }
            }
            _ => {}
        }
    }
    ensure!(!must_die || st == St::Dead, "shutdown did not kill", "no Kill after shutdown request: {evs:?}");
    Ok((st, next))
}

fn ordered(evs: &[E], sent: &[M], reqs: &[M], all: bool) -> Outcome {
    let got: Vec<M> = evs.iter().filter_map(|e| if let E::Msg(m) = e { Some(*m) } else { None }).collect();
    let gotr: Vec<M> = evs.iter().filter_map(|e| if let E::Req(1, m) = e { Some(*m) } else { None }).collect();
    for (g, s, what) in [(&got, sent, "messages"), (&gotr, reqs, "port events")] {
        let prefix = g.len() <= s.len() && s[..g.len()] == g[..];
        ensure!(prefix, "lost or reordered", "{what}: sent {s:?}, handled {g:?}");
        ensure!(!all || g.len() == s.len(), "not handled after restart", "{what}: sent {s:?}, handled {g:?}");
    }
    Ok(())
}

fn program(ctx: &Ctx, depth: usize, specials: bool) -> Outcome {
    let w = World::new(ctx);
    let log = Log::new(ctx);
    let behave: Arc<Behave> = Arc::new(|me: &mut Probe, e| {
        if let E::Msg(x) | E::Req(_, x) = e {
            if x.route == SHUTDOWN {
                return Handled::SHUTDOWN;
            }
            if x.route == SUICIDE {
                me.ctx.suicide();
            }
        }
        Handled::OK
    });
    let a = w.sys.create(|| Probe::new(0, &log, behave));
    w.name(a.id(), "A");
    let aref: ActorRef<M> = a.actor_ref();
    let pref: ProvidedRef<P1> = a.provided_ref();
    let (mut cmds, mut msgs, mut reqs) = (vec![], vec![], vec![]);
    for _ in 0..depth {
        match ctx.pick(if specials { 10 } else { 6 }) {
            0 => {
                if !w.step()? {
                    continue;
                }
            }
            1 => {
                ctx.log(|| "start".into());
                w.sys.start(&a);
                cmds.push(E::Start);
            }
            2 => {
                ctx.log(|| "stop".into());
                w.sys.stop(&a);
                cmds.push(E::Stop);
            }
            3 => {
                let x = m(50, 0, msgs.len() as u8);
                ctx.log(|| format!("send {x:?}"));
                aref.tell(x);
                msgs.push(x);
            }
            4 => {
                let x = m(50, 1, reqs.len() as u8);
                ctx.log(|| format!("trigger {x:?}"));
                w.sys.trigger_r(x, &pref);
                reqs.push(x);
            }
            5 => {
                ctx.log(|| "kill".into());
                w.sys.kill(a.clone());
                cmds.push(E::Kill);
            }
            k @ (6 | 7) => {
                let x = m(50, if k == 6 { SUICIDE } else { SHUTDOWN }, msgs.len() as u8);
                ctx.log(|| format!("send {x:?}"));
                aref.tell(x);
                msgs.push(x);
            }
            k => {
                let x = m(50, if k == 8 { SUICIDE } else { SHUTDOWN }, reqs.len() as u8);
                ctx.log(|| format!("trigger {x:?}"));
                w.sys.trigger_r(x, &pref);
                reqs.push(x);
            }
        }
        let evs = log.of(0);
        conforms_partial(&evs, &cmds)?;
    }
    let progress = || log.count() + 1;
    w.drain_spin(&progress)?;
    let evs = log.of(0);
    let (st, n) = conforms(&evs, &cmds)?;
    let died = st == St::Dead;
    if !died {
        ensure!(
            n == cmds.len(),
            "lifecycle command not handled",
            "commands {cmds:?}, handler log {evs:?}"
        );
        // (re)start it: everything retained is handled now
        ctx.log(|| "epilogue: start".into());
        w.sys.start(&a);
        cmds.push(E::Start);
        w.drain_spin(&progress)?;
        let evs = log.of(0);
        let (st, n) = conforms(&evs, &cmds)?;
        if st != St::Dead {
            ensure!(n == cmds.len(), "lifecycle command not handled", "commands {cmds:?}, log {evs:?}");
        }
        ordered(&evs, &msgs, &reqs, st != St::Dead)?;
    } else {
        ordered(&evs, &msgs, &reqs, false)?;
        // a killed component stays dead whatever is thrown at it
        ctx.log(|| "epilogue: commands to the dead component".into());
        let before = log.count();
        w.sys.start(&a);
        aref.tell(m(50, 0, 99));
        w.sys.trigger_r(m(50, 1, 99), &pref);
        w.settle_bounded(50)?;
        ensure!(log.count() == before, "handler ran after kill", "log {:?}", log.of(0));
    }
    log.finish();
    Ok(())
}

/// As `conforms`, but a pending shutdown may not have reached its Kill yet.
fn conforms_partial(evs: &[E], cmds: &[E]) -> Outcome {
    conforms(evs, cmds).map(|_| ())
}

/// Lifecycle handlers that end the component themselves.
fn self_ending(ctx: &Ctx, depth: usize) -> Outcome {
    let w = World::new(ctx);
    let log = Log::new(ctx);
    let kind = ctx.pick(4);
    let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| match (kind, e) {
        (0, E::Start) | (1, E::Stop) | (2, E::Kill) => Handled::SHUTDOWN,
        (3, E::Stop) => {
            me.ctx.suicide();
            Handled::OK
        }
        _ => Handled::OK,
    });
    let a = w.sys.create(|| Probe::new(0, &log, behave));
    w.name(a.id(), "A");
    let aref: ActorRef<M> = a.actor_ref();
    let mut n = 0;
    for _ in 0..depth {
        match ctx.pick(5) {
            0 => {
                w.step()?;
            }
            1 => w.sys.start(&a),
            2 => w.sys.stop(&a),
            3 => {
                aref.tell(m(50, 0, n));
                n += 1;
            }
            _ => w.sys.kill(a.clone()),
        }
    }
    w.drain_spin(&|| log.count() + 1)?;
    let evs = log.of(0);
    log.finish();
    let kills = evs.iter().filter(|e| **e == E::Kill).count();
    ensure!(kills <= 1, "kill handler ran twice", "{evs:?}");
    if let Some(i) = evs.iter().position(|e| *e == E::Kill) {
        ensure!(i + 1 == evs.len(), "handler ran after kill", "{evs:?}");
    }
    for (k, ev) in [(0, E::Start), (1, E::Stop)] {
        if kind == k
            && let Some(i) = evs.iter().position(|e| *e == ev)
        {
            ensure!(
                evs[i + 1..] == [E::Kill],
                "shutdown did not kill",
                "after {ev:?} asked to shut down: {evs:?}"
            );
        }
    }
    if kind == 3 && evs.contains(&E::Stop) {
        ensure!(kills == 1, "suicide did not kill", "{evs:?}");
    }
    Ok(())
}

/// Pending once, having woken itself.
fn yielding() -> impl Future<Output = ()> + Send {
    let mut done = false;
    futures::future::poll_fn(move |cx| {
        if std::mem::replace(&mut done, true) {
            return std::task::Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    })
}

/// A handler of any kind ends its component, while there is more work of all kinds.
fn ending(ctx: &Ctx) -> Outcome {
    let w = World::new(ctx);
    let log = Log::new(ctx);
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum By {
        Msg,
        Req(u8),
        Ind(u8),
        Timer,
        Local,
        Blocking,
    }
    use By::*;
    let by = *ctx.pick_of(&[Msg, Req(1), Req(2), Ind(1), Ind(2), Timer, Local, Blocking]);
    let shutdown = ctx.pick(2) == 0;
    // whether the ending one comes before, between or behind the others
    let place = ctx.pick(4);
    let end = move |me: &mut Probe| {
        if shutdown {
            Handled::SHUTDOWN
        } else {
            me.ctx.suicide();
            Handled::OK
        }
    };
    const FIN: u8 = 99;
    let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| match e {
        E::Msg(x) if x.seq == FIN && by == Msg => end(me),
        E::Req(p, x) if x.seq == FIN && by == Req(p) => end(me),
        E::Ind(p, x) if x.seq == FIN && by == Ind(p) => end(me),
        E::Timer(FIN) => end(me),
        // asked for by a message
        E::Msg(x) if x.seq == FIN => {
            let (d, shutdown) = (std::time::Duration::from_millis(0), shutdown);
            match by {
                Timer => {
                    me.schedule_once(d, |me: &mut Probe, _| me.on(E::Timer(FIN)));
                    Handled::OK
                }
                Local => {
                    me.spawn_local(move |mut me| async move {
                        yielding().await;
                        me.log.push(0, E::Fut(0, 0));
                        if shutdown {
                            return Handled::SHUTDOWN;
                        }
                        me.ctx.suicide();
                        let _ = &mut me;
                        Handled::OK
                    });
                    Handled::OK
                }
                _ => Handled::block_on(me, move |me| async move {
                    yielding().await;
                    me.log.push(0, E::Fut(0, 0));
                    if shutdown {
                        return Handled::SHUTDOWN;
                    }
                    me.ctx.suicide();
                    Handled::OK
                }),
            }
        }
        _ => Handled::OK,
    });
    let a = w.sys.create(|| Probe::new(0, &log, behave));
    w.name(a.id(), "A");
    let aref: ActorRef<M> = a.actor_ref();
    let p1: ProvidedRef<P1> = a.provided_ref();
    let p2: ProvidedRef<P2> = a.provided_ref();
    let r1: RequiredRef<P1> = a.required_ref();
    let r2: RequiredRef<P2> = a.required_ref();
    w.sys.start(&a);
    w.settle()?;
    let all = |n: u8| {
        aref.tell(m(50, 0, n));
        w.sys.trigger_r(m(50, 1, n), &p1);
        w.sys.trigger_r(m(50, 2, n), &p2);
        w.sys.trigger_i(m(50, 3, n), &r1);
        w.sys.trigger_i(m(50, 4, n), &r2);
    };
    let fin = || match by {
        Req(1) => w.sys.trigger_r(m(50, 1, FIN), &p1),
        Req(_) => w.sys.trigger_r(m(50, 2, FIN), &p2),
        Ind(1) => w.sys.trigger_i(m(50, 3, FIN), &r1),
        Ind(_) => w.sys.trigger_i(m(50, 4, FIN), &r2),
        _ => aref.tell(m(50, 0, FIN)),
    };
    for i in 0..3 {
        if i == place {
            fin();
        }
        all(i as u8);
        if ctx.pick(2) == 1 {
            w.step()?;
        }
    }
    if place == 3 {
        fin();
    }
    w.drain_spin(&|| log.count() + 1)?;
    if by == Timer {
        w.advance(1);
        w.drain_spin(&|| log.count() + 1)?;
    }
    let evs = log.of(0);
    log.finish();
    ensure!(
        evs.iter().filter(|e| **e == E::Kill).count() == 1 && evs.last() == Some(&E::Kill),
        if shutdown { "shutdown did not kill" } else { "suicide did not kill" },
        "{by:?}: {evs:?}"
    );
    let last = evs.iter().position(|e| match (by, e) {
        (Timer, E::Timer(_)) | (Local | Blocking, E::Fut(..)) => true,
        (Msg, E::Msg(x)) => x.seq == FIN,
        (Req(p), E::Req(q, x)) => p == *q && x.seq == FIN,
        (Ind(p), E::Ind(q, x)) => p == *q && x.seq == FIN,
        _ => false,
    });
    ensure!(last.is_some(), "lost", "{by:?} was not handled: {evs:?}");
    if shutdown {
        ensure!(
            last == Some(evs.len() - 2),
            "handler ran after shutdown",
            "{by:?} asked to shut down: {evs:?}"
        );
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C03",
        level: "model_checking",
        rule: "every sequence of lifecycle commands, sends and triggers up to the depth, in every job order within the deviation bound, on the real runtime; the handler log is replayed against the lifecycle automaton",
        assumptions: vec![],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("commands", t.or(1, 2), move |c| program(c, t.or(6, 7), false)),
                Scenario::new("commands-and-self-termination", t.or(1, 1), move |c| program(c, t.or(5, 6), true)),
                Scenario::new("ended-by-handlers", t.or(1, 2), ending),
                Scenario::new("self-ending-lifecycle-handlers", 1, move |c| self_ending(c, t.or(5, 7))),
            ]
        }),
    }]
}
