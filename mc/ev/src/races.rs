//! More scenarios over explored threads: wake-ups, faults, shutdown, notifications, channels,
//! timers, promises and routing groups.
use crate::{common::*, rt::{self, Threads, with_threads}};
use explore::*;
use kompact::prelude::*;
use std::{
    future::Future,
    pin::Pin,
    sync::{
        Arc, Mutex,
        atomic::{AtomicUsize, Ordering},
    },
    task::{Context, Poll, Waker},
    time::Duration,
};

fn probe(w: &Threads, who: u8, log: &Log, b: Arc<Behave>) -> Arc<Component<Probe>> {
    let c = w.sys.create(|| Probe::new(who, log, b));
    w.name(c.id(), who_name(who));
    c
}
fn slow() -> Arc<Behave> {
    Arc::new(|_, _| {
        rt::point("in a handler");
        Handled::OK
    })
}
fn msgs(log: &Log, who: u8) -> Vec<M> {
    log.of(who).into_iter().filter_map(|e| if let E::Msg(m) = e { Some(m) } else { None }).collect()
}
fn count(log: &Log, who: u8, e: E) -> usize {
    log.of(who).into_iter().filter(|x| *x == e).count()
}
fn at_rest(w: &Threads) -> Outcome {
    let d = w.deadlocked();
    ensure!(d.is_empty(), "deadlock", "waiting forever: {d:?}");
    Ok(())
}

/// A future that is ready once it was woken often enough.
#[derive(Clone, Default)]
struct Slot(Arc<(AtomicUsize, Mutex<Vec<Waker>>)>);
impl Slot {
    fn wake(&self) {
        self.0.0.fetch_add(1, Ordering::SeqCst);
        rt::point("between value and wake-up");
        let ws = std::mem::take(&mut *self.0.1.lock().unwrap());
        for x in ws {
            x.wake();
        }
    }
    /// without effect on the value
    fn spurious(&self) {
        let ws = self.0.1.lock().unwrap().clone();
        for x in ws {
            x.wake_by_ref();
        }
    }
    fn after(&self, n: usize) -> Waiting {
        Waiting(self.clone(), n)
    }
}
struct Waiting(Slot, usize);
impl Future for Waiting {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.0.0.1.lock().unwrap().push(cx.waker().clone());
        rt::point("registered");
        if self.0.0.0.load(Ordering::SeqCst) >= self.1 {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

/// Two threads wake a future of A, others send to it.
fn wakes(ctx: &Ctx, block: bool, dedicated: bool) -> Outcome {
    let extra = ctx.pick(3);
    let sites = ctx.pick(2);
    with_threads(ctx, |w| {
        let log = Log::new(ctx);
        let slot = Slot::default();
        let s = slot.clone();
        let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
            rt::point("in a handler");
            if matches!(e, E::Msg(x) if x.route == 7) {
                let s = s.clone();
                let f = move |me: ComponentDefinitionAccess<Probe>| {
                    let mut me = me;
                    async move {
                        note(&mut me, 1);
                        if sites == 0 {
                            s.after(2).await;
                        } else {
                            // two stages, and whatever completes the first may come during it
                            s.after(1).await;
                            note(&mut me, 2);
                            s.after(2).await;
                        }
                        note(&mut me, 3);
                        Handled::OK
                    }
                };
                if block {
                    return Handled::block_on(me, f);
                }
                me.spawn_local(f);
            }
            Handled::OK
        });
        let a = if dedicated {
            w.sys.create_dedicated(|| Probe::new(0, &log, behave))
        } else {
            probe(w, 0, &log, behave)
        };
        w.sys.start(&a);
        w.settle()?;
        let mut sent = vec![m(9, 7, 0)];
        a.actor_ref().tell(sent[0]);
        if extra != 1 {
            w.settle()?;
        }
        for _ in 0..2 {
            let s = slot.clone();
            rt::spawn("waker", move || s.wake());
        }
        if extra > 0 {
            let (r, s) = (a.actor_ref(), slot.clone());
            sent.push(m(1, 0, 0));
            let x = sent[1];
            rt::spawn("sender", move || {
                r.tell(x);
                s.spurious();
            });
        }
        w.explore()?;
        at_rest(w)?;
        log.finish();
        let got = log.of(0);
        let n = |p| got.iter().filter(|e| **e == E::Fut(0, p)).count();
        ensure!(n(1) == 1 && n(3) == 1 && n(2) == sites, "future not run to its end once", "{got:?}");
        ensure!(msgs(&log, 0).len() == sent.len(), "lost", "sent {sent:?}: {got:?}");
        if block {
            let i = got.iter().position(|e| *e == E::Fut(0, 1)).unwrap();
            let j = got.iter().position(|e| *e == E::Fut(0, 3)).unwrap();
            ensure!(got[i..j].iter().all(|e| matches!(e, E::Fut(..))), "handled while blocked", "{got:?}");
        }
        if dedicated {
            ensure!(log.threads_of(0).len() == 1, "wrong thread", "ran on {:?}", log.threads_of(0));
        }
        a.actor_ref().tell(m(99, 0, 0));
        w.settle()?;
        ensure!(log.of(0).last() == Some(&E::Msg(m(99, 0, 0))), "component wedged", "{:?}", log.of(0));
        if dedicated {
            w.sys.kill(a);
            w.settle()?;
            ensure!(w.stuck().is_empty(), "thread did not end", "{:?}", w.stuck());
        }
        Ok(())
    })
}
fn note(me: &mut Probe, p: u8) {
    let _b = me.enter();
    me.log.push(me.who, E::Fut(0, p));
    rt::point("in a future");
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Site {
    Msg,
    Req,
    Timer,
    Blocking,
    Local,
    Stop,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fault {
    Panic,
    Recoverable,
    Unrecoverable,
}

/// A faults in a handler while other threads deal with it.
fn faults(ctx: &Ctx, dedicated: bool) -> Outcome {
    let site = *ctx.pick_of(&[Site::Msg, Site::Req, Site::Timer, Site::Blocking, Site::Local, Site::Stop]);
    let fault = *ctx.pick_of(&[Fault::Panic, Fault::Recoverable, Fault::Unrecoverable]);
    let other = ctx.pick(4);
    ctx.log(|| format!("{fault:?} in {site:?}"));
    with_threads(ctx, |w| {
        let log = Log::new(ctx);
        let slot = Slot::default();
        let s = slot.clone();
        let blow = move |me: &mut Probe| -> HandlerResult {
            let _b = me.enter();
            me.log.push(0, E::Note(1, 0));
            rt::point("about to fault");
            match fault {
                Fault::Panic => panic!("planned"),
                Fault::Recoverable => Err(HandlerError::recoverable(std::fmt::Error)),
                Fault::Unrecoverable => Err(HandlerError::unrecoverable(std::fmt::Error)),
            }
        };
        let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
            rt::point("in a handler");
            match e {
                E::Msg(x) if x.route == 7 => {
                    let s = s.clone();
                    match site {
                        Site::Msg => {
                            me.log.push(0, E::Note(1, 0));
                            rt::point("about to fault");
                            match fault {
                                Fault::Panic => panic!("planned"),
                                Fault::Recoverable => return Err(HandlerError::recoverable(std::fmt::Error)),
                                Fault::Unrecoverable => return Err(HandlerError::unrecoverable(std::fmt::Error)),
                            }
                        }
                        Site::Timer => {
                            let t = me.schedule_once(Duration::from_millis(10), move |me: &mut Probe, _| blow(me));
                            me.timers.push(t);
                        }
                        Site::Blocking => {
                            return Handled::block_on(me, move |mut me| async move {
                                s.after(1).await;
                                blow(&mut me)
                            });
                        }
                        Site::Local => me.spawn_local(move |mut me| async move {
                            s.after(1).await;
                            blow(&mut me)
                        }),
                        _ => (),
                    }
                }
                E::Req(..) | E::Stop => {
                    me.log.push(0, E::Note(1, 0));
                    rt::point("about to fault");
                    match fault {
                        Fault::Panic => panic!("planned"),
                        Fault::Recoverable => return Err(HandlerError::recoverable(std::fmt::Error)),
                        Fault::Unrecoverable => return Err(HandlerError::unrecoverable(std::fmt::Error)),
                    }
                }
                _ => (),
            }
            Handled::OK
        });
        let a = if dedicated {
            w.sys.create_dedicated(|| Probe::new(0, &log, behave))
        } else {
            probe(w, 0, &log, behave)
        };
        let b = probe(w, 1, &log, slow());
        biconnect_components::<P1, _, _>(&a, &b).expect("connected");
        let calls = Arc::new(AtomicUsize::new(0));
        let execs = Arc::new(AtomicUsize::new(0));
        let repl: Arc<Mutex<Option<Arc<Component<Probe>>>>> = Default::default();
        let (c1, e1, r1, l1) = (calls.clone(), execs.clone(), repl.clone(), log.clone());
        a.set_recovery_function(move |fc| {
            c1.fetch_add(1, Ordering::SeqCst);
            rt::point("recovery");
            fc.recover_with(move |_, sys, _| {
                e1.fetch_add(1, Ordering::SeqCst);
                let c = sys.create(|| Probe::new(2, &l1, slow()));
                sys.start(&c);
                *r1.lock().unwrap() = Some(c);
            })
        });
        w.sys.start(&a);
        w.sys.start(&b);
        w.settle()?;
        if matches!(site, Site::Timer | Site::Blocking | Site::Local) {
            a.actor_ref().tell(m(9, 7, 0));
            w.settle()?;
        }
        // the fault
        match site {
            Site::Msg => {
                let r = a.actor_ref();
                rt::spawn("go", move || r.tell(m(9, 7, 0)));
            }
            Site::Req => {
                let b = b.clone();
                rt::spawn("go", move || b.on_definition(|b| b.r1.trigger(m(9, 0, 0))));
            }
            Site::Timer => {
                let t = w.timer.clone();
                rt::spawn("go", move || t.advance_by(Duration::from_millis(10)));
            }
            Site::Blocking | Site::Local => {
                let s = slot.clone();
                rt::spawn("go", move || s.wake());
            }
            Site::Stop => {
                let (s, a) = (w.sys.clone(), a.clone());
                rt::spawn("go", move || s.stop(&a));
            }
        }
        // something else
        let mut killed = false;
        match other {
            0 => {
                let r = a.actor_ref();
                rt::spawn("sender", move || {
                    r.tell(m(1, 0, 0));
                    r.tell(m(1, 0, 1));
                });
            }
            1 => {
                let (s, r) = (slot.clone(), a.actor_ref());
                rt::spawn("spurious", move || {
                    s.spurious();
                    r.tell(m(1, 0, 0));
                });
            }
            2 => {
                killed = true;
                let (s, a) = (w.sys.clone(), a.clone());
                rt::spawn("kill", move || s.kill(a));
            }
            _ => {
                let (r, q) = (b.actor_ref(), a.actor_ref());
                rt::spawn("sender to both", move || {
                    q.tell(m(1, 0, 0));
                    r.tell(m(1, 0, 0));
                });
            }
        }
        w.explore()?;
        at_rest(w)?;
        log.finish();
        let got = log.of(0);
        let blown = got.iter().position(|e| *e == E::Note(1, 0));
        let (nc, ne) = (calls.load(Ordering::SeqCst), execs.load(Ordering::SeqCst));
        match blown {
            Some(i) => {
                ensure!(i + 1 == got.len(), "handler ran after fault", "{got:?}");
                let want = (fault != Fault::Unrecoverable) as usize;
                ensure!(
                    nc == want && ne == want,
                    "recovery not executed exactly once",
                    "recovery function called {nc} times, its action executed {ne} times: {got:?}"
                );
                ensure!(if want == 1 { a.is_faulty() } else { a.is_destroyed() }, "state after fault", "{got:?}");
            }
            None => {
                ensure!(killed, "never faulted", "{got:?}");
                ensure!(nc == 0 && ne == 0, "recovery without fault", "{got:?}");
            }
        }
        // everyone else lives on
        b.actor_ref().tell(m(99, 0, 0));
        if let Some(r) = repl.lock().unwrap().as_ref() {
            r.actor_ref().tell(m(99, 0, 0));
        }
        a.actor_ref().tell(m(99, 0, 0));
        w.settle()?;
        ensure!(log.of(1).last() == Some(&E::Msg(m(99, 0, 0))), "other component affected", "{:?}", log.of(1));
        if ne == 1 {
            ensure!(log.of(2) == [E::Start, E::Msg(m(99, 0, 0))], "replacement does not work", "{:?}", log.of(2));
        }
        ensure!(log.of(0) == got, "handler ran after fault", "{:?}", log.of(0));
        if dedicated {
            ensure!(log.threads_of(0).len() == 1, "wrong thread", "ran on {:?}", log.threads_of(0));
            ensure!(w.stuck().is_empty(), "thread did not end", "{:?}", w.stuck());
        }
        Ok(())
    })
}

/// Shutdown while other threads use the system.
fn shutdown(ctx: &Ctx, dedicated: bool) -> Outcome {
    let other = ctx.pick(7);
    with_threads(ctx, |w| {
        let log = Log::new(ctx);
        let mk = |who: u8| {
            if dedicated && who == 0 {
                w.sys.create_dedicated(|| Probe::new(0, &log, slow()))
            } else {
                probe(w, who, &log, slow())
            }
        };
        let (a, b, c) = (mk(0), mk(1), mk(2));
        biconnect_components::<P1, _, _>(&a, &b).expect("connected");
        w.sys.start(&a);
        w.sys.start(&b);
        w.settle()?;
        let done = Arc::new(AtomicUsize::new(0));
        let (sys, d, log2) = (w.sys.clone(), done.clone(), log.clone());
        rt::spawn("shutdown", move || {
            let r = kompact::mc::block_on(sys.shutdown());
            log2.push(9, E::Note(9, r.is_ok() as u8));
            d.store(1 + r.is_ok() as usize, Ordering::SeqCst);
        });
        // commands are refused with a panic once the system has gone
        let (sys, a2, b2, c2) = (w.sys.clone(), a.clone(), b.clone(), c.clone());
        let again = Arc::new(AtomicUsize::new(2));
        let again2 = again.clone();
        rt::spawn("user", move || {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match other {
                0 => {
                    a2.actor_ref().tell(m(1, 0, 0));
                    a2.actor_ref().tell(m(1, 0, 1));
                }
                1 => sys.kill(a2.clone()),
                2 => sys.stop(&a2),
                3 => sys.start(&c2),
                4 => b2.on_definition(|b| b.r1.trigger(m(1, 0, 0))),
                // (refused if the system is gone already)
                6 => {
                    let r = kompact::mc::block_on(sys.shutdown());
                    again2.store(1 + r.is_ok() as usize, Ordering::SeqCst);
                }
                _ => {
                    sys.kill(c2.clone());
                    sys.stop(&b2);
                    sys.start(&b2);
                }
            }));
        });
        w.explore()?;
        at_rest(w)?;
        log.finish();
        ensure!(done.load(Ordering::SeqCst) != 0, "shutdown never completes", "{:?}", log.all());
        ensure!(done.load(Ordering::SeqCst) == 2, "shutdown failed", "{:?}", log.all());
        ensure!(again.load(Ordering::SeqCst) == 2, "shutdown failed", "requested again: {:?}", log.all());
        let all = log.all();
        let end = all.iter().position(|x| x.0 == 9).unwrap();
        for (who, x) in [(0u8, &a), (1, &b), (2, &c)] {
            let got = log.of(who);
            let kills = got.iter().filter(|e| **e == E::Kill).count();
            let started = got.contains(&E::Start);
            if who == 2 && other == 3 {
                // whether shutdown still finds a component that is just being started is open
                ensure!(kills <= 1 && (kills == 0 || got.last() == Some(&E::Kill)), "handler ran after kill", "{got:?}");
                continue;
            }
            ensure!(kills == 1 || kills == 0 && !started, "kill handler did not run exactly once", "{}: {got:?}", who_name(who));
            if started {
                ensure!(got.last() == Some(&E::Kill), "handler ran after kill", "{got:?}");
                ensure!(x.is_destroyed(), "component not destroyed by shutdown", "{got:?}");
                ensure!(
                    all[end..].iter().all(|x| x.0 != who),
                    "handler ran after shutdown completed",
                    "{}: {all:?}",
                    who_name(who)
                );
            }
        }
        ensure!(w.stuck().is_empty(), "thread did not end", "{:?}", w.stuck());
        Ok(())
    })
}

/// Notifications: whoever waits for one continues after the handler, and does continue.
fn notify(ctx: &Ctx) -> Outcome {
    let mut plan = vec![];
    let mut from = 0;
    for _ in 0..2 {
        from += ctx.pick(5 - from);
        plan.push(from);
    }
    if plan == [4, 4] || plan.contains(&4) && plan.iter().any(|p| *p < 3) {
        // commands for a component that another thread kills are not for a live component
        return Ok(());
    }
    with_threads(ctx, |w| {
        let log = Log::new(ctx);
        let a = probe(w, 0, &log, slow());
        let b = probe(w, 1, &log, slow());
        w.sys.start(&b);
        if plan[0] > 1 {
            w.sys.start(&a);
        }
        w.settle()?;
        let early = Arc::new(Mutex::new(vec![]));
        let alone = plan[0] != plan[1] && plan[1] > 2;
        for (t, p) in plan.iter().enumerate() {
            let (sys, a, b, log, early) = (w.sys.clone(), a.clone(), b.clone(), log.clone(), early.clone());
            let p = *p;
            rt::spawn(&format!("user {t}"), move || {
                let ask = |what: E, who: u8, f: &dyn Fn() -> KFuture<()>| {
                    // another thread's request for the same transition may complete this one, too
                    let before = if alone { count(&log, who, what) } else { 0 };
                    let r = kompact::mc::block_on(f());
                    if r.is_ok() && count(&log, who, what) <= before {
                        early.lock().unwrap().push((who, what));
                    }
                    if r.is_err() {
                        early.lock().unwrap().push((who, E::Note(0, 0)));
                    }
                };
                match p {
                    0 => ask(E::Start, 0, &|| sys.start_notify(&a)),
                    1 => {
                        ask(E::Start, 0, &|| sys.start_notify(&a));
                        ask(E::Stop, 0, &|| sys.stop_notify(&a));
                    }
                    2 => {
                        ask(E::Stop, 0, &|| sys.stop_notify(&a));
                        ask(E::Start, 0, &|| sys.start_notify(&a));
                    }
                    3 => {
                        ask(E::Stop, 1, &|| sys.stop_notify(&b));
                        b.actor_ref().tell(m(1, 0, 0));
                        ask(E::Start, 1, &|| sys.start_notify(&b));
                    }
                    _ => ask(E::Kill, 0, &|| sys.kill_notify(a.clone())),
                }
            });
        }
        w.explore()?;
        at_rest(w)?;
        log.finish();
        let e = early.lock().unwrap();
        ensure!(e.is_empty(), "notification without the transition", "{e:?}: {:?}", log.all());
        Ok(())
    })
}

/// Several components trigger towards one, while channels are removed.
fn channels(ctx: &Ctx) -> Outcome {
    let cut = ctx.pick(4);
    with_threads(ctx, |w| {
        let log = Log::new(ctx);
        let a = probe(w, 0, &log, slow());
        let trigger = |who: u8| {
            let b: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
                if let E::Msg(x) = e {
                    for i in 0..2 {
                        me.r1.trigger(m(who, 0, x.seq + i));
                        rt::point("between triggers");
                    }
                }
                Handled::OK
            });
            probe(w, who, &log, b)
        };
        let (b, c) = (trigger(1), trigger(2));
        let cb = biconnect_components::<P1, _, _>(&a, &b).expect("connected");
        let cc = biconnect_components::<P1, _, _>(&a, &c).expect("connected");
        for x in [&a, &b, &c] {
            w.sys.start(x);
        }
        w.settle()?;
        for x in [&b, &c] {
            let r = x.actor_ref();
            rt::spawn("sender", move || r.tell(m(9, 0, 0)));
        }
        if cut == 1 {
            let d = cb;
            rt::spawn("disconnect", move || drop(d.disconnect()));
        } else if cut == 2 {
            let b = b.clone();
            rt::spawn("trigger", move || b.on_definition(|b| b.r1.trigger(m(1, 0, 9))));
        } else if cut == 3 {
            // indications travel the other way
            let a = a.clone();
            rt::spawn("indicate", move || a.on_definition(|a| {
                a.p1.trigger(m(0, 0, 0));
                a.p1.trigger(m(0, 0, 1));
            }));
        }
        w.explore()?;
        at_rest(w)?;
        drop(cc);
        log.finish();
        let got: Vec<M> = log.of(0).into_iter().filter_map(|e| if let E::Req(1, x) = e { Some(x) } else { None }).collect();
        for who in 1..3u8 {
            let mut s: Vec<u8> = got.iter().filter(|x| x.from == who).map(|x| x.seq).collect();
            if cut == 2 && who == 1 {
                ensure!(s.iter().filter(|x| **x == 9).count() == 1, "event lost or repeated", "{got:?}");
                s.retain(|x| *x != 9);
            }
            if cut == 1 && who == 1 {
                ensure!([0u8, 1].starts_with(&s), "event lost or repeated", "{got:?}");
            } else {
                ensure!(s == [0, 1], "event lost or repeated", "{got:?}");
            }
        }
        if cut == 3 {
            for who in 1..3 {
                let s: Vec<u8> = log.of(who).into_iter().filter_map(|e| if let E::Ind(1, x) = e { Some(x.seq) } else { None }).collect();
                ensure!(s == [0, 1], "event lost or repeated", "{:?}", log.of(who));
            }
        }
        ensure!(got.len() <= 5, "event lost or repeated", "{got:?}");
        Ok(())
    })
}

/// Timers that expire while their component schedules and cancels others.
fn timers(ctx: &Ctx) -> Outcome {
    let mode = ctx.pick(4);
    with_threads(ctx, |w| {
        let log = Log::new(ctx);
        let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
            rt::point("in a handler");
            match e {
                E::Msg(x) if x.route == 1 => {
                    let t = me.schedule_once(Duration::from_millis(5), |me: &mut Probe, _| me.on(E::Timer(0)));
                    me.timers.push(t);
                    let t = me.schedule_periodic(Duration::from_millis(5), Duration::from_millis(5), |me: &mut Probe, _| {
                        me.on(E::Timer(1))
                    });
                    me.timers.push(t);
                }
                E::Msg(x) if x.route == 2 => {
                    let t = me.timers[mode % 2].clone();
                    me.cancel_timer(t);
                }
                E::Timer(0) if mode == 3 => {
                    let t = me.timers[1].clone();
                    me.cancel_timer(t);
                }
                _ => (),
            }
            Handled::OK
        });
        let a = probe(w, 0, &log, behave);
        w.sys.start(&a);
        w.settle()?;
        a.actor_ref().tell(m(9, 1, 0));
        w.settle()?;
        let t = w.timer.clone();
        rt::spawn("timer", move || t.advance_by(Duration::from_millis(15)));
        let r = a.actor_ref();
        rt::spawn("sender", move || {
            r.tell(m(1, 0, 0));
            if mode < 2 {
                r.tell(m(1, 2, 1));
            }
        });
        w.explore()?;
        at_rest(w)?;
        log.finish();
        let got = log.of(0);
        let n = |k| got.iter().filter(|e| **e == E::Timer(k)).count();
        let at = got.iter().position(|e| matches!(e, E::Msg(x) if x.route == 2));
        ensure!(msgs(&log, 0).len() == 2 + (mode < 2) as usize, "message lost", "{got:?}");
        let late = |k: u8, i: usize| got[i..].contains(&E::Timer(k));
        match mode {
            0 => {
                ensure!(n(0) <= 1 && !late(0, at.unwrap()) && n(1) == 3, "timer lost, repeated or late", "{got:?}");
            }
            1 => {
                ensure!(n(0) == 1 && n(1) <= 3 && !late(1, at.unwrap()), "timer lost, repeated or late", "{got:?}");
            }
            2 => ensure!(n(0) == 1 && n(1) == 3, "timer lost, repeated or late", "{got:?}"),
            _ => {
                let at = got.iter().position(|e| *e == E::Timer(0));
                ensure!(n(0) == 1 && !late(1, at.unwrap()), "timer lost, repeated or late", "{got:?}");
            }
        }
        Ok(())
    })
}

/// Promises fulfilled, dropped and awaited by different threads.
fn promises(ctx: &Ctx) -> Outcome {
    let drop_it = ctx.pick(2) == 1;
    let n = 1 + ctx.pick(2);
    with_threads(ctx, |w| {
        let out: Arc<Mutex<Vec<(usize, Option<u8>)>>> = Default::default();
        for i in 0..n {
            let (p, f) = promise::<u8>();
            let out = out.clone();
            rt::spawn("await", move || {
                let r = kompact::mc::block_on(f).ok();
                out.lock().unwrap().push((i, r));
            });
            rt::spawn("fulfil", move || {
                if drop_it && i == 0 {
                    rt::point("drop");
                    drop(p);
                } else {
                    p.fulfil(10 + i as u8).expect("fulfilled");
                }
            });
        }
        w.explore()?;
        at_rest(w)?;
        let mut o = out.lock().unwrap().clone();
        ctx.outcome(&o);
        o.sort();
        let want: Vec<(usize, Option<u8>)> =
            (0..n).map(|i| (i, if drop_it && i == 0 { None } else { Some(10 + i as u8) })).collect();
        ensure!(o == want, "wrong result", "{o:?} instead of {want:?}");
        Ok(())
    })
}
/// Requests by several threads, whose component may be killed meanwhile.
#[derive(ComponentDefinition)]
struct Answers {
    ctx: ComponentContext<Self>,
    seen: Arc<Mutex<Vec<u8>>>,
}
ignore_lifecycle!(Answers);
impl Actor for Answers {
    type Message = Ask<u8, u8>;
    fn receive_local(&mut self, msg: Ask<u8, u8>) -> HandlerResult {
        rt::point("in a handler");
        let n = *msg.request();
        self.seen.lock().unwrap().push(n);
        msg.reply(n + 100).expect("reply");
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
fn asks(ctx: &Ctx) -> Outcome {
    let kill = ctx.pick(2) == 1;
    with_threads(ctx, |w| {
        let seen: Arc<Mutex<Vec<u8>>> = Default::default();
        let s2 = seen.clone();
        let a = w.sys.create(move || Answers { ctx: ComponentContext::uninitialised(), seen: s2 });
        w.name(a.id(), "A");
        w.sys.start(&a);
        w.settle()?;
        let out: Arc<Mutex<Vec<(u8, Option<u8>)>>> = Default::default();
        for t in 0..2u8 {
            let (r, out) = (a.actor_ref(), out.clone());
            rt::spawn("asker", move || {
                let v = kompact::mc::block_on(r.ask(t)).ok();
                out.lock().unwrap().push((t, v));
            });
        }
        if kill {
            let sys = w.sys.clone();
            // this reference keeps nothing alive after the kill
            rt::spawn("kill", move || sys.kill(a));
        } else {
            std::mem::forget(a.clone());
            drop(a);
        }
        w.explore()?;
        let o = out.lock().unwrap().clone();
        ctx.outcome(&o);
        at_rest(w)?;
        let seen = seen.lock().unwrap().clone();
        for (t, v) in &o {
            let did = seen.iter().filter(|x| *x == t).count();
            ensure!(did <= 1, "request handled twice", "{seen:?}");
            ensure!(
                *v == if did == 1 { Some(t + 100) } else { None },
                "wrong reply",
                "request {t} got {v:?}, handled {did} times"
            );
        }
        ensure!(o.len() == 2, "request never answered", "{o:?}");
        ensure!(kill || seen.len() == 2, "request lost", "{seen:?}");
        Ok(())
    })
}

/// A group is used by several threads at once.
#[derive(ComponentDefinition)]
struct Member {
    ctx: ComponentContext<Self>,
    id: usize,
    log: Arc<Mutex<Vec<(usize, String, u64)>>>,
}
ignore_lifecycle!(Member);
impl Actor for Member {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        let from = msg.sender.to_string();
        let n = msg.try_deserialise::<u64, u64>().expect("a number");
        self.log.lock().unwrap().push((self.id, from, n));
        Handled::OK
    }
}
fn groups(ctx: &Ctx, each: usize) -> Outcome {
    use kompact::routing::groups::*;
    let kind = ctx.pick(3);
    let n = 1 + ctx.pick(3);
    let threads = 2 + ctx.pick(2);
    let before = ctx.pick(2);
    with_threads(ctx, |w| {
        let log: Arc<Mutex<Vec<(usize, String, u64)>>> = Default::default();
        let policy: StorePolicy = match kind {
            0 => RoundRobinRouting::default().into(),
            1 => BroadcastRouting.into(),
            _ => SenderDefaultHashBucketRouting::default().into(),
        };
        let policy = Arc::new(policy);
        let mut refs: Vec<DynActorRef> = vec![];
        let mut keep = vec![];
        for id in 0..n {
            let log = log.clone();
            let c = w.sys.create(move || Member { ctx: ComponentContext::uninitialised(), id, log });
            w.name(c.id(), format!("member {id}"));
            w.sys.start(&c);
            refs.push(c.actor_ref().dyn_ref());
            keep.push(c);
        }
        let refs = Arc::new(refs);
        let route = {
            let (refs, policy, sys) = (refs.clone(), policy.clone(), w.sys.clone());
            move |from: usize, seq: u64| {
                let m: Vec<&DynActorRef> = refs.iter().collect();
                let g = RoutingGroup::new(m, std::ops::Deref::deref(&*policy));
                let src: ActorPath = format!("local://127.0.0.1:0/s{from}").parse().unwrap();
                let dst: ActorPath = "local://127.0.0.1:0/g".parse().unwrap();
                g.route(NetMessage::with_box(<u64 as Deserialiser<u64>>::SER_ID, src, dst, Box::new(seq)), sys.logger());
            }
        };
        for i in 0..before {
            route(9, i as u64);
        }
        w.settle()?;
        for t in 0..threads {
            let route = route.clone();
            rt::spawn("router", move || {
                for i in 0..each {
                    route(t, i as u64);
                }
            });
        }
        w.explore()?;
        at_rest(w)?;
        drop(keep);
        let l = log.lock().unwrap().clone();
        ctx.outcome(&l);
        let total = before + threads * each;
        for t in 0..threads {
            for i in 0..each as u64 {
                let to: Vec<usize> = l.iter().filter(|x| x.1.ends_with(&format!("s{t}")) && x.2 == i).map(|x| x.0).collect();
                let want = if kind == 1 { n } else { 1 };
                let mut d = to.clone();
                d.sort();
                d.dedup();
                ensure!(d.len() == want && to.len() == want, "wrong members", "message {i} of {t} went to {to:?} of {n}");
            }
            if kind == 2 {
                let mut to: Vec<usize> = l.iter().filter(|x| x.1.ends_with(&format!("s{t}"))).map(|x| x.0).collect();
                to.dedup();
                ensure!(to.len() == 1, "hash moved", "the messages of {t} went to {to:?}");
            }
            for m in 0..n {
                let s: Vec<u64> = l.iter().filter(|x| x.0 == m && x.1.ends_with(&format!("s{t}"))).map(|x| x.2).collect();
                ensure!(s.is_sorted(), "reordered", "{m} got {s:?} from {t}");
            }
        }
        if kind == 0 {
            for m in 0..n {
                let k = l.iter().filter(|x| x.0 == m).count();
                ensure!(k == total / n || k == total.div_ceil(n), "unfair", "{m} got {k} of {total}, there are {n}");
            }
        }
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    let check = |id, scenarios| Check { id, level: "model_checking", rule: crate::threads::RULE, assumptions: vec![crate::threads::SC.into()], scenarios };
    vec![
        check("C05", Box::new(|t: Tier| vec![Scenario::new("threads-wakes", t.or(3, 5), |c| wakes(c, true, false))])),
        check("C06", Box::new(|t: Tier| vec![Scenario::new("threads-wakes", t.or(4, 6), |c| wakes(c, false, false))])),
        check(
            "C12",
            Box::new(|t: Tier| {
                vec![
                    Scenario::new("wakes-blocking", t.or(3, 4), |c| wakes(c, true, true)),
                    Scenario::new("wakes-local", t.or(3, 4), |c| wakes(c, false, true)),
                    Scenario::new("shutdown", t.or(2, 3), |c| shutdown(c, true)),
                    Scenario::new("faults", t.or(2, 3), |c| faults(c, true)),
                ]
            }),
        ),
        check("C07", Box::new(|t: Tier| vec![Scenario::new("threads-faults", t.or(2, 3), |c| faults(c, false))])),
        check("C09", Box::new(|t: Tier| vec![Scenario::new("threads-shutdown", t.or(2, 3), |c| shutdown(c, false))])),
        check("C08", Box::new(|t: Tier| vec![Scenario::new("threads-notify", t.or(2, 3), |c| notify(c))])),
        check("C04", Box::new(|t: Tier| vec![Scenario::new("threads-channels", t.or(2, 3), |c| channels(c))])),
        check("C20", Box::new(|t: Tier| vec![Scenario::new("threads-groups", t.or(2, 4), move |c| groups(c, t.or(2, 3)))])),
        check("C10", Box::new(|t: Tier| vec![Scenario::new("threads-timers", t.or(4, 5), |c| timers(c))])),
        check(
            "C11",
            Box::new(|t: Tier| {
                vec![
                    Scenario::new("threads-promises", t.or(6, 12), |c| promises(c)),
                    Scenario::new("threads-asks", t.or(4, 6), |c| asks(c)),
                ]
            }),
        ),
    ]
}
