//! C07: fault isolation and recovery.  C08: lifecycle notifications.  C09: shutdown.
use crate::{common::*, world::*};
use explore::*;
use kompact::prelude::*;
use std::{
    future::Future,
    pin::Pin,
    sync::{
        Arc, Mutex,
        atomic::{AtomicU8, Ordering},
    },
    task::Poll,
    time::Duration,
};

const GO: u8 = 5;
const END: u8 = 99;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Site {
    Msg,
    Req,
    Ind,
    Start,
    Stop,
    Kill,
    Timer,
    Local,
    Blocking,
    BlockingStart,
    BlockingStop,
}
const SITES: [Site; 11] = [
    Site::Msg,
    Site::Req,
    Site::Ind,
    Site::Start,
    Site::Stop,
    Site::Kill,
    Site::Timer,
    Site::Local,
    Site::Blocking,
    Site::BlockingStart,
    Site::BlockingStop,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fault {
    Panic,
    Recoverable,
    Unrecoverable,
    Benign,
}
const FAULTS: [Fault; 4] = [Fault::Panic, Fault::Recoverable, Fault::Unrecoverable, Fault::Benign];

fn blow(me: &mut Probe, f: Fault) -> HandlerResult {
    me.log.push(me.who, E::Note(1, f as u8));
    match f {
        Fault::Panic => panic!("planned"),
        Fault::Recoverable => Err(HandlerError::recoverable(std::fmt::Error)),
        Fault::Unrecoverable => Err(HandlerError::unrecoverable(std::fmt::Error)),
        Fault::Benign => Err(HandlerError::benign(std::fmt::Error)),
    }
}

struct Pending {
    what: E,
    who: u8,
    at: usize,
    fut: Option<KFuture<()>>,
    done: Option<bool>,
}
impl Pending {
    fn poll(&mut self) {
        if let Some(f) = &mut self.fut
            && let Poll::Ready(r) = poll_once(f)
        {
            self.done = Some(r.is_ok());
            self.fut = None;
        }
    }
}

fn faults(ctx: &Ctx, depth: usize) -> Outcome {
    let site = *ctx.pick_of(&SITES);
    let fault = *ctx.pick_of(&FAULTS);
    let w = World::new(ctx);
    let log = Log::new(ctx);
    let armed = Arc::new(AtomicU8::new(1));
    let arm = armed.clone();
    let gate: Arc<Mutex<Vec<KPromise<()>>>> = Default::default();
    let gate2 = gate.clone();
    let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
        let hit = match (site, e) {
            (Site::Msg, E::Msg(x)) | (Site::Req, E::Req(1, x)) | (Site::Ind, E::Ind(1, x)) => x.route == GO,
            (Site::Start, E::Start) | (Site::Stop, E::Stop) | (Site::Kill, E::Kill) => true,
            (Site::Timer, E::Timer(_)) => true,
            _ => false,
        };
        if hit && arm.swap(0, Ordering::SeqCst) == 1 {
            return blow(me, fault);
        }
        let block = match (site, e) {
            (Site::Local | Site::Blocking, E::Msg(x)) => x.route == GO,
            (Site::BlockingStart, E::Start) | (Site::BlockingStop, E::Stop) => true,
            _ => false,
        };
        if block && arm.swap(0, Ordering::SeqCst) == 1 {
            let (p, f) = promise::<()>();
            gate2.lock().unwrap().push(p);
            if site == Site::Local {
                me.spawn_local(move |mut me| async move {
                    let _ = f.await;
                    blow(&mut me, fault)
                });
            } else {
                return Handled::block_on(me, move |mut me| async move {
                    let _ = f.await;
                    blow(&mut me, fault)
                });
            }
        }
        if let (Site::Timer, E::Msg(x)) = (site, e)
            && x.route == GO
        {
            let t = me.schedule_once(Duration::from_millis(10), |me, _| me.on(E::Timer(0)));
            me.timers.push(t);
        }
        Handled::OK
    });
    let a = w.sys.create(|| Probe::new(0, &log, behave));
    w.name(a.id(), "A");
    let b = w.sys.create(|| Probe::new(1, &log, quiet()));
    w.name(b.id(), "B");
    // recovery: count calls and executions, and create a replacement
    let calls = Arc::new(AtomicU8::new(0));
    let execs = Arc::new(AtomicU8::new(0));
    let repl: Arc<Mutex<Option<Arc<Component<Probe>>>>> = Default::default();
    let custom = ctx.pick(2) == 0;
    if custom {
        let (c1, e1, r1, l1, aid) = (calls.clone(), execs.clone(), repl.clone(), log.clone(), a.id());
        let ctx2 = ctx.clone();
        a.set_recovery_function(move |fc| {
            c1.fetch_add(1, Ordering::SeqCst);
            if fc.component_id != aid {
                ctx2.violate(Violation::new("wrong component id in fault context", ""));
            }
            fc.recover_with(move |_, sys, _| {
                e1.fetch_add(1, Ordering::SeqCst);
                let c = sys.create(|| Probe::new(2, &l1, quiet()));
                sys.start(&c);
                *r1.lock().unwrap() = Some(c);
            })
        });
    }
    let aref: ActorRef<M> = a.actor_ref();
    let bref: ActorRef<M> = b.actor_ref();
    let (pref, rref): (ProvidedRef<P1>, RequiredRef<P1>) = (a.provided_ref(), a.required_ref());
    w.sys.start(&b);
    w.settle()?;
    let mut pend: Vec<Pending> = vec![];
    let (mut ma, mut mb, mut ev) = (vec![], vec![], vec![]);
    if !matches!(site, Site::Start | Site::BlockingStart) {
        w.sys.start(&a);
        w.settle()?;
    }
    let mut requested_dead = false;
    for _ in 0..depth {
        match ctx.pick(if matches!(site, Site::Timer | Site::Local) || site as u8 >= Site::Blocking as u8 { 8 } else { 7 }) {
            0 => {
                w.step()?;
            }
            1 => {
                let x = m(50, 0, ma.len() as u8);
                aref.tell(x);
                ma.push(x);
            }
            2 => {
                ctx.log(|| "go".into());
                match site {
                    Site::Req => {
                        let x = m(50, GO, ev.len() as u8);
                        w.sys.trigger_r(x, &pref);
                        ev.push(x);
                    }
                    Site::Ind => {
                        let x = m(50, GO, ev.len() as u8);
                        w.sys.trigger_i(x, &rref);
                        ev.push(x);
                    }
                    Site::Start | Site::Stop | Site::Kill | Site::BlockingStart | Site::BlockingStop => continue,
                    _ => {
                        let x = m(50, GO, ma.len() as u8);
                        aref.tell(x);
                        ma.push(x);
                    }
                }
            }
            3 => {
                let x = m(51, 0, mb.len() as u8);
                bref.tell(x);
                mb.push(x);
            }
            k @ 4..=6 => {
                if a.is_faulty() || a.is_destroyed() {
                    continue;
                }
                let (what, fut) = match k {
                    4 => (E::Start, w.sys.start_notify(&a)),
                    5 => (E::Stop, w.sys.stop_notify(&a)),
                    _ => {
                        requested_dead = true;
                        (E::Kill, w.sys.kill_notify(a.clone()))
                    }
                };
                ctx.log(|| format!("{what:?} with notification"));
                pend.push(Pending { what, who: 0, at: log.all().len(), fut: Some(fut), done: None });
            }
            _ => {
                if site == Site::Timer {
                    w.advance(10);
                } else if let Some(p) = gate.lock().unwrap().pop() {
                    ctx.log(|| "wake".into());
                    let _ = p.fulfil(());
                }
            }
        }
        pend.iter_mut().for_each(Pending::poll);
    }
    let progress = || log.count() + 1;
    w.drain_spin(&progress)?;
    while let Some(p) = { gate.lock().unwrap().pop() } {
        ctx.log(|| "wake".into());
        let _ = p.fulfil(());
        w.drain_spin(&progress)?;
    }
    if site == Site::Timer {
        w.advance(10);
        w.drain_spin(&progress)?;
    }
    pend.iter_mut().for_each(Pending::poll);
    // B is alive and well
    let x = m(51, 0, mb.len() as u8);
    bref.tell(x);
    mb.push(x);
    let rep = repl.lock().unwrap().clone();
    if let Some(r) = &rep {
        r.actor_ref().tell(m(52, 0, 0));
    }
    w.drain_spin(&progress)?;
    log.finish();
    let msgs = |who: u8| -> Vec<M> {
        log.of(who).iter().filter_map(|e| if let E::Msg(m) = e { Some(*m) } else { None }).collect()
    };
    ensure!(msgs(1) == mb, "other component affected by fault", "B was sent {mb:?}, handled {:?}", msgs(1));
    let evs = log.of(0);
    let blown = evs.iter().position(|e| matches!(e, E::Note(1, _)));
    let (nc, ne) = (calls.load(Ordering::SeqCst), execs.load(Ordering::SeqCst));
    if let (Some(i), true) = (blown, fault != Fault::Benign) {
        ensure!(i + 1 == evs.len(), "handler ran after fault", "A: {evs:?}");
        let want = (custom && fault != Fault::Unrecoverable) as u8;
        ensure!(
            nc == want && ne == want,
            "recovery not executed exactly once",
            "recovery function called {nc} times and its action executed {ne} times after {fault:?} in {site:?} (expected {want})"
        );
        if want == 1 {
            ensure!(
                log.of(2) == [E::Start, E::Msg(m(52, 0, 0))],
                "replacement does not work",
                "replacement log {:?}",
                log.of(2)
            );
        }
        if fault == Fault::Unrecoverable {
            ensure!(a.is_destroyed(), "unrecoverable fault did not destroy", "{:?}", evs);
        } else {
            ensure!(a.is_faulty(), "fault did not mark component faulty", "{:?}", evs);
        }
        for p in &pend {
            ensure!(
                p.done.is_some(),
                "notification hangs after fault",
                "{:?} requested at {} never completed; A: {evs:?}",
                p.what,
                p.at
            );
            // success only if the handler ran to its end before the fault
            let here = matches!(
                (site, p.what),
                (Site::Start | Site::BlockingStart, E::Start)
                    | (Site::Stop | Site::BlockingStop, E::Stop)
                    | (Site::Kill, E::Kill)
            );
            if p.done == Some(true) && here {
                let all = log.all();
                let ok = all[p.at..].iter().filter(|x| **x == (0, p.what)).count() > 1
                    || p.what == E::Kill && fault == Fault::Unrecoverable;
                ensure!(ok, "notification succeeded although the handler failed", "{:?}: {evs:?}", p.what);
            }
        }
    } else {
        ensure!(nc == 0 && ne == 0, "recovery without fault", "called {nc}, executed {ne}: {evs:?}");
        if !requested_dead && evs.contains(&E::Start) {
            // no fault (or a benign one): nothing is lost once it is started
            w.sys.start(&a);
            w.drain_spin(&progress)?;
            while let Some(p) = { gate.lock().unwrap().pop() } {
                let _ = p.fulfil(());
                w.drain_spin(&progress)?;
            }
            let evs = log.of(0);
            let late_fault = fault != Fault::Benign && evs.iter().any(|e| matches!(e, E::Note(1, _)));
            let gote: Vec<M> = evs
                .iter()
                .filter_map(|e| if let E::Ind(_, m) | E::Req(_, m) = e { Some(*m) } else { None })
                .collect();
            ensure!(
                late_fault || msgs(0) == ma && gote == ev,
                "lost around benign error",
                "A was sent {ma:?} and {ev:?}, log {evs:?}"
            );
        }
        pend.iter_mut().for_each(Pending::poll);
        for p in &pend {
            let all = log.all();
            let ran = all[p.at.min(all.len())..].contains(&(0, p.what));
            ensure!(
                !ran || p.done.is_some(),
                "notification hangs",
                "{:?} requested at {} never completed; A: {:?}",
                p.what,
                p.at,
                log.of(0)
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

/// The transition named by a lifecycle event is complete (END of its handler).
fn ended(what: E) -> E {
    E::Note(
        match what {
            E::Start => 1,
            E::Stop => 2,
            _ => 3,
        },
        END,
    )
}

/// How a lifecycle handler ends.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Way {
    Block,
    Benign,
    BlockBenign,
    BlockTwice,
    /// Block, then shut down.
    BlockShutdown,
}

fn notify(ctx: &Ctx, depth: usize, kills: usize, ways: &[Way]) -> Outcome {
    // which lifecycle handler of A does something else than completing at once
    let mut odd = vec![None];
    for way in ways {
        odd.extend([E::Start, E::Stop, E::Kill].map(|e| Some((e, *way))));
    }
    let odd = *ctx.pick_of(&odd);
    // whether A can also end by itself
    // (a kill handler must not block then)
    let quits = *ways != [Way::Block] && !matches!(odd, Some((E::Kill, w)) if w != Way::Benign);
    let w = World::new(ctx);
    let log = Log::new(ctx);
    let gate: Arc<Mutex<Vec<KPromise<()>>>> = Default::default();
    let gate2 = gate.clone();
    let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
        if matches!(e, E::Msg(_)) {
            return Handled::SHUTDOWN;
        }
        if !matches!(e, E::Start | E::Stop | E::Kill) {
            return Handled::OK;
        }
        if let Some((e2, way)) = odd
            && e2 == e
            && me.who == 0
        {
            if way == Way::Benign {
                me.log.push(me.who, ended(e));
                return Err(HandlerError::benign(std::fmt::Error));
            }
            let (p, f) = promise::<()>();
            gate2.lock().unwrap().push(p);
            let gate3 = gate2.clone();
            return Handled::block_on(me, move |mut me| async move {
                let _ = f.await;
                if way == Way::BlockTwice {
                    let (p, f) = promise::<()>();
                    gate3.lock().unwrap().push(p);
                    return Handled::block_on(&mut *me, move |me| async move {
                        let _ = f.await;
                        me.log.push(me.who, ended(e));
                        Handled::OK
                    });
                }
                if way == Way::BlockShutdown {
                    if e == E::Kill {
                        me.log.push(me.who, ended(e));
                    }
                    return Handled::SHUTDOWN;
                }
                me.log.push(me.who, ended(e));
                if way == Way::Block { Handled::OK } else { Err(HandlerError::benign(std::fmt::Error)) }
            });
        }
        me.log.push(me.who, ended(e));
        Handled::OK
    });
    let c: Vec<Arc<Component<Probe>>> = (0..2u8)
        .map(|i| {
            let c = w.sys.create(|| Probe::new(i, &log, behave.clone()));
            w.name(c.id(), who_name(i));
            c
        })
        .collect();
    let mut pend: Vec<Pending> = vec![];
    let mut dead_asked = [matches!(odd, Some((E::Start | E::Stop, Way::BlockShutdown))), false];
    let poll = |pend: &mut Vec<Pending>| -> Outcome {
        let all = log.all();
        for p in pend.iter_mut() {
            let before = p.done;
            p.poll();
            if before.is_none() && p.done == Some(true) {
                ensure!(
                    all[p.at..].contains(&(p.who, ended(p.what))),
                    "notification completed early",
                    "{:?} of {} requested at entry {}, log {all:?}",
                    p.what,
                    who_name(p.who),
                    p.at
                );
            }
            if before.is_none() && p.done == Some(false) {
                ensure!(
                    all.contains(&(p.who, ended(E::Kill))),
                    "notification failed without reason",
                    "{:?} of {}: {all:?}",
                    p.what,
                    who_name(p.who)
                );
            }
        }
        Ok(())
    };
    for _ in 0..depth {
        let open = !gate.lock().unwrap().is_empty() as usize;
        let k = ctx.pick(7 + kills + open + quits as usize);
        if quits && k == 7 + kills + open {
            if !c[0].is_destroyed() {
                ctx.log(|| "quit".into());
                dead_asked[0] = true;
                c[0].actor_ref().tell(m(50, 0, 0));
            }
            continue;
        }
        let (who, what, notified) = match k {
            0 => {
                w.step()?;
                poll(&mut pend)?;
                continue;
            }
            1 => (0, E::Start, true),
            2 => (0, E::Stop, true),
            3 => (1, E::Start, true),
            4 => (1, E::Stop, true),
            5 => (0, E::Start, false),
            6 => (0, E::Stop, false),
            7 if kills > 0 => (0, E::Kill, true),
            8 if kills > 1 => (1, E::Kill, true),
            9 if kills > 2 => (0, E::Kill, false),
            _ => {
                ctx.log(|| "wake".into());
                let p = gate.lock().unwrap().pop().unwrap();
                let _ = p.fulfil(());
                continue;
            }
        };
        if c[who].is_destroyed() {
            continue;
        }
        dead_asked[who] |= what == E::Kill;
        ctx.log(|| format!("{what:?} {} notify={notified}", who_name(who as u8)));
        if notified {
            let fut = match what {
                E::Start => w.sys.start_notify(&c[who]),
                E::Stop => w.sys.stop_notify(&c[who]),
                _ => w.sys.kill_notify(c[who].clone()),
            };
            pend.push(Pending { what, who: who as u8, at: log.all().len(), fut: Some(fut), done: None });
        } else {
            match what {
                E::Start => w.sys.start(&c[who]),
                E::Stop => w.sys.stop(&c[who]),
                _ => w.sys.kill(c[who].clone()),
            }
        }
    }
    let progress = || log.count() + 1;
    loop {
        w.drain_spin(&progress)?;
        let Some(p) = ({ gate.lock().unwrap().pop() }) else { break };
        ctx.log(|| "wake".into());
        let _ = p.fulfil(());
    }
    w.settle_bounded(40)?;
    poll(&mut pend)?;
    log.finish();
    let all = log.all();
    for p in &pend {
        ensure!(
            p.done.is_some(),
            "notification never completes",
            "{:?} of {} requested at entry {}, everything executed, log {all:?}",
            p.what,
            who_name(p.who),
            p.at
        );
        if p.done == Some(false) {
            ensure!(dead_asked[p.who as usize], "notification failed without reason", "{:?}: {all:?}", p.what);
            ensure!(
                !all[p.at..].contains(&(p.who, ended(p.what))),
                "notification failed although the transition happened",
                "{:?} of {} requested at entry {}, log {all:?}",
                p.what,
                who_name(p.who),
                p.at
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

fn shutdown(ctx: &Ctx, depth: usize, ncomp: usize, kill_system: bool) -> Outcome {
    let w = std::mem::ManuallyDrop::new(World::new(ctx));
    shutdown_in(ctx, &w, depth, ncomp, kill_system)?;
    // (a failed run may leave a helper thread inside the system)
    drop(std::mem::ManuallyDrop::into_inner(w));
    Ok(())
}

/// Call something that waits until others have done their work: `go_on` lets them, if they have any.
/// (Whenever it looks at anything, or only if it looks at the same thing over and over.)
fn meanwhile<T>(often: bool, go_on: &mut dyn FnMut() -> Result<bool, Violation>, f: impl FnOnce() -> T) -> Result<T, Violation> {
    use std::cell::{Cell, RefCell};
    struct Pump<'a> {
        go_on: RefCell<&'a mut dyn FnMut() -> Result<bool, Violation>>,
        idle: Cell<usize>,
        busy: Cell<bool>,
        waited: Cell<bool>,
        often: bool,
        looked: Cell<(usize, usize)>,
        failed: RefCell<Option<Violation>>,
    }
    impl Pump<'_> {
        fn run(&self, idle: usize) {
            self.busy.set(true);
            let r = (self.go_on.borrow_mut())();
            self.busy.set(false);
            let v = match r {
                Ok(true) => {
                    self.idle.set(0);
                    return;
                }
                Ok(false) if self.idle.get() < idle => {
                    self.idle.set(self.idle.get() + 1);
                    return;
                }
                Ok(false) => Violation::new("shutdown never completes", "nothing left to run".to_string()),
                Err(v) => v,
            };
            *self.failed.borrow_mut() = Some(v);
            panic!("it never ends");
        }
    }
    impl kompact::mc::Explorer for Pump<'_> {
        fn point(&self, _op: &'static str, object: usize) {
            if self.busy.get() {
                return;
            }
            let (last, times) = self.looked.get();
            self.looked.set((object, if last == object { times + 1 } else { 0 }));
            if !self.often && self.looked.get().1 < 8 {
                return;
            }
            // it may poll once others have begun
            if self.waited.get() && !self.busy.get() {
                self.run(10_000)
            }
        }
        fn wait(&self, op: &'static str, _object: usize, ready: &dyn Fn() -> bool) {
            if self.busy.get() {
                assert!(ready(), "a job waits for {op}");
                return;
            }
            self.waited.set(true);
            while !ready() {
                self.run(0)
            }
        }
        fn spawn(&self, _name: &str, _f: Box<dyn FnOnce() + 'static>) -> usize {
            unimplemented!()
        }
        fn yield_now(&self) {
            self.point("yield", 0)
        }
        fn park(&self) {
            unimplemented!()
        }
        fn unpark(&self, _thread: usize) {}
    }
    struct Uninstall;
    impl Drop for Uninstall {
        fn drop(&mut self) {
            kompact::mc::install(None);
        }
    }
    let p = Pump { go_on: RefCell::new(go_on), idle: Cell::new(0), busy: Cell::new(false), waited: Cell::new(false), often, looked: Cell::new((0, 0)), failed: RefCell::new(None) };
    let dynamic: &dyn kompact::mc::Explorer = &p;
    // SAFETY: uninstalled before `p` goes
    kompact::mc::install(Some(unsafe { std::mem::transmute::<&dyn kompact::mc::Explorer, &'static dyn kompact::mc::Explorer>(dynamic) }));
    let r = {
        let _u = Uninstall;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    match (r, p.failed.take()) {
        (_, Some(v)) => Err(v),
        (Ok(r), None) => Ok(r),
        (Err(e), None) => std::panic::resume_unwind(e),
    }
}

fn shutdown_in(ctx: &Ctx, w: &World, depth: usize, ncomp: usize, kill_system: bool) -> Outcome {
    let log = Log::new(ctx);
    // a component may block in a handler (route GO) until the promise is fulfilled
    let gate: Arc<Mutex<Vec<KPromise<()>>>> = Default::default();
    let gate2 = gate.clone();
    // how the kill handlers end
    let ends = ctx.pick(4);
    let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| match e {
        E::Kill if ends == 3 => panic!("planned"),
        E::Kill if ends == 1 => Err(HandlerError::benign(std::fmt::Error)),
        E::Kill if ends == 2 => {
            let (p, f) = promise::<()>();
            gate2.lock().unwrap().push(p);
            Handled::block_on(me, move |me| async move {
                let _ = f.await;
                me.log.push(me.who, E::Note(9, END));
                Handled::OK
            })
        }
        E::Msg(x) if x.route == GO => {
            let (p, f) = promise::<()>();
            gate2.lock().unwrap().push(p);
            Handled::block_on(me, move |_| async move {
                let _ = f.await;
                Handled::OK
            })
        }
        E::Msg(x) if x.route == 9 => panic!("planned"),
        E::Msg(x) if x.route == 8 => Handled::SHUTDOWN,
        _ => Handled::OK,
    });
    let c: Vec<Arc<Component<Probe>>> = (0..ncomp as u8)
        .map(|i| {
            let c = w.sys.create(|| Probe::new(i, &log, behave.clone()));
            w.name(c.id(), who_name(i));
            let log = log.clone();
            c.set_recovery_function(move |f| {
                f.recover_with(move |_, sys, _| {
                    let r = sys.create(|| Probe::new(10 + i, &log, quiet()));
                    sys.start(&r);
                })
            });
            c
        })
        .collect();
    let mut asked = vec![vec![]; ncomp];
    let mut n = 0;
    for _ in 0..depth {
        let per = 7;
        let k = ctx.pick(1 + per * ncomp);
        if k == 0 {
            w.step()?;
            continue;
        }
        let (i, op) = ((k - 1) / per, (k - 1) % per);
        ctx.log(|| format!("op {op} on {}", who_name(i as u8)));
        match op {
            0 => {
                w.sys.start(&c[i]);
                asked[i].push(E::Start);
            }
            1 => {
                w.sys.stop(&c[i]);
                asked[i].push(E::Stop);
            }
            2 => {
                w.sys.kill(c[i].clone());
                asked[i].push(E::Kill);
            }
            3..=6 => {
                c[i].actor_ref().tell(m(50, [0, GO, 8, 9][op - 3], n));
                n += 1;
            }
            _ => unreachable!(),
        }
    }
    let started: Vec<bool> = (0..ncomp).map(|i| log.of(i as u8).contains(&E::Start)).collect();
    let progress = || log.count() + 1;
    ctx.log(|| "shutdown".into());
    let healthy: Vec<bool> = c.iter().map(|c| !c.is_faulty()).collect();
    let mut spins = 0;
    let mut last = progress();
    // let something run
    let mut go_on = || -> Result<bool, Violation> {
        let stepped = w.step()?;
        // components spinning over retained events do not count as progress
        if progress() == last {
            spins += 1;
        } else {
            spins = 0;
            last = progress();
        }
        if !stepped || spins > 60 {
            let p = gate.lock().unwrap().pop();
            if let Some(p) = p {
                ctx.log(|| "wake".into());
                let _ = p.fulfil(());
                spins = 0;
                return Ok(true);
            }
        }
        ensure!(spins < 400, "shutdown never completes", "no progress, log {:?}", log.all());
        Ok(stepped)
    };
    let res = if kill_system {
        let s = w.sys.clone();
        meanwhile(ctx.pick(2) == 0, &mut go_on, move || s.kill_system().is_ok())?
    } else {
        let mut f = Box::pin(w.sys.clone().shutdown());
        loop {
            if let Poll::Ready(r) = poll_once(&mut f) {
                break r.is_ok();
            }
            let some = go_on()?;
            ensure!(some, "shutdown never completes", "nothing left to run, log {:?}", log.all());
        }
    };
    ensure!(res, "shutdown failed", "{:?}", log.all());
    ensure!(*w.jobs.stopped.lock().unwrap(), "scheduler not stopped", "");
    for (i, s) in started.iter().enumerate() {
        let evs = log.of(i as u8);
        let faulty = c[i].is_faulty();
        let kills = evs.iter().filter(|e| **e == E::Kill).count();
        if *s && !faulty {
            ensure!(kills == 1, "kill handler did not run exactly once", "{}: {evs:?}", who_name(i as u8));
            let last = if ends == 2 { E::Note(9, END) } else { E::Kill };
            ensure!(evs.last() == Some(&last), "handler ran after kill", "{evs:?}");
            ensure!(c[i].is_destroyed(), "component not destroyed by shutdown", "{evs:?}");
        } else {
            ensure!(kills <= 1, "kill handler did not run exactly once", "{}: {evs:?}", who_name(i as u8));
        }
    }
    // whatever is still queued: no started component handles anything any more
    let before: Vec<usize> = (0..ncomp).map(|i| log.of(i as u8).len()).collect();
    for (i, s) in started.iter().enumerate() {
        if *s {
            c[i].actor_ref().tell(m(51, 0, 0));
        }
    }
    w.settle_bounded(30)?;
    for (i, s) in started.iter().enumerate() {
        ensure!(
            !*s || log.of(i as u8).len() == before[i],
            "handler ran after shutdown completed",
            "{}: {:?}",
            who_name(i as u8),
            log.of(i as u8)
        );
    }
    // a component that fails while the system shuts down is not replaced
    for i in 0..ncomp {
        ensure!(
            !(healthy[i] && started[i]) || log.of(10 + i as u8).is_empty(),
            "replaced during shutdown",
            "replacement of {}: {:?}",
            who_name(i as u8),
            log.all()
        );
    }
    log.finish();
    Ok(())
}

/// How a handler of a user's own dispatcher or deadletter box ends.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ending {
    AtOnce,
    Blocked,
    Error,
    Quit,
    BlockedQuit,
}
const ENDINGS: [Ending; 5] = [Ending::AtOnce, Ending::Blocked, Ending::Error, Ending::Quit, Ending::BlockedQuit];
const DISPATCHER: u8 = 20;
const LETTERS: u8 = 21;
type Gate = Arc<Mutex<Vec<KPromise<()>>>>;

macro_rules! part {
    ($name:ident, $message:ty) => {
        #[derive(ComponentDefinition)]
        struct $name {
            ctx: ComponentContext<Self>,
            who: u8,
            log: Log,
            ends: [Ending; 2],
            gate: Gate,
            ready: Option<KPromise<()>>,
        }
        impl $name {
            fn new(who: u8, log: &Log, ends: [Ending; 2], gate: &Gate, ready: KPromise<()>) -> Self {
                let ctx = ComponentContext::uninitialised();
                $name { ctx, who, log: log.clone(), ends, gate: gate.clone(), ready: Some(ready) }
            }
            fn end(&mut self, e: E) -> HandlerResult {
                self.log.push(self.who, e);
                let way = self.ends[(e == E::Kill) as usize];
                if matches!(way, Ending::Blocked | Ending::BlockedQuit) {
                    let (p, f) = promise::<()>();
                    self.gate.lock().unwrap().push(p);
                    return Handled::block_on(self, move |me| async move {
                        let _ = f.await;
                        me.log.push(me.who, ended(e));
                        if way == Ending::Blocked { Handled::OK } else { Handled::SHUTDOWN }
                    });
                }
                self.log.push(self.who, ended(e));
                match way {
                    Ending::Error => Err(HandlerError::benign(std::fmt::Error)),
                    Ending::Quit => Handled::SHUTDOWN,
                    _ => Handled::OK,
                }
            }
        }
        impl ComponentLifecycle for $name {
            fn on_start(&mut self) -> HandlerResult {
                if let Some(p) = self.ready.take() {
                    p.complete().unwrap_or(())
                }
                Handled::OK
            }
            fn on_stop(&mut self) -> HandlerResult {
                self.end(E::Stop)
            }
            fn on_kill(&mut self) -> HandlerResult {
                self.end(E::Kill)
            }
        }
        impl Actor for $name {
            type Message = $message;
            fn receive_local(&mut self, _m: $message) -> HandlerResult {
                self.log.push(self.who, E::Msg(m(0, 0, 0)));
                Handled::OK
            }
            fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
                Handled::OK
            }
        }
    };
}
part!(OwnDispatcher, DispatchEnvelope);
part!(OwnLetters, Never);
impl Dispatcher for OwnDispatcher {
    fn system_path(&mut self) -> SystemPath {
        SystemPath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 0)
    }
}

/// A system with a dispatcher and a deadletter box of the user's own is shut down: they end last, and before it completes.
fn own_parts(ctx: &Ctx, kill_system: bool) -> Outcome {
    let log = Log::new(ctx);
    let gate: Gate = Default::default();
    let nothing = [Ending::AtOnce; 2];
    let mut ends = [nothing; 2];
    let part = ctx.pick(3);
    if part < 2 {
        // a handler that is called by a part on its way out must not block
        ends[part][0] = *ctx.pick_of(&ENDINGS);
        ends[part][1] = *ctx.pick_of(&ENDINGS[..if matches!(ends[part][0], Ending::Quit | Ending::BlockedQuit) { 1 } else { 5 }]);
    } else {
        ends[0][1] = *ctx.pick_of(&ENDINGS);
        ends[1][1] = *ctx.pick_of(&ENDINGS);
    }
    let (l1, l2, g1, g2) = (log.clone(), log.clone(), gate.clone(), gate.clone());
    let w = std::mem::ManuallyDrop::new(World::with(ctx, move |conf| {
        conf.system_components(
            move |p| OwnLetters::new(LETTERS, &l1, ends[1], &g1, p),
            move |p| OwnDispatcher::new(DISPATCHER, &l2, ends[0], &g2, p),
        );
    }));
    let g3 = gate.clone();
    let user = *ctx.pick_of(&[Ending::AtOnce, Ending::Blocked]);
    let c = w.sys.create(|| {
        Probe::new(0, &log, Arc::new(move |me: &mut Probe, e| {
            if e == E::Kill {
                if user == Ending::Blocked {
                    let (p, f) = promise::<()>();
                    g3.lock().unwrap().push(p);
                    return Handled::block_on(me, move |me| async move {
                        let _ = f.await;
                        me.log.push(me.who, ended(E::Kill));
                        Handled::OK
                    });
                }
                me.log.push(me.who, ended(E::Kill));
            }
            Handled::OK
        }))
    });
    w.name(c.id(), "A".to_string());
    w.sys.start(&c);
    w.settle()?;
    let mut go_on = || -> Result<bool, Violation> {
        if !gate.lock().unwrap().is_empty() && ctx.pick(2) == 1 {
            let n = gate.lock().unwrap().len();
            let p = gate.lock().unwrap().swap_remove(ctx.pick(n));
            ctx.log(|| "wake".into());
            let _ = p.fulfil(());
            return Ok(true);
        }
        if w.step()? {
            return Ok(true);
        }
        let Some(p) = gate.lock().unwrap().pop() else { return Ok(false) };
        ctx.log(|| "wake".into());
        let _ = p.fulfil(());
        Ok(true)
    };
    let res = if kill_system {
        let s = w.sys.clone();
        meanwhile(false, &mut go_on, move || s.kill_system().is_ok())?
    } else {
        let mut f = Box::pin(w.sys.clone().shutdown());
        loop {
            if let Poll::Ready(r) = poll_once(&mut f) {
                break r.is_ok();
            }
            let some = go_on()?;
            ensure!(some, "shutdown never completes", "nothing left to run, log {:?}", log.all());
        }
    };
    ensure!(res, "shutdown failed", "{:?}", log.all());
    let all = log.all();
    let at = |who: u8, e: E| all.iter().position(|x| *x == (who, e));
    for who in [0, DISPATCHER, LETTERS] {
        let kills = all.iter().filter(|x| **x == (who, E::Kill)).count();
        let done = all.iter().filter(|x| **x == (who, ended(E::Kill))).count();
        ensure!(kills == 1 && done == 1, "kill handler did not run exactly once", "{who}: {all:?}");
        ensure!(who == 0 || at(0, ended(E::Kill)) < at(who, E::Kill), "a system component ended first", "{who}: {all:?}");
        ensure!(log.of(who).last() == Some(&ended(E::Kill)), "handler ran after kill", "{who}: {all:?}");
    }
    ensure!(
        kill_system || at(DISPATCHER, ended(E::Stop)).is_some_and(|i| Some(i) < at(DISPATCHER, E::Kill)) || matches!(ends[0][0], Ending::Quit | Ending::BlockedQuit),
        "the dispatcher was not stopped first",
        "{all:?}"
    );
    w.settle_bounded(30)?;
    ensure!(log.all().len() == all.len(), "handler ran after shutdown completed", "{:?}", log.all());
    log.finish();
    drop(c);
    drop(std::mem::ManuallyDrop::into_inner(w));
    Ok(())
}

/// Shutdown is requested again while it is in progress, or after the first request was abandoned.
fn shutdown_again(ctx: &Ctx) -> Outcome {
    let w = World::new(ctx);
    let log = Log::new(ctx);
    let behave: Arc<Behave> = Arc::new(|_: &mut Probe, e| match e {
        E::Msg(x) if x.route == 9 => panic!("planned"),
        E::Msg(x) if x.route == 8 => Handled::SHUTDOWN,
        _ => Handled::OK,
    });
    let c: Vec<_> = (0..2u8)
        .map(|i| {
            let c = w.sys.create(|| Probe::new(i, &log, behave.clone()));
            w.name(c.id(), who_name(i));
            w.sys.start(&c);
            c
        })
        .collect();
    w.settle()?;
    c[0].actor_ref().tell(m(50, 0, 0));
    match ctx.pick(5) {
        0 => {}
        1 => c[1].actor_ref().tell(m(50, 9, 0)),
        2 => c[1].actor_ref().tell(m(50, 8, 0)),
        3 => w.sys.stop(&c[1]),
        _ => {
            w.sys.kill(c[0].clone());
            w.sys.kill(c[1].clone());
        }
    }
    type Fut = Pin<Box<dyn Future<Output = bool>>>;
    let request = |n: u8| -> Fut {
        ctx.log(|| format!("shutdown {n}"));
        let f = w.sys.clone().shutdown();
        Box::pin(async move { f.await.is_ok() })
    };
    // a request takes effect when it is polled
    let mut first = Some(request(0));
    let mut done = [None; 2];
    let poll = |f: &mut Option<Fut>, d: &mut Option<bool>| {
        if let Some(x) = f
            && let Poll::Ready(r) = poll_once(x)
        {
            *d = Some(r);
            *f = None;
        }
    };
    poll(&mut first, &mut done[0]);
    for _ in 0..ctx.pick(12) {
        if !w.step()? {
            break;
        }
        if ctx.pick(2) == 1 {
            poll(&mut first, &mut done[0]);
        }
    }
    if done[0].is_some() {
        // too late for another one
        ensure!(done[0] == Some(true), "shutdown failed", "{:?}", log.all());
        return Ok(());
    }
    // the first one is awaited, kept without being awaited, or abandoned before or later
    let how = ctx.pick(4);
    if how == 0 {
        ctx.log(|| "abandon 0".into());
        first = None;
    }
    let mut second = Some(request(1));
    poll(&mut second, &mut done[1]);
    let later = if how == 1 { ctx.pick(4) } else { 0 };
    let order = ctx.pick(2);
    for i in 0..500 {
        let stepped = w.step()?;
        if how == 1 && i == later {
            ctx.log(|| "abandon 0".into());
            first = None;
        }
        for k in [order, 1 - order] {
            match k {
                0 if how == 2 => poll(&mut first, &mut done[0]),
                1 => poll(&mut second, &mut done[1]),
                _ => {}
            }
        }
        if !stepped && done[1].is_some() {
            poll(&mut first, &mut done[0]);
            break;
        }
    }
    ensure!(done[1].is_some(), "shutdown never completes", "requested again: {:?}", log.all());
    ensure!(done[1] == Some(true), "shutdown failed", "requested again: {:?}", log.all());
    ensure!(first.is_none(), "shutdown never completes", "requested first: {:?}", log.all());
    ensure!(done[0] != Some(false), "shutdown failed", "requested first: {:?}", log.all());
    ensure!(*w.jobs.stopped.lock().unwrap(), "scheduler not stopped", "{:?}", log.all());
    for i in 0..2u8 {
        let evs = log.of(i);
        if !c[i as usize].is_faulty() {
            ensure!(
                evs.iter().filter(|e| **e == E::Kill).count() == 1 && evs.last() == Some(&E::Kill),
                "kill handler did not run exactly once",
                "{}: {evs:?}",
                who_name(i)
            );
        }
    }
    log.finish();
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C07",
            level: "fault_enumeration",
            rule: "every fault kind in every kind of handler, with and without a recovery function, and every sequence of sends, commands with notification and job executions up to the depth, in every job order within the deviation bound",
            assumptions: vec![],
            scenarios: Box::new(|t| vec![Scenario::new("faults", t.or(0, 1), move |c| faults(c, t.or(4, 5)))]),
        },
        Check {
            id: "C08",
            level: "model_checking",
            rule: "every sequence of notification requests for two components up to the depth, futures polled after every job, in every job order within the deviation bound",
            assumptions: vec![],
            scenarios: Box::new(|t| {
                vec![
                    Scenario::new("start-stop", t.or(0, 1), move |c| notify(c, t.or(5, 6), 0, &[Way::Block])),
                    Scenario::new("with-kill", t.or(1, 2), move |c| notify(c, 4, 3, &[Way::Block])),
                    Scenario::new("ways-to-end", t.or(0, 1), move |c| notify(c, 4, 1, &[Way::Benign, Way::BlockBenign, Way::BlockTwice, Way::BlockShutdown])),
                ]
            }),
        },
        Check {
            id: "C09",
            level: "model_checking",
            rule: "every sequence of commands and messages up to the depth before the shutdown request, in every job order within the deviation bound",
            assumptions: vec![],
            scenarios: Box::new(|t| {
                vec![
                    Scenario::new("one", t.or(1, 2), move |c| shutdown(c, t.or(5, 6), 1, false)).weight(3),
                    Scenario::new("two", t.or(0, 1), move |c| shutdown(c, t.or(4, 4), 2, false)),
                    Scenario::new("requested-again", t.or(0, 1), shutdown_again),
                    Scenario::new("own-parts", t.or(2, 4), |c| own_parts(c, false)),
                    Scenario::new("own-parts-killed", t.or(1, 2), |c| own_parts(c, true)),
                    Scenario::new("kill-system", t.or(1, 2), move |c| shutdown(c, t.or(4, 5), 1, true)),
                ]
            }),
        },
    ]
}
