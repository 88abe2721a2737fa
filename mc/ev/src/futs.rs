//! C05: blocking futures; C06: component-local futures.
use crate::{common::*, world::*};
use explore::*;
use kompact::prelude::*;
use std::{
    collections::BTreeMap,
    sync::{
        Arc, Mutex,
        atomic::{AtomicU8, Ordering},
    },
    time::Duration,
};

/// message route that makes the probe suspend or spawn
const GO: u8 = 5;
const END: u8 = 99;
/// the handler has returned the blocking future
const BEGIN: u8 = 98;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Msg,
    Req,
    Ind,
    Start,
    Stop,
    Timer,
    Kill,
    /// a local future that returns a blocking one
    Local,
}
const KINDS: [Kind; 8] = [
    Kind::Msg,
    Kind::Req,
    Kind::Ind,
    Kind::Start,
    Kind::Stop,
    Kind::Timer,
    Kind::Kill,
    Kind::Local,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fin {
    Ok,
    Benign,
    Shutdown,
    Chain,
    Recoverable,
}
const FINS: [Fin; 5] = [Fin::Ok, Fin::Benign, Fin::Shutdown, Fin::Chain, Fin::Recoverable];

type Open = Arc<Mutex<Vec<(u8, u8, KPromise<()>)>>>;

#[derive(Clone)]
struct Plan {
    open: Open,
    next: Arc<AtomicU8>,
    points: u8,
    fin: Fin,
    style: Style,
}
/// How a future waits.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Style {
    /// for one promise after the other
    Plain,
    /// the same, but wakes itself once before each and after each
    Yield,
    /// the same, with two wake-ups at once
    YieldTwice,
    /// for all promises together
    Join,
    /// moves its waker elsewhere, which wakes it later
    Elsewhere,
}
const STYLES: [Style; 5] = [Style::Plain, Style::Yield, Style::YieldTwice, Style::Join, Style::Elsewhere];

/// Pends once, after waking itself `n` times.
async fn pause(n: usize) {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            return std::task::Poll::Ready(());
        }
        done = true;
        for _ in 0..n {
            cx.waker().wake_by_ref();
        }
        std::task::Poll::Pending
    })
    .await
}
impl Plan {
    fn take(&self) -> (u8, Vec<KFuture<()>>) {
        let f = self.next.fetch_add(1, Ordering::SeqCst);
        let mut v = vec![];
        for p in 1..=self.points {
            let (pr, fu) = promise::<()>();
            self.open.lock().unwrap().push((f, p, pr));
            v.push(fu);
        }
        (f, v)
    }
}

fn note(me: &mut Probe, f: u8, p: u8) {
    let _b = me.enter();
    me.log.push(me.who, E::Fut(f, p));
    me.scratch.push(p as u64);
}

async fn body(mut me: ComponentDefinitionAccess<Probe>, f: u8, v: Vec<KFuture<()>>, plan: Plan, block: bool) -> HandlerResult {
    let mut p = 0;
    let mut len = 0;
    if block {
        me.scratch.clear();
    }
    note(&mut me, f, 0);
    if plan.style == Style::Join {
        for _ in futures::future::join_all(v).await {
            p += 1;
            note(&mut me, f, p);
        }
        note(&mut me, f, END);
        return finish(&mut me, &plan);
    }
    for mut fu in v {
        len += 1;
        match plan.style {
            Style::Yield => {
                pause(1).await;
                let _ = fu.await;
                pause(1).await;
            }
            Style::YieldTwice => {
                pause(2).await;
                let _ = fu.await;
                pause(2).await;
            }
            Style::Elsewhere => {
                // polled with a waker of an inner executor, which wakes the task
                let mut inner = futures::stream::FuturesUnordered::new();
                inner.push(async { (&mut fu).await });
                use futures::StreamExt;
                while inner.next().await.is_some() {}
                pause(1).await;
            }
            _ => {
                let _ = fu.await;
            }
        }
        p += 1;
        if block && me.scratch.len() != len {
            // exclusive access: nobody else may have touched the state
            me.log.ctx.violate(Violation::new(
                "state changed while blocked",
                format!("future {f} at point {p}: {:?}", me.scratch),
            ));
        }
        note(&mut me, f, p);
    }
    note(&mut me, f, END);
    finish(&mut me, &plan)
}

fn finish(me: &mut ComponentDefinitionAccess<Probe>, plan: &Plan) -> HandlerResult {
    match plan.fin {
        Fin::Ok => Handled::OK,
        Fin::Benign => Err(HandlerError::benign(std::fmt::Error)),
        Fin::Recoverable => Err(HandlerError::recoverable(std::fmt::Error)),
        Fin::Shutdown => Handled::SHUTDOWN,
        Fin::Chain => {
            let plan2 = Plan { fin: Fin::Ok, points: 1, style: Style::Plain, ..plan.clone() };
            let (f2, v2) = plan2.take();
            chain(me, f2, v2, plan2)
        }
    }
}

fn chain(me: &mut Probe, f: u8, v: Vec<KFuture<()>>, plan: Plan) -> HandlerResult {
    me.log.push(me.who, E::Fut(f, BEGIN));
    Handled::block_on(me, move |me2| -> futures::future::BoxFuture<'static, HandlerResult> {
        Box::pin(body(me2, f, v, plan, true))
    })
}

fn begin(me: &mut Probe, plan: &Plan) -> HandlerResult {
    let (f, v) = plan.take();
    let plan = plan.clone();
    me.log.push(me.who, E::Fut(f, BEGIN));
    Handled::block_on(me, move |me2| body(me2, f, v, plan, true))
}

/// Checks that nothing happens between start and end of a blocking future.
fn exclusive(evs: &[E]) -> Outcome {
    let mut cur: Option<(u8, u8)> = None;
    for (i, e) in evs.iter().enumerate() {
        match (cur, e) {
            (None, E::Fut(f, BEGIN)) => cur = Some((*f, BEGIN)),
            (Some((f, BEGIN)), E::Fut(g, 0)) if f == *g => cur = Some((f, 0)),
            (Some((f, p)), E::Fut(g, q)) if f == *g && p != BEGIN && (*q == p + 1 || *q == END) => {
                cur = if *q == END { None } else { Some((f, *q)) }
            }
            (None, E::Fut(..)) | (Some(_), _) => {
                return Err(Violation::new(
                    "handler ran while blocked",
                    format!("entry {i} of {evs:?} during {cur:?}"),
                ));
            }
            _ => {}
        }
    }
    Ok(())
}

fn fulfil(ctx: &Ctx, plan: &Plan, i: usize) {
    let (f, p, pr) = plan.open.lock().unwrap().remove(i);
    ctx.log(|| format!("fulfil promise {f}.{p}"));
    let _ = pr.fulfil(());
}

fn once_in_order(evs: &[E], msgs: &[M], evts: &[M], all: bool) -> Outcome {
    let got: Vec<M> = evs.iter().filter_map(|e| if let E::Msg(m) = e { Some(*m) } else { None }).collect();
    let gote: Vec<M> = evs
        .iter()
        .filter_map(|e| if let E::Ind(_, m) | E::Req(_, m) = e { Some(*m) } else { None })
        .collect();
    for (g, s, what) in [(&got, msgs, "messages"), (&gote, evts, "port events")] {
        let ok = if all { g[..] == *s } else { g.len() <= s.len() && g[..] == s[..g.len()] };
        ensure!(ok, "message lost or duplicated around blocking", "{what}: sent {s:?}, handled {g:?}");
    }
    Ok(())
}

/// Throughput and message priority of the system.
type Conf = (usize, f32);
const PLAIN: &[Conf] = &[(50, 0.5)];
const NARROW: &[Conf] = &[(4, 0.5), (4, 0.3), (3, 0.7), (2, 0.5)];

fn world(ctx: &Ctx, confs: &[Conf]) -> World {
    let (t, p) = *ctx.pick_of(confs);
    World::with(ctx, |c| {
        c.set_config_value(&kompact::config_keys::system::THROUGHPUT, t);
        c.set_config_value(&kompact::config_keys::system::MESSAGE_PRIORITY, p);
    })
}

/// A backlog of messages and port events, of which one kind blocks, is queued at once; then the
/// component runs, and the blocking future completes at any moment.
fn burst(ctx: &Ctx, max: usize) -> Outcome {
    let kind = *ctx.pick_of(&[Kind::Msg, Kind::Req, Kind::Local, Kind::Ind]);
    let points = 1 + ctx.pick(2) as u8;
    let w = world(ctx, NARROW);
    let log = Log::new(ctx);
    let plan = Plan { open: Default::default(), next: Default::default(), points, fin: Fin::Ok, style: Style::Plain };
    let plan2 = plan.clone();
    let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| match (kind, e) {
        (Kind::Msg, E::Msg(x)) if x.route == GO => begin(me, &plan2),
        (Kind::Req, E::Req(1, x)) | (Kind::Ind, E::Ind(1, x)) if x.route == GO => begin(me, &plan2),
        (Kind::Local, E::Msg(x)) if x.route == GO => {
            let p = plan2.clone();
            me.spawn_local(move |mut me2| async move { begin(&mut me2, &p) });
            Handled::OK
        }
        _ => Handled::OK,
    });
    let a = w.sys.create(|| Probe::new(0, &log, behave));
    w.name(a.id(), "A");
    let aref: ActorRef<M> = a.actor_ref();
    let pref: ProvidedRef<P1> = a.provided_ref();
    let rref: RequiredRef<P1> = a.required_ref();
    w.sys.start(&a);
    w.settle()?;
    let (mut msgs, mut evts) = (vec![], vec![]);
    let nm = ctx.pick(max + 1);
    let ne = ctx.pick(max + 1);
    let port = matches!(kind, Kind::Req | Kind::Ind);
    let own = if port { ne } else { nm };
    if own == 0 {
        return Ok(());
    }
    // which of the events of the kind block
    let mask = 1 + ctx.pick((1 << own) - 1);
    for i in 0..nm {
        let x = m(50, if !port && mask >> i & 1 == 1 { GO } else { 0 }, i as u8);
        aref.tell(x);
        msgs.push(x);
    }
    for i in 0..ne {
        let x = m(50, if port && mask >> i & 1 == 1 { GO } else { 1 }, i as u8);
        if kind == Kind::Ind {
            w.sys.trigger_i(x, &rref);
        } else {
            w.sys.trigger_r(x, &pref);
        }
        evts.push(x);
    }
    ctx.log(|| format!("{kind:?}: {nm} messages, {ne} port events, blocking mask {mask:b}"));
    let progress = || log.count() + 1;
    let mut rounds = 0;
    loop {
        // complete after one scheduling, or only when nothing moves any more
        if ctx.pick(2) == 0 {
            w.step()?;
        } else {
            w.drain_spin(&progress)?;
        }
        exclusive(&log.of(0))?;
        if !plan.open.lock().unwrap().is_empty() {
            fulfil(ctx, &plan, 0);
        } else if w.pending() == 0 {
            break;
        }
        rounds += 1;
        ensure!(rounds < 100, "blocks again and again", "{:?}", log.of(0));
    }
    let evs = log.of(0);
    log.finish();
    exclusive(&evs)?;
    let ends = evs.iter().filter(|e| matches!(e, E::Fut(_, END))).count();
    ensure!(
        ends == plan.next.load(Ordering::SeqCst) as usize && ends == mask.count_ones() as usize,
        "blocking future did not complete",
        "{ends} of {} ended: {evs:?}",
        mask.count_ones()
    );
    once_in_order(&evs, &msgs, &evts, true)
}

fn blocking(ctx: &Ctx, depth: usize, kinds: &'static [Kind], fins: &'static [Fin], confs: &'static [Conf]) -> Outcome {
    let kind = *ctx.pick_of(kinds);
    let fin = *ctx.pick_of(fins);
    let points = 1 + ctx.pick(2) as u8;
    let w = world(ctx, confs);
    let log = Log::new(ctx);
    let plan = Plan { open: Default::default(), next: Default::default(), points, fin, style: Style::Plain };
    let plan2 = plan.clone();
    let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| match (kind, e) {
        (Kind::Msg, E::Msg(x)) if x.route == GO => begin(me, &plan2),
        (Kind::Req, E::Req(1, x)) | (Kind::Ind, E::Ind(1, x)) if x.route == GO => begin(me, &plan2),
        (Kind::Start, E::Start) | (Kind::Stop, E::Stop) | (Kind::Kill, E::Kill) => begin(me, &plan2),
        (Kind::Timer, E::Timer(_)) => begin(me, &plan2),
        (Kind::Timer, E::Msg(x)) if x.route == GO => {
            let t = me.schedule_once(Duration::from_millis(10), |me, _| me.on(E::Timer(0)));
            me.timers.push(t);
            Handled::OK
        }
        (Kind::Local, E::Msg(x)) if x.route == GO => {
            let p = plan2.clone();
            me.spawn_local(move |mut me2| async move { begin(&mut me2, &p) });
            Handled::OK
        }
        _ => Handled::OK,
    });
    let a = w.sys.create(|| Probe::new(0, &log, behave));
    w.name(a.id(), "A");
    let aref: ActorRef<M> = a.actor_ref();
    let pref: ProvidedRef<P1> = a.provided_ref();
    let rref: RequiredRef<P1> = a.required_ref();
    let (mut msgs, mut evts) = (vec![], vec![]);
    let mut cmds = vec![E::Start];
    w.sys.start(&a);
    if kind != Kind::Start {
        w.settle()?;
    }
    for _ in 0..depth {
        let open = plan.open.lock().unwrap().len();
        let n = 5 + open + (kind == Kind::Timer) as usize + matches!(kind, Kind::Stop | Kind::Kill) as usize;
        let op = ctx.pick(n);
        match op {
            0 => {
                w.step()?;
            }
            1 => {
                let x = m(50, 0, msgs.len() as u8);
                ctx.log(|| format!("send {x:?}"));
                aref.tell(x);
                msgs.push(x);
            }
            2 => {
                ctx.log(|| "go".into());
                match kind {
                    Kind::Req => {
                        let x = m(50, GO, evts.len() as u8);
                        w.sys.trigger_r(x, &pref);
                        evts.push(x);
                    }
                    Kind::Ind => {
                        let x = m(50, GO, evts.len() as u8);
                        w.sys.trigger_i(x, &rref);
                        evts.push(x);
                    }
                    Kind::Stop => {
                        w.sys.stop(&a);
                        cmds.push(E::Stop);
                    }
                    Kind::Kill => {
                        w.sys.kill(a.clone());
                        cmds.push(E::Kill);
                    }
                    Kind::Start => {
                        w.sys.start(&a);
                        cmds.push(E::Start);
                    }
                    _ => {
                        let x = m(50, GO, msgs.len() as u8);
                        aref.tell(x);
                        msgs.push(x);
                    }
                }
            }
            3 => {
                ctx.log(|| "trigger".into());
                let x = m(50, 1, evts.len() as u8);
                if kind == Kind::Ind {
                    w.sys.trigger_i(x, &rref);
                } else {
                    w.sys.trigger_r(x, &pref);
                }
                evts.push(x);
            }
            4 => {
                ctx.log(|| "stop".into());
                w.sys.stop(&a);
                cmds.push(E::Stop);
            }
            k if k < 5 + open => fulfil(ctx, &plan, k - 5),
            _ if kind == Kind::Timer => w.advance(10),
            _ => {
                ctx.log(|| "start".into());
                w.sys.start(&a);
                cmds.push(E::Start);
            }
        }
        exclusive(&log.of(0))?;
    }
    let progress = || log.count() + 1;
    w.drain_spin(&progress)?;
    // finish everything that is still open
    let mut rounds = 0;
    loop {
        exclusive(&log.of(0))?;
        let open = plan.open.lock().unwrap().len();
        if open == 0 {
            break;
        }
        fulfil(ctx, &plan, 0);
        w.drain_spin(&progress)?;
        rounds += 1;
        ensure!(rounds < 40, "blocks again and again", "{:?}", log.of(0));
    }
    let evs = log.of(0);
    let dead = evs.contains(&E::Kill) || fin == Fin::Recoverable && evs.contains(&E::Fut(0, END));
    if !dead && cmds.last() == Some(&E::Stop) {
        ctx.log(|| "epilogue: start".into());
        w.sys.start(&a);
        cmds.push(E::Start);
        w.drain_spin(&progress)?;
        while !plan.open.lock().unwrap().is_empty() {
            fulfil(ctx, &plan, 0);
            w.drain_spin(&progress)?;
            rounds += 1;
            ensure!(rounds < 40, "blocks again and again", "{:?}", log.of(0));
        }
    }
    if kind == Kind::Timer && !log.of(0).contains(&E::Kill) {
        w.advance(10);
        w.drain_spin(&progress)?;
        while !plan.open.lock().unwrap().is_empty() {
            fulfil(ctx, &plan, 0);
            w.drain_spin(&progress)?;
        }
    }
    let evs = log.of(0);
    log.finish();
    exclusive(&evs)?;
    // every blocking future that was started has finished, exactly once
    let mut ends: BTreeMap<u8, (u32, u32)> = Default::default();
    for e in &evs {
        if let E::Fut(f, p) = e {
            if *p == 0 {
                ends.entry(*f).or_default().0 += 1;
            }
            if *p == END {
                ends.entry(*f).or_default().1 += 1;
            }
        }
    }
    for (f, c) in &ends {
        ensure!(*c == (1, 1), "blocking future did not complete", "future {f}: started/ended {c:?} in {evs:?}");
    }
    // every future whose promises were handed out was also polled
    let handed = plan.next.load(Ordering::SeqCst) as usize;
    let gone = evs.contains(&E::Kill) || fin == Fin::Recoverable;
    ensure!(
        gone || ends.len() == handed,
        "blocking future was never polled",
        "{} of {handed} futures ran: {evs:?}",
        ends.len()
    );
    if let Some(i) = evs.iter().position(|e| *e == E::Kill) {
        ensure!(
            evs[i + 1..].iter().all(|e| matches!(e, E::Fut(..))),
            "handler ran after kill",
            "{evs:?}"
        );
        once_in_order(&evs, &msgs, &evts, false)?;
    } else if fin == Fin::Recoverable && ends.len() == 1 {
        ensure!(evs.last() == Some(&E::Fut(0, END)), "handler ran after fault", "{evs:?}");
        once_in_order(&evs, &msgs, &evts, false)?;
    } else {
        once_in_order(&evs, &msgs, &evts, true)?;
        let lc: Vec<E> = evs.iter().copied().filter(|e| matches!(e, E::Start | E::Stop | E::Kill)).collect();
        ensure!(lc == cmds, "lifecycle command lost around blocking", "commands {cmds:?}, handled {lc:?}");
        // shutdown must have killed it
        ensure!(
            !(fin == Fin::Shutdown && !ends.is_empty()),
            "shutdown did not kill",
            "blocking future asked to shut down: {evs:?}"
        );
    }
    started_only(&evs)
}

/// Ordinary events only while the last lifecycle handler was Start.
fn started_only(evs: &[E]) -> Outcome {
    let mut on = false;
    for e in evs {
        match e {
            E::Start => on = true,
            E::Stop | E::Kill => on = false,
            E::Msg(_) | E::Req(..) | E::Ind(..) | E::Timer(_) => {
                ensure!(on, "event handled while not started", "{e:?} in {evs:?}")
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn locals(ctx: &Ctx, depth: usize, stops: bool, styles: &'static [Style]) -> Outcome {
    let style = *ctx.pick_of(styles);
    let fin = *ctx.pick_of(if stops {
        &[Fin::Ok, Fin::Chain][..]
    } else {
        &[Fin::Ok, Fin::Benign, Fin::Shutdown, Fin::Chain, Fin::Recoverable][..]
    });
    let points = 1 + ctx.pick(2) as u8;
    let w = World::new(ctx);
    let log = Log::new(ctx);
    let plan = Plan { open: Default::default(), next: Default::default(), points, fin, style };
    let plan2 = plan.clone();
    let behave: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
        if let E::Msg(x) = e
            && x.route == GO
        {
            let p = plan2.clone();
            let (f, v) = p.take();
            me.spawn_local(move |me2| body(me2, f, v, p, false));
        }
        Handled::OK
    });
    let a = w.sys.create(|| Probe::new(0, &log, behave));
    w.name(a.id(), "A");
    let aref: ActorRef<M> = a.actor_ref();
    w.sys.start(&a);
    w.settle()?;
    let mut msgs = vec![];
    let mut cmds = vec![E::Start];
    let mut send = |route: u8| {
        let x = m(50, route, msgs.len() as u8);
        ctx.log(|| format!("send {x:?}"));
        aref.tell(x);
        msgs.push(x);
    };
    for _ in 0..depth {
        let open = plan.open.lock().unwrap().len();
        let base = if stops { 5 } else { 3 };
        match ctx.pick(base + open) {
            0 => {
                w.step()?;
            }
            1 => send(GO),
            2 => send(0),
            3 if stops => {
                ctx.log(|| "stop".into());
                w.sys.stop(&a);
                cmds.push(E::Stop);
            }
            4 if stops => {
                ctx.log(|| "start".into());
                w.sys.start(&a);
                cmds.push(E::Start);
            }
            k => fulfil(ctx, &plan, k - base),
        }
    }
    let progress = || log.count() + 1;
    w.drain_spin(&progress)?;
    // wake everything, before or after a restart
    let stopped = cmds.last() == Some(&E::Stop);
    let late = stopped && ctx.pick(2) == 1;
    let restart = || -> Outcome {
        ctx.log(|| "epilogue: start".into());
        w.sys.start(&a);
        w.drain_spin(&progress)
    };
    if stopped && !late {
        restart()?;
    }
    let mut rounds = 0;
    while !plan.open.lock().unwrap().is_empty() {
        fulfil(ctx, &plan, 0);
        w.drain_spin(&progress)?;
        rounds += 1;
        ensure!(rounds < 40, "blocks again and again", "{:?}", log.of(0));
    }
    started_only(&log.of(0))?;
    if late {
        restart()?;
        while !plan.open.lock().unwrap().is_empty() {
            fulfil(ctx, &plan, 0);
            w.drain_spin(&progress)?;
        }
    }
    let evs = log.of(0);
    log.finish();
    started_only(&evs)?;
    let ended = evs.iter().any(|e| matches!(e, E::Fut(_, END)));
    if ended && fin == Fin::Shutdown {
        let i = evs.iter().position(|e| matches!(e, E::Fut(_, END))).unwrap();
        ensure!(evs[i + 1..] == [E::Kill], "shutdown did not kill", "{evs:?}");
        return once_in_order(&evs, &msgs, &[], false);
    }
    if ended && fin == Fin::Recoverable {
        ensure!(matches!(evs.last(), Some(E::Fut(_, END))), "handler ran after fault", "{evs:?}");
        return once_in_order(&evs, &msgs, &[], false);
    }
    once_in_order(&evs, &msgs, &[], true)?;
    let handed = plan.next.load(Ordering::SeqCst);
    for f in 0..handed {
        let pts: Vec<u8> = evs
            .iter()
            .filter_map(|e| match e {
                E::Fut(g, p) if *g == f && *p != BEGIN => Some(*p),
                _ => None,
            })
            .collect();
        let np = pts.len().saturating_sub(2) as u8;
        let want: Vec<u8> = (0..=np).chain([END]).collect();
        ensure!(
            pts == want && np >= 1,
            "local future did not run to completion once",
            "future {f}: {pts:?} in {evs:?}"
        );
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C05",
            level: "model_checking",
            rule: "every handler kind that can block, every result of the blocking future, and every sequence of sends, triggers, stops, wake-ups and job executions up to the depth, in every job order within the deviation bound",
            assumptions: vec![],
            scenarios: Box::new(|t| {
                vec![
                    Scenario::new("kinds", t.or(0, 1), move |c| blocking(c, t.or(5, 6), &KINDS, &[Fin::Ok], PLAIN)),
                    Scenario::new("results", t.or(0, 1), move |c| blocking(c, t.or(4, 5), &KINDS, &FINS, PLAIN)),
                    Scenario::new("narrow", t.or(0, 1), move |c| blocking(c, t.or(4, 5), &KINDS, &[Fin::Ok], NARROW)),
                    Scenario::new("burst", 0, move |c| burst(c, t.or(3, 4))),
                ]
            }),
        },
        Check {
            id: "C06",
            level: "model_checking",
            rule: "every sequence of spawning local futures, completing what they await, sends, stops and job executions up to the depth, in every job order within the deviation bound",
            assumptions: vec![],
            scenarios: Box::new(|t| {
                vec![
                    Scenario::new("spawn-and-wake", t.or(0, 1), move |c| locals(c, t.or(7, 8), false, &STYLES[..1])),
                    Scenario::new("waiting-styles", t.or(0, 1), move |c| locals(c, t.or(6, 7), false, &STYLES[1..])),
                    Scenario::new("styles-with-stops", t.or(0, 1), move |c| locals(c, t.or(4, 5), true, &STYLES[1..])),
                    Scenario::new("with-stops", t.or(0, 1), move |c| locals(c, t.or(5, 6), true, &STYLES[..1])),
                ]
            }),
        },
    ]
}
