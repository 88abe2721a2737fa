//! C13: one scheduling is bounded and shared fairly.
use crate::{common::*, world::*};
use explore::*;
use kompact::prelude::*;
use std::{
    collections::BTreeMap,
    sync::{
        Arc, Mutex,
        atomic::{AtomicU64, Ordering},
    },
    time::Duration,
};

/// The kinds of queues of the probe: timers, messages and three ports.
const TIMER: usize = 0;
const MSG: usize = 1;
const KINDS: usize = 5;
fn kind(e: &E) -> Option<usize> {
    match e {
        E::Timer(_) => Some(TIMER),
        E::Msg(_) => Some(MSG),
        E::Req(1, _) => Some(2),
        E::Req(_, _) => Some(3),
        E::Ind(..) => Some(4),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Res {
    Ok,
    /// port handlers return benign errors
    BenignPorts,
    /// port handlers return (completed) blocking futures
    BlockPorts,
    BlockMsgs,
    BlockAll,
}

struct Rig {
    w: World,
    log: Log,
    c: Arc<Component<Probe>>,
    q: [u64; KINDS],
    seq: u8,
    t: usize,
    p: f32,
    res: Res,
    /// there were timers in the previous scheduling
    timers: bool,
    /// for each kind: which kinds were waiting ever since it was last served and not served since
    passed: [[bool; KINDS]; KINDS],
    /// schedulings in which a kind waited from start to end without being served
    starved: [u64; KINDS],
}

impl Rig {
    fn new(ctx: &Ctx, t: usize, p: f32, res: Res) -> Result<Rig, Violation> {
        let w = World::with(ctx, |c| {
            c.set_config_value(&kompact::config_keys::system::THROUGHPUT, t);
            c.set_config_value(&kompact::config_keys::system::MESSAGE_PRIORITY, p);
        });
        let log = Log::new(ctx);
        let b: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
            let msg = matches!(e, E::Msg(_));
            let port = matches!(e, E::Req(..) | E::Ind(..));
            if port && res == Res::BenignPorts {
                return Err(HandlerError::benign(std::fmt::Error));
            }
            if port && res == Res::BlockPorts || msg && res == Res::BlockMsgs || (port || msg) && res == Res::BlockAll {
                return Handled::block_on(me, async move |_| Handled::OK);
            }
            Handled::OK
        });
        let c = w.sys.create(|| Probe::new(0, &log, b));
        w.name(c.id(), "A");
        w.sys.start(&c);
        w.settle()?;
        Ok(Rig { w, log, c, q: [0; KINDS], seq: 0, t, p, res, timers: false, passed: Default::default(), starved: [0; KINDS] })
    }
    fn add(&mut self, k: usize, n: u64) {
        for _ in 0..n {
            self.seq = self.seq.wrapping_add(1);
            let x = m(50, k as u8, self.seq);
            match k {
                TIMER => self.c.on_definition(|me| {
                    me.schedule_once(Duration::from_millis(0), |me: &mut Probe, _| me.on(E::Timer(0)));
                }),
                MSG => self.c.actor_ref().tell(x),
                2 => {
                    let p: ProvidedRef<P1> = self.c.provided_ref();
                    self.w.sys.trigger_r(x, &p)
                }
                3 => {
                    let p: ProvidedRef<P2> = self.c.provided_ref();
                    self.w.sys.trigger_r(x, &p)
                }
                _ => {
                    let p: RequiredRef<P1> = self.c.required_ref();
                    self.w.sys.trigger_i(x, &p)
                }
            }
            self.q[k] += 1;
        }
        if k == TIMER && n > 0 {
            self.w.advance(0);
        }
    }
    fn backlog(&self) -> u64 {
        self.q.iter().sum()
    }
    /// One scheduling of the component, compared with the rules.
    fn job(&mut self) -> Outcome {
        let before = self.q;
        let n0 = self.log.of(0).len();
        self.w.run_job(0)?;
        self.w.ctx.step();
        let evs: Vec<E> = self.log.of(0)[n0..].to_vec();
        let mut h = [0u64; KINDS];
        for e in &evs {
            let Some(k) = kind(e) else { continue };
            h[k] += 1;
            ensure!(self.q[k] > 0, "handled too much", "{e:?} was not queued");
            self.q[k] -= 1;
            // strict round robin between ports: a port that waits is passed by each other port once at most
            for j in 2..KINDS {
                if k >= 2 && j != k && self.q[j] > 0 {
                    ensure!(
                        !self.passed[j][k],
                        "unfair between ports",
                        "port {k} was served twice while port {j} was waiting; this scheduling: {evs:?}"
                    );
                    self.passed[j][k] = true;
                }
            }
            self.passed[k] = [false; KINDS];
        }
        let total: u64 = h.iter().sum();
        let t = self.t as u64;
        let b: u64 = before.iter().sum();
        ensure!(total <= t, "more than the throughput", "{total} events in one scheduling, throughput {t}: {evs:?}");
        let (mb, eb) = (before[MSG], before[2] + before[3] + before[4]);
        let (mh, eh) = (h[MSG], h[2] + h[3] + h[4]);
        if self.res == Res::Ok {
            ensure!(
                total == t.min(b),
                "allotment not used",
                "{total} of {b} queued events handled with throughput {t}: {evs:?}"
            );
            // (timers take from the shares, also from those of the next scheduling)
            if before[TIMER] == 0 && !self.timers && t > 1 {
                let lo = ((t as f32 * self.p).floor() as u64).clamp(1, t - 1);
                let hi = ((t as f32 * self.p).ceil() as u64).clamp(1, t - 1);
                ensure!(
                    mh >= mb.min(lo),
                    "messages did not get their share",
                    "throughput {t}, priority {}: {mh} messages of {mb} and {eh} events of {eb} handled",
                    self.p
                );
                ensure!(
                    eh >= eb.min(t - hi),
                    "events did not get their share",
                    "throughput {t}, priority {}: {mh} messages of {mb} and {eh} events of {eb} handled",
                    self.p
                );
            }
        }
        self.timers = before[TIMER] > 0;
        if b > 0 {
            ensure!(total > 0 || self.res != Res::Ok, "nothing handled", "{b} events queued but none handled");
        }
        // starvation over several schedulings
        for (k, waiting, served) in [(MSG, mb, mh), (2, eb, eh)] {
            let waited = waiting > 0 && served == 0 && before[TIMER] == 0 && total > 0;
            self.starved[k] = if waited { self.starved[k] + 1 } else if served > 0 || waiting == 0 { 0 } else { self.starved[k] };
            let bound = t.max(2);
            ensure!(
                self.starved[k] < bound,
                "starved",
                "{} waited through {} schedulings that served others; throughput {t}, priority {}",
                if k == MSG { "messages" } else { "port events" },
                self.starved[k],
                self.p
            );
        }
        if self.backlog() > 0 {
            ensure!(self.w.pending() > 0, "not scheduled again", "{} events left but no job pending", self.backlog());
        }
        Ok(())
    }
    fn finish(&mut self) -> Outcome {
        let mut n = 0;
        while self.w.pending() > 0 {
            self.job()?;
            n += 1;
            ensure!(n < 500, "livelock", "still scheduling");
        }
        ensure!(self.backlog() == 0, "not handled", "left over: {:?}", self.q);
        self.log.finish();
        Ok(())
    }
}

fn backlogs(ctx: &Ctx, ts: &[usize], ps: &[f32], ms: &[u64], tms: &[u64], es: &[u64], arrivals: usize) -> Outcome {
    let t = *ctx.pick_of(ts);
    let p = *ctx.pick_of(ps);
    let mut r = Rig::new(ctx, t, p, Res::Ok)?;
    for (k, xs) in [(MSG, ms), (TIMER, tms), (2, es), (3, es), (4, es)] {
        let n = *ctx.pick_of(xs);
        r.add(k, n);
    }
    ctx.log(|| format!("throughput {t}, priority {p}, queued (timers, messages, ports) {:?}", r.q));
    for _ in 0..arrivals {
        if r.w.pending() == 0 {
            break;
        }
        r.job()?;
        match ctx.pick(4) {
            0 => (),
            1 => r.add(MSG, 1),
            2 => r.add(2, 2),
            _ => r.add(4, 1),
        }
    }
    r.finish()
}

/// Floods: some queues are refilled before every scheduling, others have one entry.
fn floods(ctx: &Ctx, ts: &[usize], rounds: usize) -> Outcome {
    let t = *ctx.pick_of(ts);
    let p = *ctx.pick_of(&[0.01f32, 0.5, 0.99]);
    let res = *ctx.pick_of(&[Res::Ok, Res::BenignPorts, Res::BlockPorts, Res::BlockMsgs, Res::BlockAll]);
    let flood: Vec<bool> = (0..4).map(|_| ctx.pick(2) == 1).collect();
    let mut r = Rig::new(ctx, t, p, res)?;
    for k in 1..KINDS {
        r.add(k, if flood[k - 1] { t as u64 + 1 } else { 1 });
    }
    ctx.log(|| format!("throughput {t}, priority {p}, {res:?}, flooded queues {flood:?}"));
    for _ in 0..rounds {
        if r.w.pending() == 0 {
            break;
        }
        r.job()?;
        for k in 1..KINDS {
            if flood[k - 1] {
                let n = t as u64 + 1 - r.q[k].min(t as u64 + 1);
                r.add(k, n);
            }
        }
        if ctx.pick(2) == 1 {
            for k in 1..KINDS {
                if r.q[k] == 0 {
                    r.add(k, 1);
                }
            }
        }
    }
    r.finish()
}

/// Local futures that yield must not monopolise the component or its thread.
fn yielding(ctx: &Ctx, depth: usize) -> Outcome {
    struct YieldNow(bool);
    impl std::future::Future for YieldNow {
        type Output = ();
        fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
            if self.0 {
                return std::task::Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }
    let t = *ctx.pick_of(&[1usize, 2, 5]);
    let n = 1 + ctx.pick(2) as u8;
    let forever = ctx.pick(2) == 1;
    let w = World::with(ctx, |c| {
        c.set_config_value(&kompact::config_keys::system::THROUGHPUT, t);
    });
    let log = Log::new(ctx);
    let polls: Arc<Mutex<BTreeMap<u8, u64>>> = Default::default();
    let stop = Arc::new(AtomicU64::new(if forever { u64::MAX } else { 3 }));
    let c = w.sys.create(|| Probe::new(0, &log, quiet()));
    w.name(c.id(), "A");
    w.sys.start(&c);
    w.settle()?;
    c.on_definition(|me| {
        for f in 0..n {
            let (polls, stop) = (polls.clone(), stop.clone());
            me.spawn_local(move |mut me| async move {
                let mut i = 0;
                loop {
                    let here = {
                        let mut g = polls.lock().unwrap();
                        let x = g.entry(f).or_default();
                        *x += 1;
                        *x
                    };
                    if here > 50 {
                        me.log.ctx.violate(Violation::new(
                            "local future monopolises the component",
                            format!("yielding local future {f} was polled {here} times in one scheduling"),
                        ));
                        return Handled::OK;
                    }
                    i += 1;
                    if i > stop.load(Ordering::SeqCst) {
                        let _ = me.on(E::Fut(f, 99));
                        return Handled::OK;
                    }
                    YieldNow(false).await;
                }
            });
        }
    });
    let mut sent = 0u8;
    let mut handled = 0;
    let mut waited = 0;
    let mut run = |waited: &mut u64, sent: u8| -> Outcome {
        if w.pending() == 0 {
            return Ok(());
        }
        polls.lock().unwrap().clear();
        w.run_job(0)?;
        let g = polls.lock().unwrap();
        for (f, x) in g.iter() {
            ensure!(
                *x <= t as u64,
                "local future monopolises the component",
                "future {f} polled {x} times in one scheduling, throughput {t}"
            );
        }
        let now = log.of(0).iter().filter(|e| matches!(e, E::Msg(_))).count();
        if now == handled && (sent as usize) > now {
            *waited += 1;
            ensure!(*waited < 3, "starved", "{sent} messages sent, {now} handled, nothing handled in {waited} schedulings");
        } else {
            *waited = 0;
        }
        handled = now;
        Ok(())
    };
    for _ in 0..depth {
        if ctx.pick(2) == 0 {
            run(&mut waited, sent)?;
        } else {
            c.actor_ref().tell(m(50, 0, sent));
            sent += 1;
        }
    }
    for _ in 0..20 {
        run(&mut waited, sent)?;
    }
    stop.store(0, Ordering::SeqCst);
    for _ in 0..20 {
        run(&mut waited, sent)?;
    }
    let evs = log.of(0);
    let ends = evs.iter().filter(|e| matches!(e, E::Fut(_, 99))).count();
    ensure!(ends == n as usize, "local future not completed", "{ends} of {n} completed");
    ensure!(
        evs.iter().filter(|e| matches!(e, E::Msg(_))).count() == sent as usize,
        "message lost",
        "{sent} sent: {evs:?}"
    );
    ensure!(w.pending() == 0, "scheduled without work", "{:?}", w.pending_names());
    log.finish();
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C13",
        level: "model_checking",
        rule: "every combination of throughput, message priority and queue backlogs up to the bounds, with arrivals between schedulings; each scheduling of the real component is compared with the sharing rules",
        assumptions: vec![],
        scenarios: Box::new(|tier| {
            vec![
                Scenario::new("backlogs", 0, move |c| {
                    backlogs(
                        c,
                        tier.or(&[1, 2, 3, 5], &[1, 2, 3, 4, 5, 8]),
                        &[0.01, 0.34, 0.5, 0.75, 0.99],
                        tier.or(&[0, 2, 6], &[0, 1, 2, 6, 9]),
                        tier.or(&[0, 1, 3], &[0, 1, 2, 3, 6]),
                        tier.or(&[0, 1, 4], &[0, 1, 2, 4]),
                        tier.or(2, 3),
                    )
                }),
                Scenario::new("floods", 0, move |c| floods(c, tier.or(&[1, 2, 3, 4], &[1, 2, 3, 4, 5, 8]), tier.or(5, 7))),
                Scenario::new("yielding-local-futures", 0, move |c| yielding(c, tier.or(7, 10))),
            ]
        }),
    }]
}
