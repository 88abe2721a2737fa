//! C10: timers fire when due, exactly as often as they should, never when cancelled.
use crate::{common::*, world::*};
use explore::*;
use kompact::prelude::*;
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};

#[derive(Clone, Debug)]
struct T {
    owner: u8,
    at: u64,
    delay: u64,
    period: Option<u64>,
    handle: Option<ScheduledTimer>,
    cancelled: bool,
    fired: u64,
}
impl T {
    fn dues(&self, now: u64) -> u64 {
        let first = self.at + self.delay;
        match self.period {
            _ if now < first => 0,
            None => 1,
            Some(p) => 1 + (now - first) / p,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Plain,
    /// every handler cancels its own timer
    SelfCancel,
    /// every handler cancels all timers of the component
    CancelAll,
    /// the first handler schedules a once-timer
    Again,
    /// handlers block on an already completed future
    Block,
}
const MODES: [Mode; 5] = [Mode::Plain, Mode::SelfCancel, Mode::CancelAll, Mode::Again, Mode::Block];

/// The model shared by harness and timer handlers.
struct S {
    now: u64,
    ts: Vec<T>,
    started: [bool; 2],
}
type Sh = Arc<Mutex<S>>;

fn schedule(me: &mut Probe, sh: &Sh, mode: Mode, delay: u64, period: Option<u64>) {
    let i = {
        let mut s = sh.lock().unwrap();
        let now = s.now;
        s.ts.push(T { owner: me.who, at: now, delay, period, handle: None, cancelled: false, fired: 0 });
        s.ts.len() - 1
    };
    let s2 = sh.clone();
    let h = match period {
        None => me.schedule_once(Duration::from_millis(delay), move |me: &mut Probe, id| fire(me, &s2, mode, i, id)),
        Some(p) => me.schedule_periodic(Duration::from_millis(delay), Duration::from_millis(p), move |me: &mut Probe, id| {
            fire(me, &s2, mode, i, id)
        }),
    };
    sh.lock().unwrap().ts[i].handle = Some(h);
}

fn cancel(me: &mut Probe, sh: &Sh, i: usize) {
    let h = {
        let mut s = sh.lock().unwrap();
        s.ts[i].cancelled = true;
        s.ts[i].handle.clone()
    };
    me.cancel_timer(h.expect("handle"));
}

fn fire(me: &mut Probe, sh: &Sh, mode: Mode, i: usize, id: ScheduledTimer) -> HandlerResult {
    let _b = me.enter();
    me.log.push(me.who, E::Timer(i as u8));
    let ctx = me.log.ctx.clone();
    let n = {
        let mut s = sh.lock().unwrap();
        let now = s.now;
        let started = s.started[me.who as usize];
        let t = &mut s.ts[i];
        let bad = |sig: &str, msg: String| ctx.violate(Violation::new(sig, msg));
        if t.owner != me.who {
            bad("wrong component", format!("timer {i} of {} handled by {}", who_name(t.owner), who_name(me.who)));
        }
        if t.handle.as_ref() != Some(&id) {
            bad("wrong handle", format!("timer {i} handled with the handle of another timer"));
        }
        if t.cancelled {
            bad("fired after cancel", format!("timer {i} was handled after its component cancelled it"));
        }
        if !started {
            bad("fired while not started", format!("timer {i} was handled while {} was not started", who_name(me.who)));
        }
        t.fired += 1;
        if t.fired > t.dues(now) {
            bad(
                "fired early or twice",
                format!("timer {i} handled {} times by {now} ms but was due {} times ({t:?})", t.fired, t.dues(now)),
            );
        }
        s.ts.len()
    };
    match mode {
        Mode::Plain => (),
        Mode::SelfCancel => cancel(me, sh, i),
        Mode::CancelAll => {
            for j in 0..n {
                if sh.lock().unwrap().ts[j].owner == me.who {
                    cancel(me, sh, j);
                }
            }
        }
        Mode::Again => {
            if n < 4 {
                schedule(me, sh, Mode::Plain, 10, None);
            }
        }
        Mode::Block => return Handled::block_on(me, async move |_| Handled::OK),
    }
    Handled::OK
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Run,
    Once(u8, u64),
    Periodic(u8, u64, u64),
    Cancel(u8, bool),
    Advance(u64),
    Send(u8),
    Start,
    Stop,
    Kill,
}

/// All programs of `depth` operations from `ops`, with components A (and B).
fn program(ctx: &Ctx, comps: u8, ops: &[Op], modes: &[Mode], depth: usize, throughput: usize) -> Outcome {
    let mode = *ctx.pick_of(modes);
    ctx.log(|| format!("timer handlers: {mode:?}"));
    let w = World::with(ctx, |c| {
        c.set_config_value(&kompact::config_keys::system::THROUGHPUT, throughput);
    });
    let log = Log::new(ctx);
    let sh: Sh = Arc::new(Mutex::new(S { now: 0, ts: vec![], started: [true; 2] }));
    let lifecycle = ops.contains(&Op::Stop);
    let mut cs = vec![];
    for i in 0..comps {
        let s2 = sh.clone();
        let b: Arc<Behave> = Arc::new(move |me: &mut Probe, e| {
            match e {
                E::Start => s2.lock().unwrap().started[me.who as usize] = true,
                E::Stop | E::Kill => s2.lock().unwrap().started[me.who as usize] = false,
                _ => (),
            }
            Handled::OK
        });
        let c = w.sys.create(|| Probe::new(i, &log, b));
        w.name(c.id(), who_name(i));
        w.sys.start(&c);
        w.settle()?;
        cs.push(c);
    }
    let mut sent = 0;
    let mut on = true;
    let mut killed = false;
    for _ in 0..depth {
        let op = *ctx.pick_of(ops);
        ctx.log(|| format!("{op:?}"));
        match op {
            Op::Run => {
                w.step()?;
            }
            Op::Once(c, d) => cs[c as usize].on_definition(|me| schedule(me, &sh, mode, d, None)),
            Op::Periodic(c, d, p) => cs[c as usize].on_definition(|me| schedule(me, &sh, mode, d, Some(p))),
            Op::Cancel(c, last) => {
                let pos = {
                    let s = sh.lock().unwrap();
                    let f = |t: &T| t.owner == c && !t.cancelled;
                    if last { s.ts.iter().rposition(f) } else { s.ts.iter().position(f) }
                };
                if let Some(i) = pos {
                    cs[c as usize].on_definition(|me| cancel(me, &sh, i));
                }
            }
            Op::Advance(d) => {
                sh.lock().unwrap().now += d;
                w.advance(d);
            }
            Op::Send(c) => {
                cs[c as usize].actor_ref().tell(m(50, 0, sent));
                sent += 1;
            }
            Op::Start => {
                w.sys.start(&cs[0]);
                on = true;
            }
            Op::Stop => {
                w.sys.stop(&cs[0]);
                on = false;
            }
            Op::Kill => {
                w.sys.kill(cs[0].clone());
                killed = true;
            }
        }
    }
    let progress = || if lifecycle { log.count() + 1 } else { 0 };
    w.drain_spin(&progress)?;
    // everything that becomes due now must be handled, and then the component must be idle
    for d in [0, 10] {
        sh.lock().unwrap().now += d;
        w.advance(d);
        w.drain_spin(&progress)?;
    }
    if !on && !killed {
        w.sys.start(&cs[0]);
        w.drain()?;
    }
    {
        let s = sh.lock().unwrap();
        for (i, t) in s.ts.iter().enumerate() {
            if t.cancelled || (killed && t.owner == 0) {
                continue;
            }
            ensure!(
                t.fired == t.dues(s.now),
                "due timeout not handled",
                "timer {i} handled {} times by {} ms but was due {} times ({t:?})",
                t.fired,
                s.now,
                t.dues(s.now)
            );
        }
    }
    ensure!(w.pending() == 0 || killed, "scheduled without work", "jobs left: {:?}", w.pending_names());
    if !killed {
        let n = log.all().iter().filter(|e| matches!(e.1, E::Msg(_))).count();
        ensure!(n == sent as usize, "message lost", "{n} of {sent} messages handled");
        // the accounting still works: exactly one job for one message
        for c in &cs {
            let j0 = w.jobs_run.get();
            c.actor_ref().tell(m(50, 1, 0));
            w.settle()?;
            let used = w.jobs_run.get() - j0;
            ensure!(used == 1, "scheduled without work", "one message needed {used} jobs");
        }
        // time passes without anything to do
        let idle = {
            let s = sh.lock().unwrap();
            s.ts.iter().all(|t| t.cancelled || t.period.is_none() && t.fired == 1)
        };
        if idle {
            let j0 = w.jobs_run.get();
            for _ in 0..3 {
                w.advance(10);
                w.settle_bounded(20)?;
            }
            let used = w.jobs_run.get() - j0;
            ensure!(used == 0, "scheduled without work", "{used} jobs without a timer");
        }
    }
    log.finish();
    Ok(())
}

pub fn checks() -> Vec<Check> {
    use Op::*;
    const MAIN: &[Op] = &[
        Run, Once(0, 10), Periodic(0, 10, 10), Cancel(0, false), Cancel(0, true), Advance(10), Advance(25), Send(0), Once(0, 0),
    ];
    const LIFE: &[Op] = &[Run, Once(0, 10), Periodic(0, 0, 10), Cancel(0, false), Advance(10), Start, Stop, Kill];
    const TWO: &[Op] = &[Run, Once(0, 10), Once(1, 10), Periodic(1, 10, 20), Cancel(0, false), Cancel(1, false), Advance(10), Advance(30)];
    const LONG: &[Op] = &[Run, Once(0, 10), Periodic(0, 10, 10), Cancel(0, false), Advance(10)];
    vec![Check {
        id: "C10",
        level: "model_checking",
        rule: "every sequence of timer operations up to the depth, in every job order within the deviation bound, on the real runtime with a manual clock; each firing is compared with the model's due times",
        assumptions: vec!["time is advanced through kompact's own manual timer (the timing wheel is a dependency and trusted)".into()],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("one-component", t.or(0, 0), move |c| program(c, 1, MAIN, &MODES, t.or(5, 6), 2)),
                Scenario::new("long", t.or(0, 0), move |c| program(c, 1, LONG, &MODES[..3], t.or(7, 8), 1)),
                Scenario::new("lifecycle", t.or(1, 1), move |c| program(c, 1, LIFE, &MODES[..1], t.or(6, 7), 2)),
                Scenario::new("two-components", t.or(1, 2), move |c| program(c, 2, TWO, &MODES[..2], t.or(5, 6), 2)),
            ]
        }),
    }]
}
