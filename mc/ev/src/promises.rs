//! C11: promises, asks and spawned futures.
use crate::world::*;
use explore::*;
use futures::task::{ArcWake, waker};
use kompact::prelude::*;
use std::{
    future::Future,
    pin::Pin,
    sync::{
        Arc, Mutex,
        atomic::{AtomicUsize, Ordering},
    },
    task::{Context, Poll},
    time::Duration,
};

#[derive(Default)]
struct Count(AtomicUsize);
impl ArcWake for Count {
    fn wake_by_ref(me: &Arc<Self>) {
        me.0.fetch_add(1, Ordering::SeqCst);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum P {
    Open,
    Done(u64),
    Dropped,
}

/// A future under observation: what happened to its promise and how often it was woken.
struct F {
    fut: Option<KFuture<u64>>,
    wakes: Arc<Count>,
    waiting: bool,
    seen: usize,
}
impl F {
    fn new(fut: KFuture<u64>) -> F {
        F { fut: Some(fut), wakes: Default::default(), waiting: false, seen: 0 }
    }
    /// Poll and compare with what must be.
    fn poll(&mut self, ctx: &Ctx, i: usize, p: P) -> Outcome {
        let Some(f) = self.fut.as_mut() else { return Ok(()) };
        let w = waker(self.wakes.clone());
        let mut cx = Context::from_waker(&w);
        self.seen = self.wakes.0.load(Ordering::SeqCst);
        let r = Pin::new(f).poll(&mut cx);
        ctx.log(|| format!("poll future {i}: {r:?}"));
        match (&r, p) {
            (Poll::Pending, P::Open) => {
                self.waiting = true;
            }
            (Poll::Ready(Ok(v)), P::Done(x)) if *v == x => {
                self.fut = None;
            }
            (Poll::Ready(Err(_)), P::Dropped) => {
                self.fut = None;
            }
            _ => {
                return Err(Violation::new(
                    "wrong result",
                    format!("future {i} gave {r:?} but its promise is {p:?}"),
                ));
            }
        }
        Ok(())
    }
    /// A waiting future whose promise was resolved must have been woken.
    fn woken(&self, i: usize, p: P) -> Outcome {
        if self.fut.is_some() && self.waiting && p != P::Open {
            ensure!(
                self.wakes.0.load(Ordering::SeqCst) > self.seen,
                "waiter not woken",
                "future {i} was polled while pending, its promise is now {p:?}, but it was not woken"
            );
        }
        Ok(())
    }
    fn wait_timeout(&mut self, ctx: &Ctx, i: usize, p: P) -> Outcome {
        let Some(f) = self.fut.take() else { return Ok(()) };
        if p == P::Open {
            // give up waiting: the future comes back and stays usable
            let r = block_until(Duration::ZERO, f);
            ctx.log(|| format!("block_until future {i}: {}", r.is_ok()));
            match r {
                Err(f) => {
                    self.fut = Some(f);
                    self.waiting = false;
                }
                Ok(r) => {
                    return Err(Violation::new("wrong wait result", format!("block_until gave {r:?} for an open promise")));
                }
            }
            return Ok(());
        }
        let r = f.wait_timeout(Duration::ZERO).map_err(|e| format!("{e:?}"));
        ctx.log(|| format!("wait_timeout future {i}: {r:?}"));
        match (&r, p) {
            (Ok(v), P::Done(x)) if *v == x => (),
            (Err(e), P::Dropped) if e == "PromiseDropped" => (),
            (r, p) => {
                return Err(Violation::new(
                    "wrong wait result",
                    format!("wait_timeout on future {i} gave {r:?} but its promise is {p:?}"),
                ));
            }
        }
        Ok(())
    }
}

fn pairs(ctx: &Ctx, depth: usize, max: usize) -> Outcome {
    let mut ps: Vec<Option<KPromise<u64>>> = vec![];
    let mut st: Vec<P> = vec![];
    let mut fs: Vec<F> = vec![];
    for step in 0..depth {
        let n = ps.len();
        // create | (fulfil, complete, drop promise, poll, drop future, wait) per pair
        let k = ctx.pick(1 + 6 * n);
        if k == 0 {
            if n < max {
                let (p, f) = promise::<u64>();
                ps.push(Some(p));
                st.push(P::Open);
                fs.push(F::new(f));
            }
            continue;
        }
        let i = (k - 1) / 6;
        match (k - 1) % 6 {
            op @ (0 | 1) => {
                if let Some(p) = ps[i].take() {
                    let v = if op == 0 { 100 * (i as u64 + 1) + step as u64 } else { 0 };
                    let r = if op == 0 { p.fulfil(v) } else { p.complete() };
                    ctx.log(|| format!("fulfil {i} with {v}: {r:?}"));
                    let dropped = fs[i].fut.is_none();
                    match r {
                        Ok(()) if !dropped => (),
                        Err(PromiseErr::ChannelBroken) if dropped => (),
                        r => {
                            return Err(Violation::new("wrong fulfil result", format!("{r:?}, future dropped: {dropped}")));
                        }
                    }
                    st[i] = P::Done(v);
                }
            }
            2 => {
                if ps[i].take().is_some() {
                    ctx.log(|| format!("drop promise {i}"));
                    st[i] = P::Dropped;
                }
            }
            3 => fs[i].poll(ctx, i, st[i])?,
            4 => {
                ctx.log(|| format!("drop future {i}"));
                fs[i].fut = None;
            }
            _ => fs[i].wait_timeout(ctx, i, st[i])?,
        }
        for i in 0..fs.len() {
            fs[i].woken(i, st[i])?;
        }
        ctx.state(&(&st, fs.iter().map(|f| (f.fut.is_some(), f.waiting)).collect::<Vec<_>>()).hashable());
        ctx.step();
    }
    // whoever is left resolves when the promises go away
    for (i, p) in ps.into_iter().enumerate() {
        if p.is_some() {
            drop(p);
            st[i] = P::Dropped;
        }
        fs[i].woken(i, st[i])?;
        fs[i].poll(ctx, i, st[i])?;
    }
    ctx.outcome(&format!("{st:?}"));
    Ok(())
}

trait Hashable {
    fn hashable(&self) -> u64;
}
impl<T: std::fmt::Debug> Hashable for T {
    fn hashable(&self) -> u64 {
        explore::hash_of(&format!("{self:?}"))
    }
}

// ---- asks ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Do {
    Now,
    Hold,
    Drop,
    Complete,
    /// complete_with, waiting for an external promise in a blocking future
    Await,
    /// reply from a local future
    Local,
    Panic,
}
const DOS: [Do; 7] = [Do::Now, Do::Hold, Do::Drop, Do::Complete, Do::Await, Do::Local, Do::Panic];

#[derive(Default)]
struct Side {
    /// asks held back: (request, ask)
    held: Vec<Ask<u64, u64>>,
    /// external promises the component waits for: request -> promise
    ext: Vec<(u64, KPromise<()>)>,
    /// requests received
    got: Vec<u64>,
    st: Vec<(u64, P)>,
    /// requests nobody waits for any more
    gone: Vec<u64>,
    wrong: Vec<String>,
    /// blocking handlers that began and ended
    began: usize,
    ended: usize,
}
type Sh = Arc<Mutex<Side>>;
fn answer(r: u64) -> u64 {
    r * 1000 + 7
}
fn set(sh: &Sh, r: u64, p: P) {
    let mut s = sh.lock().unwrap();
    for x in s.st.iter_mut() {
        if x.0 == r {
            x.1 = p;
        }
    }
}

/// An answer is refused if nobody waits for it any more, and only then.
fn answered(sh: &Sh, r: u64, res: Result<(), PromiseErr>) {
    let mut s = sh.lock().unwrap();
    if res.is_ok() == s.gone.contains(&r) {
        let t = format!("the answer to {r} gave {res:?}, given up: {:?}", s.gone);
        s.wrong.push(t);
    }
}

#[derive(ComponentDefinition)]
struct Server {
    ctx: ComponentContext<Self>,
    sh: Sh,
    plan: Vec<Do>,
}
ignore_lifecycle!(Server);
impl Actor for Server {
    type Message = Ask<u64, u64>;
    fn receive_local(&mut self, mut msg: Self::Message) -> HandlerResult {
        let r = *msg.request();
        self.sh.lock().unwrap().got.push(r);
        match self.plan[r as usize] {
            Do::Now => {
                set(&self.sh, r, P::Done(answer(r)));
                answered(&self.sh, r, msg.reply(answer(r)));
            }
            Do::Complete => {
                *msg.request_mut() += 0;
                set(&self.sh, r, P::Done(answer(r)));
                answered(&self.sh, r, msg.complete(answer));
            }
            Do::Hold => self.sh.lock().unwrap().held.push(msg),
            Do::Drop => {
                set(&self.sh, r, P::Dropped);
                drop(msg)
            }
            Do::Await => {
                let (p, f) = promise::<()>();
                let sh = self.sh.clone();
                {
                    let mut s = self.sh.lock().unwrap();
                    s.ext.push((r, p));
                    s.began += 1;
                }
                return Handled::block_on(self, async move |_| {
                    let sh2 = sh.clone();
                    let res = msg
                        .complete_with(async move |r| {
                            let _ = f.await;
                            set(&sh2, r, P::Done(answer(r)));
                            answer(r)
                        })
                        .await;
                    answered(&sh, r, res);
                    sh.lock().unwrap().ended += 1;
                    Handled::OK
                });
            }
            Do::Local => {
                let sh = self.sh.clone();
                self.spawn_local(move |_me| async move {
                    let (p, r) = msg.take();
                    set(&sh, r, P::Done(answer(r)));
                    answered(&sh, r, p.fulfil(answer(r)));
                    Handled::OK
                });
            }
            Do::Panic => {
                set(&self.sh, r, P::Dropped);
                let _keep = msg;
                panic!("mc: planned panic");
            }
        }
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn asks(ctx: &Ctx, depth: usize, n: usize, kill: bool, give_up: bool) -> Outcome {
    let w = World::new(ctx);
    let sh: Sh = Default::default();
    let plan: Vec<Do> = (0..n).map(|_| *ctx.pick_of(&DOS)).collect();
    ctx.log(|| format!("plan {plan:?}"));
    let p2 = plan.clone();
    let sh2 = sh.clone();
    let srv = w.sys.create(move || Server { ctx: ComponentContext::uninitialised(), sh: sh2, plan: p2 });
    w.name(srv.id(), "S");
    w.sys.start(&srv);
    w.settle()?;
    let aref = srv.actor_ref();
    let strong = aref.hold().expect("alive");
    let mut fs: Vec<F> = vec![];
    let check = |fs: &mut Vec<F>, poll: bool| -> Outcome {
        let st = sh.lock().unwrap().st.clone();
        for (i, f) in fs.iter_mut().enumerate() {
            f.woken(i, st[i].1)?;
            if poll {
                f.poll(ctx, i, st[i].1)?;
            }
        }
        Ok(())
    };
    let mut killed = false;
    for _ in 0..depth {
        // only operations that can do something now
        let mut ops = vec![];
        {
            let s = sh.lock().unwrap();
            if w.pending() > 0 {
                ops.push(0);
            }
            if fs.len() < n {
                ops.push(1);
            }
            if fs.iter().any(|f| f.fut.is_some()) {
                ops.push(2);
            }
            if !s.held.is_empty() {
                ops.extend([3, 4]);
            }
            if !s.ext.is_empty() {
                ops.push(5);
            }
            if kill && !killed {
                ops.push(6);
            }
            if give_up && fs.last().is_some_and(|f| f.fut.is_some()) {
                ops.push(7);
            }
        }
        if ops.is_empty() {
            break;
        }
        match *ctx.pick_of(&ops) {
            0 => {
                w.step()?;
            }
            1 => {
                let r = fs.len() as u64;
                if (r as usize) < n {
                    ctx.log(|| format!("ask {r}"));
                    sh.lock().unwrap().st.push((r, P::Open));
                    let f = match r % 3 {
                        0 => aref.ask(r),
                        1 => strong.ask(r),
                        _ => aref.ask_with(Ask::of(r)),
                    };
                    fs.push(F::new(f));
                }
            }
            2 => check(&mut fs, true)?,
            3 => {
                let a = {
                    let mut s = sh.lock().unwrap();
                    if s.held.is_empty() { None } else { Some(s.held.remove(0)) }
                };
                if let Some(a) = a {
                    let r = *a.request();
                    ctx.log(|| format!("reply to held ask {r}"));
                    set(&sh, r, P::Done(answer(r)));
                    answered(&sh, r, a.reply(answer(r)));
                }
            }
            7 => {
                let r = fs.len() - 1;
                ctx.log(|| format!("give up on ask {r}"));
                // (an answer that is there already was not refused)
                let mut s = sh.lock().unwrap();
                if s.st[r].1 == P::Open {
                    s.gone.push(r as u64);
                }
                fs[r].fut = None;
            }
            4 => {
                let a = sh.lock().unwrap().held.pop();
                if let Some(a) = a {
                    let r = *a.request();
                    ctx.log(|| format!("drop held ask {r}"));
                    set(&sh, r, P::Dropped);
                    drop(a);
                }
            }
            5 => {
                let e = sh.lock().unwrap().ext.pop();
                if let Some((r, p)) = e {
                    ctx.log(|| format!("let awaited event of {r} happen"));
                    let _ = p.fulfil(());
                }
            }
            _ => {
                killed = true;
                w.sys.kill(srv.clone());
            }
        }
        check(&mut fs, false)?;
        ctx.state(&sh.lock().unwrap().st.hashable());
    }
    // let everything happen
    loop {
        w.drain()?;
        let held = std::mem::take(&mut sh.lock().unwrap().held);
        for a in held {
            let r = *a.request();
            set(&sh, r, P::Done(answer(r)));
            answered(&sh, r, a.complete(answer));
        }
        let Some((_, p)) = sh.lock().unwrap().ext.pop() else { break };
        let _ = p.fulfil(());
    }
    w.drain()?;
    let faulty = srv.is_faulty();
    {
        let s = sh.lock().unwrap();
        ensure!(s.wrong.is_empty(), "answer wrongly refused or not", "{:?}", s.wrong);
        ensure!(killed || faulty || s.began == s.ended, "answering never ends", "{} of {}", s.ended, s.began);
    }
    let got = sh.lock().unwrap().got.clone();
    if !killed && !faulty {
        ensure!(got.len() == fs.len(), "ask not handled", "{} of {} asks were handled", got.len(), fs.len());
        let st = sh.lock().unwrap().st.clone();
        ensure!(st.iter().all(|x| x.1 != P::Open), "ask not answered", "{st:?}");
    }
    for i in 1..got.len() {
        ensure!(got[i - 1] < got[i], "asks out of order", "{got:?}");
    }
    check(&mut fs, true)?;
    if killed || faulty {
        // with the component gone, every ask it never answered is broken
        drop(srv);
        drop(strong);
        w.settle()?;
        w.sys.mc_dismantle();
        for x in sh.lock().unwrap().st.iter_mut() {
            if x.1 == P::Open {
                x.1 = P::Dropped;
            }
        }
        check(&mut fs, true)?;
        // and so is every ask sent after that
        let mut late = F::new(aref.ask(99));
        late.poll(ctx, 99, P::Dropped)?;
    }
    ctx.outcome(&format!("{:?} {got:?}", sh.lock().unwrap().st));
    Ok(())
}

/// Futures spawned on the system's pool and their join handles.
fn spawned(ctx: &Ctx, depth: usize) -> Outcome {
    let w = World::new(ctx);
    let mut open: Vec<Option<KPromise<u64>>> = vec![];
    let mut hs = vec![];
    let mut st: Vec<P> = vec![];
    let runs = Arc::new(AtomicUsize::new(0));
    for _ in 0..depth {
        let n = open.len();
        let k = ctx.pick(2 + 3 * n);
        if k == 0 {
            w.step()?;
        } else if k == 1 {
            if n < 2 {
                let (p, f) = promise::<u64>();
                let r2 = runs.clone();
                hs.push(Some(w.sys.spawn(async move {
                    let r = f.await;
                    r2.fetch_add(1, Ordering::SeqCst);
                    r.map(answer).unwrap_or(1)
                })));
                open.push(Some(p));
                st.push(P::Open);
                ctx.log(|| format!("spawn {n}"));
            }
        } else {
            let i = (k - 2) / 3;
            match (k - 2) % 3 {
                0 => {
                    if let Some(p) = open[i].take() {
                        ctx.log(|| format!("fulfil {i}"));
                        let _ = p.fulfil(i as u64);
                        st[i] = P::Done(answer(i as u64));
                    }
                }
                1 => {
                    if open[i].take().is_some() {
                        ctx.log(|| format!("drop promise {i}"));
                        st[i] = P::Done(1);
                    }
                }
                _ => {
                    ctx.log(|| format!("drop join handle {i}"));
                    hs[i] = None;
                }
            }
        }
        for i in 0..hs.len() {
            if let Some(h) = hs[i].as_mut()
                && let Poll::Ready(r) = poll_once(h)
            {
                ensure!(
                    r.ok().map(P::Done) == Some(st[i]),
                    "wrong result",
                    "join handle {i} gave a result that does not match {:?}",
                    st[i]
                );
                hs[i] = None;
            }
        }
    }
    for i in 0..open.len() {
        if let Some(p) = open[i].take() {
            let _ = p.fulfil(i as u64);
            st[i] = P::Done(answer(i as u64));
        }
    }
    w.drain()?;
    for i in 0..hs.len() {
        if let Some(mut h) = hs[i].take() {
            match poll_once(&mut h) {
                Poll::Ready(Ok(v)) if P::Done(v) == st[i] => (),
                r => return Err(Violation::new("spawned future not finished", format!("{i}: {r:?} vs {:?}", st[i]))),
            }
        }
    }
    let r = runs.load(Ordering::SeqCst);
    ensure!(r == open.len(), "spawned future not run once", "{r} runs of {} futures", open.len());
    ctx.outcome(&format!("{st:?}"));
    Ok(())
}

/// A component that blocks on, or locally awaits, a future it spawned off.
fn spawn_off(ctx: &Ctx, depth: usize) -> Outcome {
    #[derive(ComponentDefinition)]
    struct Off {
        ctx: ComponentContext<Self>,
        log: Arc<Mutex<Vec<u64>>>,
        open: Arc<Mutex<Vec<(u64, KPromise<u64>)>>>,
    }
    ignore_lifecycle!(Off);
    impl Actor for Off {
        type Message = (bool, u64);
        fn receive_local(&mut self, (block, i): (bool, u64)) -> HandlerResult {
            let (p, f) = promise::<u64>();
            self.open.lock().unwrap().push((i, p));
            let h = self.spawn_off(async move { f.await.map(answer).unwrap_or(1) });
            let fin = async move |me: ComponentDefinitionAccess<Off>| {
                let v = h.await.unwrap_or(2);
                me.log.lock().unwrap().push(v);
                Handled::OK
            };
            if block {
                Handled::block_on(self, fin)
            } else {
                self.spawn_local(fin);
                Handled::OK
            }
        }
        fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
            Handled::OK
        }
    }
    let w = World::new(ctx);
    let log: Arc<Mutex<Vec<u64>>> = Default::default();
    let open: Arc<Mutex<Vec<(u64, KPromise<u64>)>>> = Default::default();
    let (l2, o2) = (log.clone(), open.clone());
    let c = w.sys.create(move || Off { ctx: ComponentContext::uninitialised(), log: l2, open: o2 });
    w.sys.start(&c);
    w.settle()?;
    let mut want = vec![];
    let mut n = 0u64;
    for _ in 0..depth {
        match ctx.pick(5) {
            0 => {
                w.step()?;
            }
            k @ (1 | 2) => {
                ctx.log(|| format!("send {n}, block: {}", k == 1));
                c.actor_ref().tell((k == 1, n));
                n += 1;
            }
            k => {
                let e = {
                    let mut o = open.lock().unwrap();
                    if o.is_empty() {
                        None
                    } else if k == 3 {
                        Some(o.remove(0))
                    } else {
                        o.pop()
                    }
                };
                if let Some((i, p)) = e {
                    ctx.log(|| format!("resolve {i}"));
                    if k == 3 {
                        let _ = p.fulfil(i);
                        want.push(answer(i));
                    } else {
                        want.push(1);
                    }
                }
            }
        }
    }
    loop {
        w.drain()?;
        let Some((i, p)) = open.lock().unwrap().pop() else { break };
        let _ = p.fulfil(i);
        want.push(answer(i));
    }
    let mut got = log.lock().unwrap().clone();
    got.sort();
    want.sort();
    ensure!(got == want && got.len() == n as usize, "spawned-off result lost", "expected {want:?} got {got:?} for {n} requests");
    ctx.outcome(&got);
    Ok(())
}

fn perm(ctx: &Ctx, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        out.push(left.remove(ctx.pick(left.len())));
    }
    out
}

/// Collections of futures: every completion order, every subset broken or left open.
fn collections(ctx: &Ctx, max: usize) -> Outcome {
    let n = 1 + ctx.pick(max);
    let order = perm(ctx, n);
    let how = ctx.pick(6);
    let mut ps = vec![];
    let mut fs = vec![];
    for _ in 0..n {
        let (p, f) = promise::<Result<u64, u64>>();
        ps.push(Some(p));
        fs.push(f);
    }
    // all succeed, or one is never fulfilled, dropped, or fulfilled with an error
    let odd = ctx.pick(1 + if how < 3 { 2 * n } else { 0 });
    let (bad, drop_it) = if odd == 0 { (n, false) } else { ((odd - 1) / 2, (odd - 1) % 2 == 0) };
    ctx.log(|| format!("{n} futures, completion order {order:?}, collector {how}, odd one {bad} dropped {drop_it}"));
    for &i in &order {
        if i == bad {
            if drop_it {
                ps[i] = None;
            }
            continue;
        }
        let _ = ps[i].take().unwrap().fulfil(Ok(answer(i as u64)));
    }
    let want: Vec<u64> = (0..n as u64).map(answer).collect();
    let wantr: Vec<Result<u64, u64>> = want.iter().map(|x| Ok(*x)).collect();
    let t = Duration::ZERO;
    if bad < n {
        match how {
            0 => {
                let r: Result<Vec<Result<u64, u64>>, _> = fs.collect_with_timeout(t);
                ensure!(r.is_err(), "incomplete collection succeeded", "{:?}", r.map_err(|_| ()));
            }
            _ => {
                // the futures before the odd one still give their values, later ones too
                for (i, f) in fs.into_iter().enumerate() {
                    let r = f.wait_timeout(t).map_err(|e| format!("{e:?}"));
                    let ok = match (&r, i == bad) {
                        (Ok(Ok(v)), false) => *v == want[i],
                        (Err(e), true) => drop_it == (e == "PromiseDropped"),
                        _ => false,
                    };
                    ensure!(ok, "wrong wait result", "future {i} of {n}: {r:?}");
                }
            }
        }
        return Ok(());
    }
    match how {
        0 => {
            let r: Result<Vec<Result<u64, u64>>, _> = fs.collect_with_timeout(t);
            ensure!(matches!(&r, Ok(v) if *v == wantr), "collection wrong", "{:?}", r.map_err(|_| ()));
        }
        1 => {
            let r: Vec<Result<u64, u64>> = fs.collect_results();
            ensure!(r == wantr, "collection wrong", "{r:?}");
        }
        2 => {
            let r: Vec<u64> = fs.collect_ok();
            ensure!(r == want, "collection wrong", "{r:?}");
        }
        3 => {
            let r: Vec<u64> = fs.collect_ok_with_timeout(t, "mc");
            ensure!(r == want, "collection wrong", "{r:?}");
        }
        4 => fs.expect_ok(t, "mc"),
        _ => fs.expect_completion(t, "mc"),
    }
    ctx.outcome(&(n, how));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C11",
        level: "model_checking",
        rule: "every operation sequence over promise/future pairs, asks, spawned futures and future collections up to the depth, in every job order within the deviation bound; each future's result is compared with what happened to its promise",
        assumptions: vec!["the oneshot channel of the futures crate is trusted for thread-level races of fulfil and poll".into()],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("pairs", 0, move |c| pairs(c, t.or(6, 8), 2)),
                Scenario::new("asks", t.or(0, 1), move |c| asks(c, t.or(7, 9), 3, false, false)),
                    Scenario::new("asks-given-up", t.or(0, 1), move |c| asks(c, t.or(7, 9), 2, false, true)),
                Scenario::new("asks-and-kill", t.or(0, 1), move |c| asks(c, t.or(8, 10), 2, true, false)),
                Scenario::new("spawned", t.or(1, 2), move |c| spawned(c, t.or(6, 8))),
                Scenario::new("spawn-off", t.or(1, 2), move |c| spawn_off(c, t.or(6, 8))),
                Scenario::new("collections", 0, move |c| collections(c, t.or(4, 5))),
            ]
        }),
    }]
}
