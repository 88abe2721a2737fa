//! Exploration of thread interleavings: kompact's own synchronisation operations are reported
//! (hook `kompact::mc`) to a scheduler that decides before each of them which thread continues.
use crate::co::{self, Co};
use explore::{Ctx, Outcome, Violation};
use kompact::{
    executors::{CanExecute, Executor, FuturesExecutor, JoinHandle},
    mc::Explorer,
    prelude::*,
    runtime::{ExecutorScheduler, Scheduler, SchedulerShutdownError},
    timer::ManualTimer,
};
use std::{
    collections::BTreeMap,
    cell::{Cell, RefCell},
    future::Future,
    panic::{AssertUnwindSafe, catch_unwind},
    rc::Rc,
    sync::{Arc, Mutex},
    task::Poll,
};
use uuid::Uuid;

/// Steps of one execution; beyond it the system livelocks.
const STEP_LIMIT: usize = 20_000;
/// Fairness: a thread that takes so many steps while others could must let them.
const FAIR: usize = 80;

enum Status {
    Ready,
    Waiting(*const dyn Fn() -> bool),
    Parked,
    Done,
}
struct Thread {
    name: String,
    co: Option<Box<Co>>,
    status: Status,
    token: bool,
    /// when it ran last
    stamp: usize,
    /// where it belongs
    home: usize,
}

pub struct Rt {
    ctx: Ctx,
    threads: RefCell<Vec<Thread>>,
    current: Cell<Option<usize>>,
    next: Cell<Option<usize>>,
    exploring: Cell<bool>,
    coarse: Cell<bool>,
    /// no switching inside of harness critical sections
    atomic: Cell<usize>,
    steps: Cell<usize>,
    /// steps of the current thread since the last switch
    run: Cell<usize>,
    clock: Cell<usize>,
    panicked: RefCell<Option<String>>,
    names: RefCell<Vec<(Uuid, String)>>,
    objects: RefCell<Vec<usize>>,
    /// where threads belong that are started from outside
    home: Cell<usize>,
    /// threads that belong there do not run for now
    frozen: Cell<Option<usize>>,
    /// the harness polls: the others run meanwhile
    polling: Cell<bool>,
    /// workers of the executor, and what they run
    workers: RefCell<BTreeMap<usize, String>>,
}

thread_local! {
    static RT: RefCell<Option<Rc<Rt>>> = const { RefCell::new(None) };
    static LABEL: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn rt() -> Rc<Rt> {
    RT.with(|r| r.borrow().clone().expect("no execution"))
}

/// An operation of the harness at which others may run (inside handlers, say).
pub fn point(what: &'static str) {
    rt().here(what, 0);
}

/// As `thread_id`, also outside of explored executions.
pub fn try_thread_id() -> Option<usize> {
    RT.with(|r| r.borrow().as_ref().and_then(|r| r.current.get()))
}

/// Let the current thread wait for something of the harness.
pub fn wait_until(f: impl Fn() -> bool) {
    rt().wait("wait", 0, &f);
}

/// Start an explored thread.
pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> usize {
    rt().spawn(name, Box::new(f))
}

impl Rt {
    fn enabled(&self, t: &Thread) -> bool {
        if self.frozen.get() == Some(t.home) {
            return false;
        }
        match t.status {
            Status::Ready => true,
            Status::Waiting(f) => unsafe { (*f)() },
            Status::Parked => t.token,
            Status::Done => false,
        }
    }
    fn others(&self, me: Option<usize>) -> Vec<usize> {
        let ts = self.threads.borrow();
        let mut v: Vec<usize> = (0..ts.len()).filter(|i| Some(*i) != me && self.enabled(&ts[*i])).collect();
        // fair: whoever has waited longest comes first
        v.sort_by_key(|i| ts[*i].stamp);
        v
    }
    /// Threads that belong to `home` do not run.
    #[allow(dead_code)]
    pub fn freeze(&self, home: Option<usize>) {
        self.frozen.set(home);
    }
    /// How often threads were let run.
    #[allow(dead_code)]
    pub fn runs(&self) -> usize {
        self.clock.get()
    }
    fn tick(&self) -> usize {
        self.clock.set(self.clock.get() + 1);
        self.clock.get()
    }
    fn object(&self, o: usize) -> usize {
        let mut os = self.objects.borrow_mut();
        os.iter().position(|x| *x == o).unwrap_or_else(|| {
            os.push(o);
            os.len() - 1
        })
    }
    fn log(&self, what: &str, o: usize) {
        if self.exploring.get() {
            self.ctx.log(|| {
                let t = self.current.get().map(|t| self.threads.borrow()[t].name.clone());
                let o = if o == 0 { String::new() } else { format!(" #{}", self.object(o)) };
                format!("      [{}] {what}{o}", t.unwrap_or("-".into()))
            });
        }
    }
    fn switch(&self, me: usize, status: Status) {
        self.threads.borrow_mut()[me].status = status;
        co::suspend();
        self.threads.borrow_mut()[me].status = Status::Ready;
    }
    /// Run threads until none can run (or `until` holds).
    fn run(&self, until: Option<&dyn Fn() -> bool>) -> Outcome {
        assert!(self.current.get().is_none());
        loop {
            if let Some(u) = until
                && self.next.get().is_none()
                && u()
            {
                return Ok(());
            }
            let t = match self.next.take() {
                Some(t) => t,
                None => {
                    let en = self.others(None);
                    if en.is_empty() {
                        return Ok(());
                    }
                    if self.exploring.get() { en[self.ctx.sched(en.len())] } else { en[0] }
                }
            };
            let mut co = self.threads.borrow_mut()[t].co.take().expect("coroutine");
            self.current.set(Some(t));
            self.run.set(0);
            self.threads.borrow_mut()[t].stamp = self.tick();
            let done = co.resume();
            self.current.set(None);
            if done {
                self.threads.borrow_mut()[t].status = Status::Done;
            } else {
                self.threads.borrow_mut()[t].co = Some(co);
            }
            if let Some(p) = self.panicked.borrow_mut().take() {
                return Err(Violation::new("panic", p));
            }
            self.steps.set(self.steps.get() + 1);
            if self.steps.get() > STEP_LIMIT {
                return Err(Violation::new("livelock", "the system never comes to rest".to_string()));
            }
        }
    }
}

impl Rt {
    fn here(&self, op: &'static str, object: usize) {        let Some(me) = self.current.get() else { return };
        self.log(op, object);
        if !self.exploring.get() || self.atomic.get() > 0 {
            return;
        }
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > STEP_LIMIT {
            // give control back for good
            self.switch(me, Status::Ready);
        }
        let en = self.others(Some(me));
        if en.is_empty() {
            return;
        }
        self.ctx.step();
        self.run.set(self.run.get() + 1);
        if self.run.get() > FAIR {
            self.next.set(Some(en[0]));
            self.switch(me, Status::Ready);
            return;
        }
        let c = self.ctx.sched(en.len() + 1);
        if c > 0 {
            self.next.set(Some(en[c - 1]));
            self.switch(me, Status::Ready);
        }
    }
}

impl Explorer for Rt {
    fn point(&self, op: &'static str, object: usize) {
        if self.polling.get() && self.current.get().is_none() {
            let first = Cell::new(true);
            let _ = self.run(Some(&|| !first.replace(false)));
        }
        if !self.coarse.get() {
            self.here(op, object);
        }
    }
    fn wait(&self, op: &'static str, object: usize, ready: &dyn Fn() -> bool) {
        match self.current.get() {
            None => {
                // the harness itself waits: run everything else (a bit even if it need not wait:
                // it may be polling)
                let first = Cell::new(true);
                let _ = self.run(Some(&|| !first.replace(false) && ready()));
                assert!(ready(), "the harness waits for {op} forever");
            }
            Some(me) => {
                assert!(self.atomic.get() == 0, "waiting for {op} inside of a critical section");
                self.log(op, object);
                // SAFETY: the closure lives on the stack of this coroutine, which does not move
                // on before the status changes.
                let r: *const dyn Fn() -> bool = unsafe {
                    std::mem::transmute::<&dyn Fn() -> bool, *const (dyn Fn() -> bool + 'static)>(
                        ready,
                    )
                };
                self.switch(me, Status::Waiting(r));
            }
        }
    }
    fn spawn(&self, name: &str, f: Box<dyn FnOnce() + 'static>) -> usize {
        let home = self.current_home();
        let mut ts = self.threads.borrow_mut();
        let id = ts.len();
        let name = format!("{name}/{id}");
        let body = move || {
            if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
                let text = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or("?".into());
                *rt().panicked.borrow_mut() = Some(format!("a thread panicked: {text}"));
            }
        };
        ts.push(Thread {
            name,
            co: Some(Co::new(Box::new(body))),
            status: Status::Ready,
            token: false,
            stamp: self.tick(),
            home,
        });
        id
    }
    fn yield_now(&self) {
        let Some(me) = self.current.get() else { return };
        self.log("yield", 0);
        let en = self.others(Some(me));
        if en.is_empty() || self.atomic.get() > 0 {
            self.steps.set(self.steps.get() + 1);
            if self.steps.get() > STEP_LIMIT {
                self.switch(me, Status::Ready);
            }
            return;
        }
        let c = if self.exploring.get() { self.ctx.sched(en.len()) } else { 0 };
        self.next.set(Some(en[c]));
        self.switch(me, Status::Ready);
    }
    fn park(&self) {
        let Some(me) = self.current.get() else {
            panic!("the harness parks");
        };
        self.point("park", 0);
        if !self.threads.borrow()[me].token {
            self.switch(me, Status::Parked);
        }
        self.threads.borrow_mut()[me].token = false;
    }
    fn unpark(&self, thread: usize) {
        self.point("unpark", thread);
        self.threads.borrow_mut()[thread].token = true;
    }
}

/// The executor under kompact's own `ExecutorScheduler`: every job is a thread.
#[derive(Clone, Default)]
pub struct Pool(Arc<Mutex<bool>>);
impl CanExecute for Pool {
    fn execute_job(&self, job: Box<dyn FnOnce() + Send + 'static>) {
        let name = LABEL.with(|l| l.borrow_mut().take()).unwrap_or("future".into());
        worker(&name, job);
    }
}
/// Run `job` on a worker thread of the executor.
fn worker(name: &str, job: Box<dyn FnOnce() + Send + 'static>) {
    let r = rt();
    let id = r.spawn(name, job);
    r.workers.borrow_mut().insert(id, name.to_string());
}

/// The local executor of the workers: what they add may run anywhere at any time.
pub struct Locally;
impl Locally {
    fn worker() -> Option<String> {
        let me = try_thread_id()?;
        rt().workers.borrow().get(&me).cloned()
    }
}
impl executors::Local for Locally {
    fn is_worker(&self) -> bool {
        Self::worker().is_some()
    }
    fn execute(&self, job: Box<dyn FnOnce() + Send + 'static>) {
        worker(&Self::worker().expect("a worker"), job);
    }
}
impl Executor for Pool {
    fn shutdown_async(&self) {
        *self.0.lock().unwrap() = true;
    }
    fn shutdown_borrowed(&self) -> Result<(), String> {
        *self.0.lock().unwrap() = true;
        Ok(())
    }
}
impl FuturesExecutor for Pool {
    fn spawn<R: Send + 'static>(
        &self,
        future: impl Future<Output = R> + 'static + Send,
    ) -> JoinHandle<R> {
        let me = self.clone();
        let (runnable, handle) = async_task::spawn(future, move |r: async_task::Runnable| {
            me.execute(move || {
                r.run();
            })
        });
        runnable.schedule();
        handle
    }
}

#[derive(Clone)]
struct PoolScheduler {
    inner: ExecutorScheduler<Pool>,
}
impl Scheduler for PoolScheduler {
    fn schedule(&self, c: Arc<dyn CoreContainer>) {
        let r = rt();
        let id = c.id();
        let name = r
            .names
            .borrow()
            .iter()
            .find(|n| n.0 == id)
            .map(|n| n.1.clone())
            .unwrap_or_else(|| c.type_name().to_string());
        LABEL.with(|l| *l.borrow_mut() = Some(name));
        self.inner.schedule(c);
    }
    fn shutdown_async(&self) {
        self.inner.shutdown_async()
    }
    fn shutdown(&self) -> Result<(), SchedulerShutdownError> {
        self.inner.shutdown()
    }
    fn shutdown_notify(
        &self,
    ) -> futures::future::BoxFuture<'static, Result<(), SchedulerShutdownError>> {
        let r = self.inner.shutdown();
        Box::pin(async move { r })
    }
    fn box_clone(&self) -> Box<dyn Scheduler> {
        Box::new(self.clone())
    }
    fn poison(&self) {
        self.inner.poison()
    }
    fn spawn(&self, future: futures::future::BoxFuture<'static, ()>) {
        self.inner.spawn(future)
    }
}

/// A system whose threads are explored.
pub struct Threads {
    pub rt: Rc<Rt>,
    pub sys: KompactSystem,
    pub timer: ManualTimer,
}

/// Uninstalls the explorer, also when the scenario panics.
struct Installed;
impl Drop for Installed {
    fn drop(&mut self) {
        kompact::mc::install(None);
        RT.with(|r| *r.borrow_mut() = None);
    }
}

/// Run `f` with nothing in it yet.
pub fn with_rt(ctx: &Ctx, f: impl FnOnce(&Rc<Rt>) -> Outcome) -> Outcome {
    let rt = Rc::new(Rt {
        ctx: ctx.clone(),
        threads: RefCell::new(vec![]),
        current: Cell::new(None),
        next: Cell::new(None),
        exploring: Cell::new(false),
        coarse: Cell::new(false),
        atomic: Cell::new(0),
        steps: Cell::new(0),
        run: Cell::new(0),
        clock: Cell::new(0),
        panicked: RefCell::new(None),
        names: RefCell::new(vec![]),
        objects: RefCell::new(vec![]),
        home: Cell::new(0),
        frozen: Cell::new(None),
        polling: Cell::new(false),
        workers: Default::default(),
    });
    RT.with(|r| *r.borrow_mut() = Some(rt.clone()));
    // SAFETY: uninstalled before the last reference is dropped
    kompact::mc::install(Some(unsafe { &*(Rc::as_ptr(&rt) as *const Rt) }));
    let guard = Installed;
    let r = f(&rt);
    rt.exploring.set(false);
    // suspended threads may hold anything
    if r.is_err() || rt.threads.borrow().iter().any(|t| !matches!(t.status, Status::Done)) {
        std::mem::forget(rt);
    }
    drop(guard);
    r
}

/// Build a system and run everything to rest, unexplored.
pub fn build(rt: &Rc<Rt>, conf_f: impl FnOnce(&mut KompactConfig)) -> Result<Threads, Violation> {
    let mut conf = KompactConfig::default();
    conf.logger(crate::world::logger());
    conf.set_config_value(&kompact::config_keys::system::LABEL, "mc".to_string());
    conf.set_config_value(&kompact::config_keys::system::THREADS, 1usize);
    conf.scheduler(|_| Box::new(PoolScheduler { inner: ExecutorScheduler::with(Pool::default()) }));
    let timer = kompact::default_components::install_manual_timer(&mut conf);
    conf_f(&mut conf);
    let mut build = conf.build();
    let mut n = 0;
    let sys = loop {
        match crate::world::poll_once(&mut build) {
            Poll::Ready(r) => break r.expect("system"),
            Poll::Pending => {
                n += 1;
                assert!(n < 1000, "system does not come up");
                rt.run(None)?;
            }
        }
    };
    rt.run(None)?;
    Ok(Threads { rt: rt.clone(), sys, timer })
}

/// Run `f` on a fresh system.  Its start-up is not explored; `Threads::explore` is.
pub fn with_threads(ctx: &Ctx, f: impl FnOnce(&Threads) -> Outcome) -> Outcome {
    with_threads_conf(ctx, |_| {}, f)
}
pub fn with_threads_conf(
    ctx: &Ctx,
    conf_f: impl FnOnce(&mut KompactConfig),
    f: impl FnOnce(&Threads) -> Outcome,
) -> Outcome {
    with_rt(ctx, |rt| {
        let w = build(rt, conf_f)?;
        let r = f(&w);
        rt.exploring.set(false);
        if r.is_err() {
            std::mem::forget(w);
            return r;
        }
        w.sys.mc_dismantle();
        Ok(())
    })
}

#[allow(dead_code)]
impl Rt {
    /// Switch only where threads wait or end and at the points of the harness.
    pub fn coarse(&self) {
        self.coarse.set(true);
    }
    /// Call something that polls until the others have done something.
    pub fn polling<T>(&self, f: impl FnOnce() -> T) -> T {
        self.polling.set(true);
        let r = f();
        self.polling.set(false);
        r
    }
    /// Where threads belong that the scenario starts from now on.
    pub fn set_home(&self, home: usize) {
        self.home.set(home);
    }
    /// Where the current thread belongs.
    pub fn current_home(&self) -> usize {
        match self.current.get() {
            Some(t) => self.threads.borrow()[t].home,
            None => self.home.get(),
        }
    }
    pub fn exploring(&self) -> bool {
        self.exploring.get()
    }
    pub fn current_name(&self) -> String {
        self.current.get().map(|t| self.threads.borrow()[t].name.clone()).unwrap_or("-".into())
    }
    /// Run everything to rest, in order of creation.
    pub fn settle(&self) -> Outcome {
        self.exploring.set(false);
        self.run(None)
    }
    /// Run everything to rest, in every order within the bounds.
    pub fn explore(&self) -> Outcome {
        self.exploring.set(true);
        let r = self.run(None);
        self.exploring.set(false);
        r
    }
}

impl Threads {
    pub fn name(&self, id: Uuid, n: impl Into<String>) {
        self.rt.names.borrow_mut().push((id, n.into()));
    }
    /// Run everything to rest, in order of creation.
    pub fn settle(&self) -> Outcome {
        self.rt.settle()
    }
    /// Run everything to rest, in every order within the bounds.
    pub fn explore(&self) -> Outcome {
        self.rt.explore()
    }
    /// Threads that have neither ended nor can run.
    pub fn stuck(&self) -> Vec<String> {
        self.rt
            .threads
            .borrow()
            .iter()
            .filter(|t| matches!(t.status, Status::Waiting(_) | Status::Parked))
            .map(|t| t.name.clone())
            .collect()
    }
    /// As `stuck`, but waiting for a lock or a future, not parked.
    pub fn deadlocked(&self) -> Vec<String> {
        self.rt
            .threads
            .borrow()
            .iter()
            .filter(|t| matches!(t.status, Status::Waiting(_)))
            .map(|t| t.name.clone())
            .collect()
    }
}
