//! A Kompact system whose scheduler is the explorer.
use explore::{Ctx, Outcome, Violation};
use futures::task::noop_waker_ref;
use kompact::{
    executors::{CanExecute, Executor, FuturesExecutor, JoinHandle},
    prelude::*,
    runtime::{ExecutorScheduler, Scheduler, SchedulerShutdownError},
    timer::ManualTimer,
};
use std::{
    cell::{Cell, RefCell},
    collections::VecDeque,
    future::Future,
    pin::Pin,
    sync::{Arc, LazyLock, Mutex},
    task::{Context, Poll},
    time::Duration,
};
use uuid::Uuid;

type BoxJob = Box<dyn FnOnce() + Send + 'static>;

pub struct Job {
    pub comp: Option<Uuid>,
    pub tname: &'static str,
    f: BoxJob,
}

#[derive(Default)]
pub struct Jobs {
    q: Mutex<VecDeque<Job>>,
    pub stopped: Mutex<bool>,
    pub poisoned: Mutex<bool>,
}

impl Jobs {
    /// Take the oldest job.
    pub fn pop(&self) -> Option<BoxJob> {
        self.q.lock().unwrap().pop_front().map(|j| j.f)
    }
}

thread_local! {
    static LABEL: Cell<Option<(Uuid, &'static str)>> = const { Cell::new(None) };
}

/// The executor under kompact's own `ExecutorScheduler`: it only collects jobs.
#[derive(Clone)]
pub struct McExecutor(Arc<Jobs>);
impl CanExecute for McExecutor {
    fn execute_job(&self, job: BoxJob) {
        let l = LABEL.with(|l| l.take());
        self.add(l, job);
    }
}
type Label = Option<(Uuid, &'static str)>;
impl McExecutor {
    fn add(&self, l: Label, job: BoxJob) {
        let me = self.clone();
        self.0.q.lock().unwrap().push_back(Job {
            comp: l.map(|l| l.0),
            tname: l.map(|l| l.1).unwrap_or("future"),
            f: Box::new(move || {
                let _w = Worker(WORKER.with(|w| w.replace(Some((l, me)))));
                job();
            }),
        });
    }
}

thread_local! {
    static WORKER: RefCell<Option<(Label, McExecutor)>> = const { RefCell::new(None) };
}
/// What ran before, if anything.
struct Worker(Option<(Label, McExecutor)>);
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = WORKER.with(|w| w.replace(self.0.take()));
    }
}
/// The local executor while a job runs; otherwise that of the explored threads.
pub struct Locally;
impl executors::Local for Locally {
    fn is_worker(&self) -> bool {
        WORKER.with(|w| w.borrow().is_some()) || crate::rt::Locally.is_worker()
    }
    fn execute(&self, job: BoxJob) {
        match WORKER.with(|w| w.borrow().clone()) {
            Some((l, e)) => e.add(l, job),
            None => crate::rt::Locally.execute(job),
        }
    }
}
impl Executor for McExecutor {
    fn shutdown_async(&self) {
        *self.0.stopped.lock().unwrap() = true;
    }
    fn shutdown_borrowed(&self) -> Result<(), String> {
        *self.0.stopped.lock().unwrap() = true;
        Ok(())
    }
}
impl FuturesExecutor for McExecutor {
    fn spawn<R: Send + 'static>(
        &self,
        future: impl Future<Output = R> + 'static + Send,
    ) -> JoinHandle<R> {
        let me = self.clone();
        let (runnable, handle) = async_task::spawn(future, move |r: async_task::Runnable| {
            me.execute(move || {
                r.run();
            })
        });
        runnable.schedule();
        handle
    }
}

/// Labels jobs with the component they belong to, otherwise kompact's own.
#[derive(Clone)]
struct McScheduler {
    inner: ExecutorScheduler<McExecutor>,
    jobs: Arc<Jobs>,
}
impl Scheduler for McScheduler {
    fn schedule(&self, c: Arc<dyn CoreContainer>) {
        LABEL.with(|l| l.set(Some((c.id(), c.type_name()))));
        self.inner.schedule(c);
        LABEL.with(|l| l.set(None));
    }
    fn shutdown_async(&self) {
        self.inner.shutdown_async()
    }
    fn shutdown(&self) -> Result<(), SchedulerShutdownError> {
        self.inner.shutdown()
    }
    fn shutdown_notify(
        &self,
    ) -> futures::future::BoxFuture<'static, Result<(), SchedulerShutdownError>> {
        let r = self.inner.shutdown();
        Box::pin(async move { r })
    }
    fn box_clone(&self) -> Box<dyn Scheduler> {
        Box::new(self.clone())
    }
    fn poison(&self) {
        *self.jobs.poisoned.lock().unwrap() = true;
        self.inner.poison()
    }
    fn spawn(&self, future: futures::future::BoxFuture<'static, ()>) {
        self.inner.spawn(future)
    }
}

static LOGGER: LazyLock<kompact::KompactLogger> = LazyLock::new(|| {
    use slog::Drain;
    let drain = slog_async::Async::new(slog::Discard).build().fuse();
    slog::Logger::root_typed(Arc::new(drain), slog::o!())
});

pub fn logger() -> kompact::KompactLogger {
    LOGGER.clone()
}

pub fn poll_once<F: Future + Unpin>(f: &mut F) -> Poll<F::Output> {
    let mut cx = Context::from_waker(noop_waker_ref());
    Pin::new(f).poll(&mut cx)
}

/// Upper bound on jobs executed by one drain; beyond it the system livelocks.
pub const JOB_LIMIT: usize = 2000;

pub struct World {
    pub ctx: Ctx,
    pub sys: KompactSystem,
    pub timer: ManualTimer,
    pub jobs: Arc<Jobs>,
    names: RefCell<Vec<(Uuid, String)>>,
    pub jobs_run: Cell<usize>,
    /// components allowed to spin (queued work while stopped)
    pub monitor: RefCell<Option<Box<dyn Fn(&World) -> Outcome>>>,
}

impl World {
    pub fn new(ctx: &Ctx) -> World {
        Self::with(ctx, |_| {})
    }
    pub fn with(ctx: &Ctx, f: impl FnOnce(&mut KompactConfig)) -> World {
        let mut conf = KompactConfig::default();
        let jobs: Arc<Jobs> = Default::default();
        let j2 = jobs.clone();
        conf.logger(LOGGER.clone());
        conf.set_config_value(&kompact::config_keys::system::LABEL, "mc".to_string());
        conf.set_config_value(&kompact::config_keys::system::THREADS, 1usize);
        conf.scheduler(move |_| {
            Box::new(McScheduler {
                inner: ExecutorScheduler::with(McExecutor(j2.clone())),
                jobs: j2.clone(),
            })
        });
        let timer = kompact::default_components::install_manual_timer(&mut conf);
        f(&mut conf);
        let mut build = conf.build();
        let mut n = 0;
        let sys = loop {
            match poll_once(&mut build) {
                Poll::Ready(r) => break r.expect("system"),
                Poll::Pending => {
                    n += 1;
                    assert!(n < 1000, "system does not come up");
                    loop {
                        let j = jobs.q.lock().unwrap().pop_front();
                        match j {
                            Some(j) => (j.f)(),
                            None => break,
                        }
                    }
                }
            }
        };
        // finish all start-up work
        loop {
            let j = jobs.q.lock().unwrap().pop_front();
            match j {
                Some(j) => (j.f)(),
                None => break,
            }
        }
        World {
            ctx: ctx.clone(),
            sys,
            timer,
            jobs,
            names: RefCell::new(vec![]),
            jobs_run: Cell::new(0),
            monitor: RefCell::new(None),
        }
    }

    pub fn name(&self, id: Uuid, n: impl Into<String>) {
        self.names.borrow_mut().push((id, n.into()));
    }
    pub fn name_of(&self, j: &Job) -> String {
        if let Some(id) = j.comp
            && let Some(n) = self.names.borrow().iter().find(|n| n.0 == id)
        {
            return n.1.clone();
        }
        j.tname.to_string()
    }
    pub fn pending(&self) -> usize {
        self.jobs.q.lock().unwrap().len()
    }
    pub fn pending_names(&self) -> Vec<String> {
        let q = self.jobs.q.lock().unwrap();
        q.iter().map(|j| self.name_of(j)).collect()
    }
    /// Run pending job `i`.
    pub fn run_job(&self, i: usize) -> Outcome {
        let j = self.jobs.q.lock().unwrap().remove(i).expect("job");
        self.ctx.log(|| format!("run {}", self.name_of(&j)));
        self.jobs_run.set(self.jobs_run.get() + 1);
        (j.f)();
        if let Some(m) = self.monitor.borrow().as_ref() {
            m(self)?;
        }
        Ok(())
    }
    /// Indices of pending jobs, one per component (oldest job of each).
    pub fn enabled(&self) -> Vec<usize> {
        let q = self.jobs.q.lock().unwrap();
        let mut seen: Vec<Option<Uuid>> = vec![];
        let mut out = vec![];
        for (i, j) in q.iter().enumerate() {
            if j.comp.is_none() || !seen.contains(&j.comp) {
                seen.push(j.comp);
                out.push(i);
            }
        }
        out
    }
    /// Oldest pending job of a component.
    pub fn enabled_of(&self, id: &Uuid) -> Option<usize> {
        self.jobs.q.lock().unwrap().iter().position(|j| j.comp.as_ref() == Some(id))
    }
    /// Run one job chosen by the explorer (costs deviations); false if none.
    pub fn step(&self) -> Result<bool, Violation> {
        let en = self.enabled();
        if en.is_empty() {
            return Ok(false);
        }
        let c = self.ctx.sched(en.len());
        self.run_job(en[c])?;
        self.ctx.step();
        Ok(true)
    }
    /// Run jobs in explorer order until none is pending.  `spinning` tells
    /// how many consecutive jobs without effect count as quiescence.
    pub fn drain(&self) -> Outcome {
        self.drain_spin(&|| 0)
    }
    /// Like `drain`, but quiescence is also reached when `progress()` has not
    /// changed for a while although jobs keep being rescheduled (a stopped
    /// component with retained events is rescheduled forever).
    pub fn drain_spin(&self, progress: &dyn Fn() -> u64) -> Outcome {
        let mut last = progress();
        let mut same = 0usize;
        let mut n = 0;
        while self.step()? {
            n += 1;
            let p = progress();
            if p == last && p != 0 {
                same += 1;
                if same > 12 && same > 4 * self.pending() {
                    return Ok(());
                }
            } else {
                last = p;
                same = 0;
            }
            if n > JOB_LIMIT {
                return Err(Violation::new(
                    "livelock",
                    format!("still scheduling after {n} jobs: {:?}", self.pending_names()),
                ));
            }
        }
        Ok(())
    }
    /// Run everything first-in first-out (no choices).
    pub fn settle(&self) -> Outcome {
        let mut n = 0;
        while self.pending() > 0 {
            self.run_job(0)?;
            n += 1;
            if n > JOB_LIMIT {
                return Err(Violation::new(
                    "livelock",
                    format!("still scheduling after {n} jobs: {:?}", self.pending_names()),
                ));
            }
        }
        Ok(())
    }
    /// As `settle`, tolerating components that are rescheduled without progress.
    pub fn settle_bounded(&self, jobs: usize) -> Outcome {
        let mut n = 0;
        while self.pending() > 0 && n < jobs {
            self.run_job(0)?;
            n += 1;
        }
        Ok(())
    }
    pub fn advance(&self, ms: u64) {
        self.ctx.log(|| format!("advance {ms} ms"));
        self.timer.advance_by(Duration::from_millis(ms));
    }
}

impl Drop for World {
    fn drop(&mut self) {
        *self.monitor.borrow_mut() = None;
        self.jobs.q.lock().unwrap().clear();
        self.sys.mc_dismantle();
    }
}
