//! The instrumented component used by most scenarios.
use explore::{Ctx, Violation};
use kompact::prelude::*;
use std::sync::{
    Arc, Mutex,
    atomic::{AtomicBool, AtomicU64, Ordering},
};

/// A message: who sent it, over which route, and its number there.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct M {
    pub from: u8,
    pub route: u8,
    pub seq: u8,
}
pub fn m(from: u8, route: u8, seq: u8) -> M {
    M { from, route, seq }
}
impl Serialisable for M {
    fn ser_id(&self) -> SerId {
        4242 as SerId
    }
    fn size_hint(&self) -> Option<usize> {
        Some(3)
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u8(self.from);
        buf.put_u8(self.route);
        buf.put_u8(self.seq);
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
    fn cloned(&self) -> Option<Box<dyn Serialisable>> {
        Some(Box::new(*self))
    }
}
impl Deserialiser<M> for M {
    const SER_ID: SerId = 4242 as SerId;
    fn deserialise(buf: &mut dyn Buf) -> Result<M, SerError> {
        if buf.remaining() < 3 {
            return Err(SerError::invalid_data("short"));
        }
        Ok(M {
            from: buf.get_u8(),
            route: buf.get_u8(),
            seq: buf.get_u8(),
        })
    }
}

pub struct P1;
impl Port for P1 {
    type Indication = M;
    type Request = M;
}
pub struct P2;
impl Port for P2 {
    type Indication = M;
    type Request = M;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum E {
    Start,
    Stop,
    Kill,
    Msg(M),
    /// request on provided port n
    Req(u8, M),
    /// indication on required port n
    Ind(u8, M),
    Timer(u8),
    /// progress of future f at point p
    Fut(u8, u8),
    Note(u8, u8),
}

pub type Entry = (u8, E);

/// Shared record of everything handlers observed.
#[derive(Clone)]
pub struct Log {
    pub ctx: Ctx,
    v: Arc<Mutex<Vec<Entry>>>,
    n: Arc<AtomicU64>,
    /// threads on which the components' handlers ran
    threads: Arc<Mutex<std::collections::BTreeSet<(u8, Option<usize>)>>>,
}
impl Log {
    pub fn new(ctx: &Ctx) -> Log {
        Log {
            ctx: ctx.clone(),
            v: Default::default(),
            n: Default::default(),
            threads: Default::default(),
        }
    }
    pub fn threads_of(&self, who: u8) -> std::collections::BTreeSet<Option<usize>> {
        self.threads.lock().unwrap().iter().filter(|t| t.0 == who).map(|t| t.1).collect()
    }
    pub fn push(&self, who: u8, e: E) {
        self.n.fetch_add(1, Ordering::SeqCst);
        self.ctx.log(|| format!("    {}: {e:?}", who_name(who)));
        let mut g = self.v.lock().unwrap();
        g.push((who, e));
        // notes are the harness's own
        if !matches!(e, E::Note(9, _)) {
            self.threads.lock().unwrap().insert((who, crate::rt::try_thread_id()));
        }
        // the abstract state: the history of this component so far
        let h: Vec<&E> = g.iter().filter(|x| x.0 == who).map(|x| &x.1).collect();
        let h = explore::hash_of(&(who, &h));
        drop(g);
        self.ctx.state(&h);
    }
    pub fn all(&self) -> Vec<Entry> {
        self.v.lock().unwrap().clone()
    }
    pub fn of(&self, who: u8) -> Vec<E> {
        self.v
            .lock()
            .unwrap()
            .iter()
            .filter(|x| x.0 == who)
            .map(|x| x.1)
            .collect()
    }
    pub fn count(&self) -> u64 {
        self.n.load(Ordering::SeqCst)
    }
    pub fn finish(&self) {
        let v = self.all();
        self.ctx.outcome(&v);
    }
}

pub fn who_name(w: u8) -> String {
    ((b'A' + w) as char).to_string()
}

pub type Behave = dyn Fn(&mut Probe, E) -> HandlerResult + Send + Sync;

#[derive(ComponentDefinition)]
pub struct Probe {
    pub ctx: ComponentContext<Self>,
    pub p1: ProvidedPort<P1>,
    pub r1: RequiredPort<P1>,
    pub p2: ProvidedPort<P2>,
    pub r2: RequiredPort<P2>,
    pub who: u8,
    pub log: Log,
    pub behave: Arc<Behave>,
    busy: Arc<AtomicBool>,
    pub scratch: Vec<u64>,
    pub timers: Vec<ScheduledTimer>,
}

pub struct Busy(Arc<AtomicBool>);
impl Drop for Busy {
    fn drop(&mut self) {
        self.0.store(false, Ordering::SeqCst);
    }
}

impl Probe {
    pub fn new(who: u8, log: &Log, behave: Arc<Behave>) -> Probe {
        Probe {
            ctx: ComponentContext::uninitialised(),
            p1: ProvidedPort::uninitialised(),
            r1: RequiredPort::uninitialised(),
            p2: ProvidedPort::uninitialised(),
            r2: RequiredPort::uninitialised(),
            who,
            log: log.clone(),
            behave,
            busy: Default::default(),
            scratch: vec![],
            timers: vec![],
        }
    }
    pub fn enter(&self) -> Busy {
        if self.busy.swap(true, Ordering::SeqCst) {
            self.log.ctx.violate(Violation::new(
                "overlap",
                format!("two handlers of {} run at the same time", who_name(self.who)),
            ));
        }
        Busy(self.busy.clone())
    }
    pub fn on(&mut self, e: E) -> HandlerResult {
        let _b = self.enter();
        self.log.push(self.who, e);
        let b = self.behave.clone();
        b(self, e)
    }
}
impl ComponentLifecycle for Probe {
    fn on_start(&mut self) -> HandlerResult {
        self.on(E::Start)
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.on(E::Stop)
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.on(E::Kill)
    }
}
impl NetworkActor for Probe {
    type Message = M;
    type Deserialiser = M;
    fn receive(&mut self, _sender: Option<ActorPath>, msg: M) -> HandlerResult {
        self.on(E::Msg(msg))
    }
}
impl Provide<P1> for Probe {
    fn handle(&mut self, e: M) -> HandlerResult {
        self.on(E::Req(1, e))
    }
}
impl Provide<P2> for Probe {
    fn handle(&mut self, e: M) -> HandlerResult {
        self.on(E::Req(2, e))
    }
}
impl Require<P1> for Probe {
    fn handle(&mut self, e: M) -> HandlerResult {
        self.on(E::Ind(1, e))
    }
}
impl Require<P2> for Probe {
    fn handle(&mut self, e: M) -> HandlerResult {
        self.on(E::Ind(2, e))
    }
}
pub fn quiet() -> Arc<Behave> {
    Arc::new(|_, _| Handled::OK)
}
