//! Several systems on one simulated network.
use crate::rt::{self, Rt, Threads};
use explore::{Ctx, Outcome, Violation};
use kompact::prelude::{Buf, BufMut, *};
use kompact_net::{NetworkConfig, NetworkDispatcher, NetworkStatus, NetworkStatusPort, NetworkStatusRequest, NetworkSystemExt};
use mio::sim;
use std::{
    cell::{Cell, RefCell},
    net::{IpAddr, SocketAddr},
    rc::Rc,
    sync::{Arc, Mutex},
    time::Duration,
};

// ---------------------------------------------------------------- messages

/// `len` bytes that depend on `seq`.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Pay {
    pub seq: u32,
    pub len: u32,
}
impl Pay {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.seq.to_be_bytes().to_vec();
        v.extend(self.len.to_be_bytes());
        v.extend((0..self.len).map(|i| byte(self.seq, i)));
        v
    }
}
fn byte(seq: u32, i: u32) -> u8 {
    (seq.wrapping_mul(31).wrapping_add(i.wrapping_mul(7)).wrapping_add(i >> 8) & 0xff) as u8
}
impl Serialisable for Pay {
    fn ser_id(&self) -> SerId {
        77
    }
    fn size_hint(&self) -> Option<usize> {
        Some(8 + self.len as usize)
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u32(self.seq);
        buf.put_u32(self.len);
        for i in 0..self.len {
            buf.put_u8(byte(self.seq, i));
        }
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn std::any::Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}
impl Deserialiser<Pay> for Pay {
    const SER_ID: SerId = 77;
    fn deserialise(buf: &mut dyn Buf) -> Result<Pay, SerError> {
        if buf.remaining() < 8 {
            return Err(SerError::invalid_data("short"));
        }
        let (seq, len) = (buf.get_u32(), buf.get_u32());
        if buf.remaining() != len as usize {
            return Err(SerError::invalid_data(format!("{} instead of {len} bytes", buf.remaining())));
        }
        for i in 0..len {
            if buf.get_u8() != byte(seq, i) {
                return Err(SerError::invalid_data(format!("byte {i} of {seq} is wrong")));
            }
        }
        Ok(Pay { seq, len })
    }
}

/// A handled message.
#[derive(Debug, Clone)]
pub struct Got {
    pub sink: usize,
    pub session: Option<u128>,
    pub sender: String,
    pub receiver: String,
    pub pay: Result<Pay, String>,
}

// ---------------------------------------------------------------- components

#[derive(ComponentDefinition)]
pub struct Sink {
    ctx: ComponentContext<Self>,
    id: usize,
    log: Arc<Mutex<Vec<Got>>>,
    kept: Kept,
}
/// Messages that were received but not read yet; whether to read them.
type Kept = Arc<Mutex<(bool, Vec<(usize, NetMessage)>)>>;
impl ComponentLifecycle for Sink {}
fn read(id: usize, msg: NetMessage) -> Got {
    let session = msg.session().map(|s| s.as_u128());
    let (sender, receiver) = (msg.sender.to_string(), msg.receiver.to_string());
    let pay = msg.try_deserialise::<Pay, Pay>().map_err(|e| format!("{e:?}"));
    Got { sink: id, session, sender, receiver, pay }
}
impl Actor for Sink {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        let mut kept = self.kept.lock().unwrap();
        if kept.0 {
            kept.1.push((self.id, msg));
        } else {
            self.log.lock().unwrap().push(read(self.id, msg));
        }
        Handled::OK
    }
}

/// Keeps what is sent to nobody.
#[derive(ComponentDefinition)]
pub struct Letters {
    ctx: ComponentContext<Self>,
    ready: Option<KPromise<()>>,
    log: Arc<Mutex<Vec<Got>>>,
}
impl ComponentLifecycle for Letters {
    fn on_start(&mut self) -> HandlerResult {
        if let Some(p) = self.ready.take() {
            p.complete().unwrap_or(())
        }
        Handled::OK
    }
}
impl Actor for Letters {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        self.log.lock().unwrap().push(read(usize::MAX, msg));
        Handled::OK
    }
}

/// What the status port reported.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum S {
    Up(SocketAddr, u128),
    Lost(SocketAddr, u128),
    Closed(SocketAddr, u128),
    Dropped(SocketAddr),
    Blocked(String),
    Allowed(String),
    Limit(&'static str),
    Failure,
}

#[derive(ComponentDefinition)]
pub struct Watch {
    ctx: ComponentContext<Self>,
    port: RequiredPort<NetworkStatusPort>,
    log: Arc<Mutex<Vec<S>>>,
}
impl ComponentLifecycle for Watch {}
impl Actor for Watch {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
impl Require<NetworkStatusPort> for Watch {
    fn handle(&mut self, e: NetworkStatus) -> HandlerResult {
        use NetworkStatus::*;
        let s = match e {
            ConnectionEstablished(p, id) => S::Up(p.socket_address(), id.as_u128()),
            ConnectionLost(p, id) => S::Lost(p.socket_address(), id.as_u128()),
            ConnectionClosed(p, id) => S::Closed(p.socket_address(), id.as_u128()),
            ConnectionDropped(p) => S::Dropped(p.socket_address()),
            BlockedSystem(p) => S::Blocked(p.socket_address().to_string()),
            BlockedIp(a) => S::Blocked(a.to_string()),
            BlockedIpNet(n) => S::Blocked(n.to_string()),
            AllowedSystem(p) => S::Allowed(p.socket_address().to_string()),
            AllowedIp(a) => S::Allowed(a.to_string()),
            AllowedIpNet(n) => S::Allowed(n.to_string()),
            SoftConnectionLimitExceeded => S::Limit("soft"),
            HardConnectionLimitReached => S::Limit("hard"),
            CriticalNetworkFailure => S::Failure,
        };
        self.log.lock().unwrap().push(s);
        Handled::OK
    }
}

// ---------------------------------------------------------------- environment

/// What may break at any operation on the network.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// a connection breaks, what is under way still arrives
    Break,
    /// a connection breaks and what is under way is lost
    BreakLosing,
}

pub struct SimEnv {
    ctx: Ctx,
    rt: Rc<Rt>,
    pub faults: RefCell<Vec<Fault>>,
    /// how many faults may still happen
    pub left: Cell<usize>,
    pub happened: Cell<usize>,
    pub now: Cell<u64>,
    /// others may run at every operation, not only where threads wait for events
    pub fine: Cell<bool>,
    homes: RefCell<Vec<IpAddr>>,
}
impl sim::Env for SimEnv {
    fn choose(&self, what: &'static str, n: usize) -> usize {
        if !self.rt.exploring() {
            return 0;
        }
        let c = self.ctx.sched(n);
        if c > 0 {
            self.ctx.log(|| format!("      {what}: way {c} of {n}"));
        }
        c
    }
    fn point(&self, what: &'static str) {
        rt::point(what)
    }
    fn wait(&self, ready: &dyn Fn() -> bool) {
        rt::wait_until(ready)
    }
    fn now(&self) -> u64 {
        self.now.get()
    }
    fn op(&self, what: &'static str, _n: usize) {
        if !self.rt.exploring() || rt::try_thread_id().is_none() {
            return;
        }
        if self.fine.get() {
            rt::point(what);
        }
        if self.left.get() > 0 {
            let cs = sim::with(|s| s.connections());
            let fs = self.faults.borrow().clone();
            if cs.is_empty() || fs.is_empty() {
                return;
            }
            let c = self.ctx.sched(1 + cs.len() * fs.len());
            if c > 0 {
                let (a, b) = cs[(c - 1) / fs.len()];
                let f = fs[(c - 1) % fs.len()];
                self.left.set(self.left.get() - 1);
                self.happened.set(self.happened.get() + 1);
                self.ctx.log(|| format!("      connection #{a}-#{b} breaks: {f:?}, before {what}"));
                sim::with(|s| s.break_connection(a, b, |n| if f == Fault::Break { n } else { 0 }));
            }
        }
    }
    fn home(&self) -> IpAddr {
        self.homes.borrow()[self.rt.current_home()]
    }
    fn log(&self, what: &dyn Fn() -> String) {
        self.ctx.log(|| format!("      ({}) {}", self.rt.current_name(), what()));
    }
}

// ---------------------------------------------------------------- hosts

pub struct Host {
    t: Option<Threads>,
    pub addr: SocketAddr,
    pub src: Arc<Component<Sink>>,
    pub watch: Arc<Component<Watch>>,
    pub statuses: Arc<Mutex<Vec<S>>>,
    pub log: Arc<Mutex<Vec<Got>>>,
    /// what was sent to nobody
    pub letters: Arc<Mutex<Vec<Got>>>,
    pub sinks: Vec<ActorPath>,
    kept: Kept,
}
impl Host {
    /// Another sink, not registered.
    pub fn sink(&self, id: usize) -> Arc<Component<Sink>> {
        let (log, kept) = (self.log.clone(), self.kept.clone());
        let c = self.sys().create(move || Sink { ctx: ComponentContext::uninitialised(), id, log, kept });
        self.sys().start(&c);
        c
    }
    /// The messages that were kept.
    pub fn take_kept(&self) -> Vec<(usize, NetMessage)> {
        std::mem::take(&mut self.kept.lock().unwrap().1)
    }
    /// Keep what is received, without reading it.
    pub fn keep(&self) {
        self.kept.lock().unwrap().0 = true;
    }
    pub fn kept(&self) -> usize {
        self.kept.lock().unwrap().1.len()
    }
    /// Read what was kept, and whatever is received from now on.
    pub fn release(&self) {
        let mut k = self.kept.lock().unwrap();
        k.0 = false;
        for (id, m) in std::mem::take(&mut k.1) {
            self.log.lock().unwrap().push(read(id, m));
        }
    }
    pub fn sys(&self) -> &KompactSystem {
        &self.t.as_ref().unwrap().sys
    }
    pub fn ask(&self, r: NetworkStatusRequest) {
        self.watch.on_definition(|w| w.port.trigger(r));
    }
    pub fn got(&self) -> Vec<Got> {
        self.log.lock().unwrap().clone()
    }
    pub fn status(&self) -> Vec<S> {
        self.statuses.lock().unwrap().clone()
    }
    /// Sessions reported as established but not as ended.
    pub fn live(&self) -> Vec<(SocketAddr, u128)> {
        let mut l = vec![];
        for s in self.status() {
            match s {
                S::Up(a, id) => l.push((a, id)),
                S::Lost(a, id) | S::Closed(a, id) => l.retain(|x| *x != (a, id)),
                _ => (),
            }
        }
        l
    }
    pub fn path(&self) -> SystemPath {
        SystemPath::with_socket(Transport::Tcp, self.addr)
    }
}

/// How a message is handed over.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum How {
    Lazy,
    Eager,
    Pre,
}
pub const HOWS: [How; 3] = [How::Lazy, How::Eager, How::Pre];

pub struct Net {
    pub ctx: Ctx,
    pub rt: Rc<Rt>,
    pub env: Rc<SimEnv>,
    pub hosts: Vec<Host>,
}

pub struct Opts {
    pub sim: sim::Options,
    pub chunk: usize,
    pub chunks: usize,
    pub retries: u8,
    pub soft: u32,
    pub hard: u32,
    pub sinks: usize,
    pub addrs: Vec<&'static str>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            sim: sim::Options::default(),
            chunk: 512,
            chunks: 64,
            retries: 2,
            soft: 100,
            hard: 110,
            sinks: 1,
            addrs: vec!["10.0.0.1:1000", "10.0.0.2:2000"],
        }
    }
}
/// The interval between attempts to connect.
pub const RETRY: u64 = 1000;

struct Uninstall;
impl Drop for Uninstall {
    fn drop(&mut self) {
        sim::install(None, sim::Options::default());
    }
}

/// Run `f` on fresh, connected-to-nobody systems.
pub fn with_net(ctx: &Ctx, o: &Opts, f: impl FnOnce(&mut Net) -> Outcome) -> Outcome {
    rt::with_rt(ctx, |rt| {
        rt.coarse();
        let env = Rc::new(SimEnv {
            ctx: ctx.clone(),
            rt: rt.clone(),
            faults: RefCell::new(vec![]),
            left: Cell::new(0),
            happened: Cell::new(0),
            now: Cell::new(0),
            fine: Cell::new(false),
            homes: RefCell::new(vec![]),
        });
        let _u = Uninstall;
        sim::install(Some(env.clone()), o.sim);
        let mut net = Net { ctx: ctx.clone(), rt: rt.clone(), env, hosts: vec![] };
        let mut r = Ok(());
        for a in &o.addrs {
            r = net.add(a.parse().unwrap(), o);
            if r.is_err() {
                break;
            }
        }
        let r = r.and_then(|_| f(&mut net)).and_then(|_| net.stop_all());
        if r.is_err() {
            std::mem::forget(net);
        }
        r
    })
}

impl Net {
    /// A system comes up at `addr`.
    pub fn add(&mut self, addr: SocketAddr, o: &Opts) -> Outcome {
        let h = self.host(addr, o)?;
        self.hosts.push(h);
        Ok(())
    }
    pub fn host(&mut self, addr: SocketAddr, o: &Opts) -> Result<Host, Violation> {
        self.rt.set_home(self.env.homes.borrow().len());
        self.env.homes.borrow_mut().push(addr.ip());
        let mut bc = kompact::net::buffers::BufferConfig::default();
        bc.chunk_size(o.chunk);
        bc.initial_chunk_count(2);
        bc.max_chunk_count(o.chunks);
        let mut cfg = NetworkConfig::with_buffer_config(addr, bc.clone());
        cfg.set_connection_retry_interval(RETRY);
        cfg.set_max_connection_retry_attempts(o.retries);
        cfg.set_soft_connection_limit(o.soft);
        cfg.set_hard_connection_limit(o.hard);
        let letters: Arc<Mutex<Vec<Got>>> = Default::default();
        let l = letters.clone();
        let t = rt::build(&self.rt, |conf| {
            let l = l.clone();
            conf.system_components(
                move |p| Letters { ctx: ComponentContext::uninitialised(), ready: Some(p), log: l.clone() },
                cfg.build(),
            );
        })?;
        let log: Arc<Mutex<Vec<Got>>> = Default::default();
        let statuses: Arc<Mutex<Vec<S>>> = Default::default();
        let mut sinks = vec![];
        let kept = Kept::default();
        for id in 0..o.sinks {
            let l = log.clone();
            let kept = kept.clone();
            let (c, f) = t.sys.create_and_register(move || Sink {
                ctx: ComponentContext::uninitialised(),
                id,
                log: l,
                kept,
            });
            self.rt.settle()?;
            f.wait().expect("registered");
            let f = t.sys.register_by_alias(&c, format!("sink{id}"));
            self.rt.settle()?;
            sinks.push(f.wait().expect("registered"));
            t.sys.start(&c);
        }
        let l = log.clone();
        let src = t.sys.create(move || Sink { ctx: ComponentContext::uninitialised(), id: 99, log: l, kept: Kept::default() });
        src.on_definition(|s| s.ctx.init_buffers(Some(bc), None));
        let l = statuses.clone();
        let watch = t.sys.create(move || Watch {
            ctx: ComponentContext::uninitialised(),
            port: RequiredPort::uninitialised(),
            log: l,
        });
        watch.on_definition(|w| t.sys.connect_network_status_port(&mut w.port));
        t.sys.start(&src);
        t.sys.start(&watch);
        self.rt.settle()?;
        Ok(Host { t: Some(t), addr, src, watch, statuses, log, letters, sinks, kept })
    }
    /// Send from host `a` to a path.
    pub fn send(&self, a: usize, to: &ActorPath, pay: Pay, how: How) {
        let from = self.source(a, to);
        self.send_as(a, from, to, pay, how)
    }
    /// The sender's path.
    pub fn source(&self, a: usize, to: &ActorPath) -> ActorPath {
        let mut from: ActorPath = self.hosts[a].path().into_named_with_string("source").unwrap().into();
        from.set_protocol(to.protocol());
        from
    }
    pub fn send_as(&self, a: usize, from: ActorPath, to: &ActorPath, pay: Pay, how: How) {
        let h = &self.hosts[a];
        self.ctx.log(|| format!("host {a} sends {pay:?} to {to} ({how:?})"));
        match how {
            How::Lazy => to.tell_with_sender(pay, h.sys(), from),
            How::Eager => h.src.on_definition(|s| {
                to.tell_serialised_with_sender(pay, s, from).expect("serialised");
            }),
            How::Pre => h.src.on_definition(|s| {
                let c = s.ctx.preserialise(&pay).expect("serialised");
                to.tell_preserialised_with_sender(c, s, from).expect("serialised");
            }),
        }
    }
    /// Time passes.
    pub fn advance(&self, ms: u64) {
        self.ctx.log(|| format!("advance {ms} ms"));
        self.env.now.set(self.env.now.get() + ms);
        for h in &self.hosts {
            if let Some(t) = &h.t {
                t.timer.advance_by(Duration::from_millis(ms));
            }
        }
    }
    /// Enough time for every retry, with nothing else going wrong.
    pub fn wait_out(&self, intervals: usize) -> Outcome {
        self.env.left.set(0);
        for _ in 0..intervals {
            self.advance(RETRY);
            self.rt.settle()?;
        }
        Ok(())
    }
    /// Shut a host down.
    pub fn shutdown(&mut self, i: usize) {
        let t = self.hosts[i].t.take().expect("host is up");
        self.ctx.log(|| format!("host {i} shuts down"));
        let sys = t.sys.clone();
        kompact::mc::block_on(t.sys.clone().shutdown()).expect("shutdown");
        sys.mc_dismantle();
    }
    /// Kill a host.
    pub fn kill(&mut self, i: usize) {
        let t = self.hosts[i].t.take().expect("host is up");
        self.ctx.log(|| format!("host {i} is killed"));
        self.rt.polling(|| t.sys.clone().kill_system()).expect("kill");
        t.sys.mc_dismantle();
    }
    /// A host that is down comes up again, with the same address and the same logs.
    pub fn restart(&mut self, i: usize, o: &Opts) -> Outcome {
        let addr = self.hosts[i].addr;
        self.ctx.log(|| format!("host {i} starts again"));
        let new = self.host(addr, o)?;
        let old = std::mem::replace(&mut self.hosts[i], new);
        // what was logged before comes first
        for (a, b) in [(&old.log, &self.hosts[i].log)] {
            let mut l = a.lock().unwrap().clone();
            l.append(&mut b.lock().unwrap());
            *b.lock().unwrap() = l;
        }
        Ok(())
    }
    fn stop_all(&mut self) -> Outcome {
        self.rt.settle()?;
        for i in 0..self.hosts.len() {
            if self.hosts[i].t.is_some() {
                self.shutdown(i);
                self.rt.settle()?;
            }
        }
        Ok(())
    }
    pub fn show(&self) {
        self.ctx.log(|| {
            self.hosts
                .iter()
                .map(|h| format!("{}: {:?} {:?}", h.addr, h.got(), h.status()))
                .collect::<Vec<_>>()
                .join("\n")
        });
    }
}
#[allow(unused)]
type _D = NetworkDispatcher;
