//! The simulated network.
use crate::{
    Interest, Token,
    event::{Event, Ready},
    poll::readable,
};
use std::{
    cell::{Cell, RefCell},
    collections::VecDeque,
    io::{self, ErrorKind},
    net::{IpAddr, Shutdown, SocketAddr},
    rc::Rc,
};

/// Decides what the environment does.
pub trait Env {
    /// Pick one of `n` behaviours; 0 is the usual one.
    fn choose(&self, what: &'static str, n: usize) -> usize;
    /// Other threads may run here.
    fn point(&self, what: &'static str);
    /// Block the current thread.
    fn wait(&self, ready: &dyn Fn() -> bool);
    /// Milliseconds.
    fn now(&self) -> u64;
    /// Number `n` of the operations on the network is about to be performed.
    fn op(&self, what: &'static str, n: usize);
    fn log(&self, what: &dyn Fn() -> String);
    /// The address of the host the current thread belongs to.
    fn home(&self) -> IpAddr;
}

/// Which unusual behaviours are possible.
#[derive(Clone, Copy, Default)]
pub struct Options {
    pub short_reads: bool,
    pub short_writes: bool,
    pub interrupts: bool,
    /// connections to closed ports may fail at once
    pub sync_refusal: bool,
    /// datagrams may be lost, repeated, overtaken or cut
    pub lossy: bool,
}

thread_local! {
    static SIM: RefCell<Sim> = RefCell::new(Sim::default());
    static ENV: RefCell<Option<Rc<dyn Env>>> = const { RefCell::new(None) };
    static OPS: Cell<usize> = const { Cell::new(0) };
}

/// Start over with an empty network.
pub fn install(env: Option<Rc<dyn Env>>, options: Options) {
    OPS.with(|o| o.set(0));
    SIM.with(|s| {
        *s.borrow_mut() = Sim {
            next_port: 50_000,
            options,
            ..Sim::default()
        }
    });
    ENV.with(|e| *e.borrow_mut() = env);
}
pub(crate) fn env() -> Rc<dyn Env> {
    ENV.with(|e| e.borrow().clone().expect("no environment is installed"))
}
pub fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    SIM.with(|s| f(&mut s.borrow_mut()))
}
/// Sockets may outlive the thread's simulation.
pub(crate) fn try_with(f: impl FnOnce(&mut Sim)) {
    let _ = SIM.try_with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            f(&mut s)
        }
    });
}
pub(crate) fn op(what: &'static str) {
    let n = OPS.with(|o| {
        o.set(o.get() + 1);
        o.get()
    });
    env().op(what, n);
}
/// How many operations were performed.
pub fn ops() -> usize {
    OPS.with(|o| o.get())
}
fn log(what: impl Fn() -> String) {
    env().log(&what)
}
pub(crate) fn err(k: ErrorKind) -> io::Error {
    k.into()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Listener,
    Stream,
    Udp,
}
#[derive(Clone, Copy)]
struct Reg {
    poll: usize,
    token: Token,
    interest: Interest,
}
pub struct Fd {
    pub kind: Kind,
    pub local: SocketAddr,
    pub remote: SocketAddr,
    pub open: bool,
    pub connected: bool,
    /// the other end
    pub peer: Option<usize>,
    /// handed to the application
    pub accepted: bool,
    pub rx: VecDeque<u8>,
    /// everything that was written
    pub written: Vec<u8>,
    pub eof: bool,
    pub reset: bool,
    pub so_error: Option<ErrorKind>,
    /// no space to write to at the moment
    full: bool,
    /// how much space there will be until `flow`
    window: Option<usize>,
    shut_read: bool,
    shut_write: bool,
    backlog: VecDeque<usize>,
    pub datagrams: VecDeque<(SocketAddr, Vec<u8>)>,
    reg: Option<Reg>,
    pub nodelay: bool,
}
#[derive(Default)]
struct PollState {
    open: bool,
    ready: VecDeque<usize>,
    wakes: Vec<Token>,
}
#[derive(Default)]
pub struct Sim {
    pub fds: Vec<Fd>,
    polls: Vec<PollState>,
    next_port: u16,
    pub options: Options,
    /// nobody gets a connection to these
    pub refused: Vec<SocketAddr>,
    /// connections that are refused are refused at once
    pub at_once: bool,
    /// connections to these are never answered
    pub silent: Vec<SocketAddr>,
    /// sockets that are closed are not noticed by the other end
    pub unnoticed: bool,
    /// who has tried to connect to whom
    pub attempts: Vec<(IpAddr, SocketAddr)>,
    /// datagrams that are overtaken
    held: Vec<(usize, SocketAddr, Vec<u8>)>,
    /// datagrams that were received: from, to, content
    pub arrived: Vec<(SocketAddr, SocketAddr, Vec<u8>)>,
    /// how many datagrams got lost / were repeated
    pub lost: usize,
    pub twice: usize,
}
/// A source of events.
#[derive(Clone, Copy)]
pub enum From_ {
    Fd(usize),
    Wake(Token),
}

impl Sim {
    pub(crate) fn new_poll(&mut self) -> usize {
        self.polls.push(PollState { open: true, ..Default::default() });
        self.polls.len() - 1
    }
    pub(crate) fn drop_poll(&mut self, id: usize) {
        if let Some(p) = self.polls.get_mut(id) {
            *p = PollState::default();
        }
    }
    pub(crate) fn wake(&mut self, id: usize, token: Token) {
        if let Some(p) = self.polls.get_mut(id)
            && p.open
            && !p.wakes.contains(&token)
        {
            p.wakes.push(token);
        }
    }
    fn ready(&self, fd: usize) -> Ready {
        let f = &self.fds[fd];
        let mut r = match f.kind {
            Kind::Listener => Ready { readable: !f.backlog.is_empty(), ..Ready::default() },
            Kind::Udp => Ready {
                readable: !f.datagrams.is_empty(),
                writable: !f.full,
                ..Ready::default()
            },
            Kind::Stream => {
                let dead = f.so_error.is_some() || f.reset;
                Ready {
                    readable: !f.rx.is_empty() || f.eof || f.shut_read || dead,
                    writable: dead || (f.connected && !f.full),
                    error: f.so_error.is_some(),
                    read_closed: f.eof || f.shut_read || dead,
                    write_closed: dead || f.shut_write && f.eof,
                }
            }
        };
        if let Some(g) = f.reg {
            r.readable &= g.interest.is_readable();
            r.read_closed &= g.interest.is_readable();
            r.writable &= g.interest.is_writable();
        }
        r
    }
    /// Something happened to the socket.
    fn arm(&mut self, fd: usize) {
        if let Some(r) = self.fds[fd].reg {
            let q = &mut self.polls[r.poll].ready;
            if !q.contains(&fd) {
                q.push_back(fd);
            }
        }
    }
    pub(crate) fn any_ready(&self, id: usize) -> bool {
        let p = &self.polls[id];
        !p.wakes.is_empty() || p.ready.iter().any(|f| self.ready(*f).any() || self.fds[*f].full && self.fds[*f].window != Some(0))
    }
    pub(crate) fn collect(&mut self, id: usize, max: usize) -> Vec<(From_, Event)> {
        let mut out = vec![];
        let ready = std::mem::take(&mut self.polls[id].ready);
        for fd in ready {
            // by now there is space again
            self.fds[fd].full = self.fds[fd].window == Some(0);
            let r = self.ready(fd);
            if out.len() < max && r.any() {
                let token = self.fds[fd].reg.expect("registered").token;
                out.push((From_::Fd(fd), Event { token, ready: r }));
            } else if r.any() {
                self.polls[id].ready.push_back(fd);
            }
        }
        let wakes = std::mem::take(&mut self.polls[id].wakes);
        out.extend(wakes.into_iter().map(|t| (From_::Wake(t), readable(t))));
        out
    }
    pub(crate) fn put_back(&mut self, id: usize, l: Vec<From_>) {
        for f in l.into_iter().rev() {
            match f {
                From_::Fd(f) => {
                    let q = &mut self.polls[id].ready;
                    q.retain(|x| *x != f);
                    q.push_front(f);
                }
                From_::Wake(t) => self.wake(id, t),
            }
        }
    }
    pub(crate) fn register(&mut self, fd: usize, poll: usize, token: Token, interest: Interest) -> io::Result<()> {
        if self.fds[fd].reg.is_some() {
            return Err(ErrorKind::AlreadyExists.into());
        }
        self.fds[fd].reg = Some(Reg { poll, token, interest });
        if self.ready(fd).any() || self.fds[fd].full {
            self.arm(fd);
        }
        Ok(())
    }
    pub(crate) fn reregister(&mut self, fd: usize, poll: usize, token: Token, interest: Interest) -> io::Result<()> {
        self.deregister(fd, poll)?;
        self.register(fd, poll, token, interest)
    }
    pub(crate) fn deregister(&mut self, fd: usize, poll: usize) -> io::Result<()> {
        if self.fds[fd].reg.is_none_or(|r| r.poll != poll) {
            return Err(ErrorKind::NotFound.into());
        }
        self.fds[fd].reg = None;
        self.polls[poll].ready.retain(|f| *f != fd);
        Ok(())
    }
    fn new_fd(&mut self, kind: Kind, local: SocketAddr, remote: SocketAddr) -> usize {
        self.fds.push(Fd {
            kind,
            local,
            remote,
            open: true,
            connected: false,
            peer: None,
            accepted: true,
            rx: VecDeque::new(),
            written: vec![],
            eof: false,
            reset: false,
            so_error: None,
            full: false,
            window: None,
            shut_read: false,
            shut_write: false,
            backlog: VecDeque::new(),
            datagrams: VecDeque::new(),
            reg: None,
            nodelay: false,
        });
        self.fds.len() - 1
    }
    fn bound(&self, addr: SocketAddr, kind: Kind) -> Option<usize> {
        self.fds.iter().position(|f| f.open && f.kind == kind && f.local == addr)
    }
    fn fresh_port(&mut self) -> u16 {
        self.next_port += 1;
        self.next_port
    }
    pub(crate) fn bind(&mut self, mut addr: SocketAddr, tcp: bool) -> io::Result<usize> {
        let kind = if tcp { Kind::Listener } else { Kind::Udp };
        if addr.port() == 0 {
            addr.set_port(self.fresh_port());
        }
        if self.bound(addr, kind).is_some() {
            return Err(ErrorKind::AddrInUse.into());
        }
        Ok(self.new_fd(kind, addr, addr))
    }
    pub(crate) fn accept(&mut self, fd: usize) -> io::Result<(usize, SocketAddr)> {
        match self.fds[fd].backlog.pop_front() {
            None => Err(ErrorKind::WouldBlock.into()),
            Some(c) => {
                self.fds[c].accepted = true;
                Ok((c, self.fds[c].remote))
            }
        }
    }
    pub(crate) fn shutdown(&mut self, fd: usize, how: Shutdown) -> io::Result<()> {
        let f = &mut self.fds[fd];
        if !f.connected || f.reset {
            return Err(ErrorKind::NotConnected.into());
        }
        if how != Shutdown::Write {
            f.shut_read = true;
        }
        if how != Shutdown::Read && !f.shut_write {
            f.shut_write = true;
            let peer = f.peer;
            self.fin(peer);
        }
        self.arm(fd);
        Ok(())
    }
    /// The other end will not send anything any more.
    fn fin(&mut self, to: Option<usize>) {
        if let Some(p) = to.filter(|_| !self.unnoticed) {
            self.fds[p].eof = true;
            self.arm(p);
        }
    }
    /// The other end has broken the connection.
    fn rst(&mut self, to: Option<usize>) {
        if let Some(p) = to {
            let f = &mut self.fds[p];
            if f.open && !f.reset {
                f.reset = true;
                f.so_error = Some(ErrorKind::ConnectionReset);
                f.eof = true;
            }
            self.arm(p);
        }
    }
    pub(crate) fn close(&mut self, fd: usize) {
        if fd >= self.fds.len() || !self.fds[fd].open {
            return;
        }
        if let Some(r) = self.fds[fd].reg {
            let _ = self.deregister(fd, r.poll);
        }
        let f = &mut self.fds[fd];
        f.open = false;
        let (kind, peer) = (f.kind, f.peer);
        let (unread, reset, sent_fin) = (!f.rx.is_empty(), f.reset, f.shut_write);
        let backlog = std::mem::take(&mut f.backlog);
        match kind {
            Kind::Stream if self.unnoticed => (),
            Kind::Stream if reset => (),
            Kind::Stream if unread => self.rst(peer),
            Kind::Stream if sent_fin => (),
            Kind::Stream => self.fin(peer),
            Kind::Listener => {
                for c in backlog {
                    let p = self.fds[c].peer;
                    self.fds[c].open = false;
                    if !self.unnoticed {
                        self.rst(p);
                    }
                }
            }
            Kind::Udp => (),
        }
    }
    pub(crate) fn peek(&mut self, fd: usize, buf: &mut [u8]) -> io::Result<usize> {
        let f = &self.fds[fd];
        if f.rx.is_empty() {
            return if f.eof || f.shut_read { Ok(0) } else { Err(ErrorKind::WouldBlock.into()) };
        }
        let n = f.rx.len().min(buf.len());
        buf.iter_mut().zip(f.rx.iter()).for_each(|(b, x)| *b = *x);
        Ok(n)
    }

    // -------- for scenarios

    /// Live connections: both ends are open and neither was reset or shut down.
    pub fn connections(&self) -> Vec<(usize, usize)> {
        (0..self.fds.len())
            .filter_map(|a| {
                let f = &self.fds[a];
                let b = f.peer?;
                let g = &self.fds[b];
                let live = |f: &Fd| f.kind == Kind::Stream && f.open && f.connected && !f.reset && !f.shut_write;
                (a < b && live(f) && live(g)).then_some((a, b))
            })
            .collect()
    }
    /// Break a connection; of the data under way to either side, `keep(n)` bytes still arrive.
    pub fn break_connection(&mut self, a: usize, b: usize, keep: impl Fn(usize) -> usize) {
        for x in [a, b] {
            let n = keep(self.fds[x].rx.len());
            self.fds[x].rx.truncate(n);
            self.rst(Some(x));
        }
    }
    /// The connection takes `n` more bytes from `fd`, then none until it flows again.
    pub fn stall(&mut self, fd: usize, n: usize) {
        self.fds[fd].window = Some(n);
    }
    pub fn flow(&mut self, fd: usize) {
        if self.fds[fd].window.take().is_some() && self.fds[fd].full {
            self.fds[fd].full = false;
            self.arm(fd);
        }
    }
    /// Connect from somewhere that is not simulated to a listening host.
    pub fn dial(&mut self, from: IpAddr, to: SocketAddr) -> Option<usize> {
        let l = self.bound(to, Kind::Listener)?;
        let local = SocketAddr::new(from, self.fresh_port());
        let a = self.new_fd(Kind::Stream, local, to);
        let b = self.new_fd(Kind::Stream, to, local);
        for (x, y) in [(a, b), (b, a)] {
            self.fds[x].connected = true;
            self.fds[x].peer = Some(y);
        }
        self.fds[b].accepted = false;
        self.fds[l].backlog.push_back(b);
        self.arm(l);
        Some(a)
    }
    /// Listen at an address that is not simulated.
    pub fn listen(&mut self, at: SocketAddr) -> usize {
        self.bind(at, true).expect("free")
    }
    /// The next connection to such an address.
    pub fn next(&mut self, listener: usize) -> Option<usize> {
        self.accept(listener).ok().map(|(fd, _)| fd)
    }
    /// Send these bytes.
    pub fn put(&mut self, fd: usize, bytes: &[u8]) {
        let p = self.fds[fd].peer.expect("connected");
        if self.fds[p].open && !self.fds[fd].reset {
            self.fds[p].rx.extend(bytes);
            self.arm(p);
        }
    }
    /// What has arrived.
    pub fn take(&mut self, fd: usize) -> Vec<u8> {
        self.fds[fd].rx.drain(..).collect()
    }
    /// Whether the other end still has the connection.
    pub fn alive(&self, fd: usize) -> bool {
        !self.fds[fd].eof && !self.fds[fd].reset
    }
    /// Close a connection, properly or not.
    pub fn hang_up(&mut self, fd: usize, abort: bool) {
        if abort {
            let p = self.fds[fd].peer;
            self.rst(p);
        }
        self.fds[fd].rx.clear();
        self.close(fd);
    }
    /// How many datagrams are still to arrive.
    pub fn held(&self) -> usize {
        self.held.len()
    }
    /// Put a datagram into the queue of whoever is bound to `to`.
    pub fn inject(&mut self, from: SocketAddr, to: SocketAddr, data: Vec<u8>) {
        if let Some(fd) = self.bound(to, Kind::Udp) {
            self.fds[fd].datagrams.push_back((from, data));
            self.arm(fd);
        }
    }
}

pub(crate) fn connect(to: SocketAddr) -> io::Result<usize> {
    let home = env().home();
    let (listener, refused, silent, sync) = with(|s| {
        s.attempts.push((home, to));
        (
            s.bound(to, Kind::Listener),
            s.refused.contains(&to),
            s.silent.contains(&to),
            s.options.sync_refusal,
        )
    });
    let ok = listener.is_some() && !refused;
    if !ok && !silent && with(|s| s.at_once) {
        return Err(ErrorKind::ConnectionRefused.into());
    }
    if !ok && !silent && sync && env().choose("refuse at once", 2) == 1 {
        return Err(ErrorKind::ConnectionRefused.into());
    }
    let fd = with(|s| {
        let local = SocketAddr::new(home, s.fresh_port());
        let a = s.new_fd(Kind::Stream, local, to);
        if silent {
            return a;
        }
        if !ok {
            s.fds[a].so_error = Some(ErrorKind::ConnectionRefused);
            s.fds[a].eof = true;
            return a;
        }
        let l = listener.unwrap();
        let b = s.new_fd(Kind::Stream, to, local);
        for (x, y) in [(a, b), (b, a)] {
            s.fds[x].connected = true;
            s.fds[x].peer = Some(y);
        }
        s.fds[b].accepted = false;
        s.fds[l].backlog.push_back(b);
        s.arm(l);
        a
    });
    log(|| format!("connect #{fd} to {to}: {}", if ok { "ok" } else { "refused" }));
    Ok(fd)
}

pub(crate) fn read(fd: usize, buf: &mut [u8]) -> io::Result<usize> {
    op("read");
    let (avail, o) = with(|s| (s.fds[fd].rx.len().min(buf.len()), s.options));
    if buf.is_empty() {
        return Ok(0);
    }
    if avail == 0 {
        return with(|s| {
            let f = &mut s.fds[fd];
            if let Some(e) = f.so_error.take() {
                Err(e.into())
            } else if f.eof || f.shut_read {
                Ok(0)
            } else if !f.connected {
                Err(ErrorKind::NotConnected.into())
            } else {
                Err(ErrorKind::WouldBlock.into())
            }
        });
    }
    let mut ways: Vec<Option<usize>> = vec![Some(avail)];
    if o.short_reads {
        ways.extend([avail - 1, avail / 2, 1].iter().filter(|n| **n > 0 && **n < avail).map(|n| Some(*n)));
        ways.dedup();
    }
    if o.interrupts {
        ways.push(None);
    }
    let way = if ways.len() > 1 { ways[env().choose("read", ways.len())] } else { ways[0] };
    let Some(n) = way else {
        return Err(ErrorKind::Interrupted.into());
    };
    with(|s| {
        for b in buf.iter_mut().take(n) {
            *b = s.fds[fd].rx.pop_front().unwrap();
        }
    });
    log(|| format!("read #{fd}: {n} of {avail}"));
    Ok(n)
}

pub(crate) fn write(fd: usize, buf: &[u8]) -> io::Result<usize> {
    op("write");
    let o = with(|s| {
        let f = &mut s.fds[fd];
        if let Some(e) = f.so_error.take() {
            return Err(io::Error::from(e));
        }
        if f.reset || f.shut_write {
            return Err(ErrorKind::BrokenPipe.into());
        }
        if !f.connected {
            return Err(ErrorKind::WouldBlock.into());
        }
        if f.full || f.window == Some(0) {
            f.full = true;
            return Err(ErrorKind::WouldBlock.into());
        }
        Ok(s.options)
    })?;
    if buf.is_empty() {
        return Ok(0);
    }
    let mut ways: Vec<Result<usize, ErrorKind>> = vec![Ok(buf.len())];
    if o.short_writes {
        let len = buf.len();
        for n in [len - 1, len / 2, 1] {
            if n > 0 && n < len && !ways.contains(&Ok(n)) {
                ways.push(Ok(n));
            }
        }
        ways.push(Err(ErrorKind::WouldBlock));
    }
    if o.interrupts {
        ways.push(Err(ErrorKind::Interrupted));
    }
    let way = if ways.len() > 1 { ways[env().choose("write", ways.len())] } else { ways[0] };
    log(|| format!("write #{fd}: {way:?} of {}", buf.len()));
    let window = with(|s| s.fds[fd].window);
    let way = way.map(|n| n.min(window.unwrap_or(n)));
    match way {
        Err(k) => {
            if k == ErrorKind::WouldBlock {
                with(|s| {
                    s.fds[fd].full = true;
                    s.arm(fd);
                });
            }
            Err(k.into())
        }
        Ok(n) => {
            with(|s| {
                let p = s.fds[fd].peer.unwrap();
                s.fds[fd].written.extend(&buf[..n]);
                if let Some(w) = &mut s.fds[fd].window {
                    *w -= n;
                }
                if n < buf.len() {
                    s.fds[fd].full = true;
                    s.arm(fd);
                }
                if s.fds[p].open {
                    s.fds[p].rx.extend(&buf[..n]);
                    s.arm(p);
                } else if !s.unnoticed {
                    // nobody is there any more
                    s.rst(Some(fd));
                }
            });
            Ok(n)
        }
    }
}

/// The largest payload of a datagram.
const MAX_DATAGRAM: usize = 65_507;

pub(crate) fn send_to(fd: usize, buf: &[u8], to: SocketAddr) -> io::Result<usize> {
    op("send_to");
    let (from, o, full) = with(|s| (s.fds[fd].local, s.options, s.fds[fd].full));
    if full {
        return Err(ErrorKind::WouldBlock.into());
    }
    if buf.len() > MAX_DATAGRAM {
        // EMSGSIZE
        return Err(io::Error::from_raw_os_error(90));
    }
    let n = 1 + 2 * (o.short_writes as usize) + 4 * (o.lossy as usize);
    let mut way = if n > 1 { env().choose("send_to", n) } else { 0 };
    if way > 0 && !o.short_writes {
        way += 2;
    }
    log(|| format!("send_to {to}: {} bytes, {way}", buf.len()));
    match way {
        1 => {
            with(|s| {
                s.fds[fd].full = true;
                s.arm(fd);
            });
            Err(ErrorKind::WouldBlock.into())
        }
        2 => Err(ErrorKind::Interrupted.into()),
        _ => {
            with(|s| {
                if let Some(p) = s.bound(to, Kind::Udp) {
                    let q = &mut s.fds[p].datagrams;
                    match way {
                        3 => s.lost += 1,
                        4 => {
                            s.twice += 1;
                            q.push_back((from, buf.to_vec()));
                            q.push_back((from, buf.to_vec()));
                        }
                        5 => q.push_front((from, buf.to_vec())),
                        6 => {
                            // overtaken by the next one
                            s.held.push((p, from, buf.to_vec()));
                            return;
                        }
                        _ => q.push_back((from, buf.to_vec())),
                    }
                    let held = std::mem::take(&mut s.held);
                    for (h, f, d) in held {
                        s.fds[h].datagrams.push_back((f, d));
                        s.arm(h);
                    }
                    s.arm(p);
                }
            });
            Ok(buf.len())
        }
    }
}

pub(crate) fn recv_from(fd: usize, buf: &mut [u8], peek: bool) -> io::Result<(usize, SocketAddr)> {
    op("recv_from");
    let (some, o) = with(|s| (!s.fds[fd].datagrams.is_empty(), s.options));
    if !some {
        return Err(ErrorKind::WouldBlock.into());
    }
    if o.interrupts && env().choose("recv_from", 2) == 1 {
        return Err(ErrorKind::Interrupted.into());
    }
    let (from, data) = with(|s| {
        let q = &mut s.fds[fd].datagrams;
        if peek { q.front().cloned().unwrap() } else { q.pop_front().unwrap() }
    });
    // the rest of a datagram that does not fit is lost
    if !peek {
        with(|s| {
            let to = s.fds[fd].local;
            s.arrived.push((from, to, data.clone()))
        });
    }
    let n = data.len().min(buf.len());
    buf[..n].copy_from_slice(&data[..n]);
    log(|| format!("recv_from {from}: {n} of {}", data.len()));
    Ok((n, from))
}
