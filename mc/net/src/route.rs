//! N08: registration and routing by a networked dispatcher, for local and remote senders, and
//! forwarding between systems.
use crate::net::*;
use explore::{Check, Ctx, Outcome, Scenario, ensure};
use kompact::{
    component::Component,
    messaging::{RegistrationError, RegistrationResult},
    prelude::*,
    routing::groups::*,
};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    future::Future,
    net::SocketAddr,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

const A: usize = 10;
const B: usize = 11;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Kind {
    RoundRobin,
    Broadcast,
    Hash,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Ent {
    Actor(usize),
    /// which one, and its kind
    Policy(u32, Kind),
}
#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
struct Model {
    ids: BTreeMap<usize, usize>,
    names: BTreeMap<Vec<String>, Ent>,
    dead: Vec<usize>,
    policies: u32,
}
fn segs(p: &str) -> Vec<String> {
    p.split('/').map(|s| s.to_string()).collect()
}
/// Who gets a message.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Expect {
    All(Vec<usize>),
    /// one of these, chosen by the policy of this number
    One(Vec<usize>, Option<(u32, Kind)>),
    Nobody,
}
impl Model {
    fn below(&self, p: &[String]) -> Vec<usize> {
        self.names
            .iter()
            .filter(|(k, _)| k.len() > p.len() && k.starts_with(p))
            .filter_map(|(_, e)| match e {
                Ent::Actor(a) => Some(*a),
                Ent::Policy(..) => None,
            })
            .collect()
    }
    fn named(&self, to: &str) -> Expect {
        let mut p = segs(to);
        let mark = match p.last().unwrap().as_str() {
            "*" => Some(true),
            "?" => Some(false),
            _ => None,
        };
        if mark.is_some() {
            p.pop();
        }
        let all = self.below(&p);
        match (self.names.get(&p), mark) {
            (Some(Ent::Actor(a)), None) => Expect::One(vec![*a], None),
            (Some(Ent::Actor(_)), Some(_)) => Expect::Nobody,
            (Some(Ent::Policy(_, Kind::Broadcast)), Some(false)) => Expect::Nobody,
            (Some(Ent::Policy(_, Kind::Broadcast)), _) => Expect::All(all),
            (Some(Ent::Policy(..)), Some(true)) => Expect::Nobody,
            (Some(Ent::Policy(n, k)), _) => Expect::One(all, Some((*n, *k))),
            (None, None) => Expect::Nobody,
            (None, Some(true)) => Expect::All(all),
            (None, Some(false)) => Expect::One(all, None),
        }
    }
    /// The dispatcher noticed who is dead.
    fn reaped(&mut self) {
        let dead = std::mem::take(&mut self.dead);
        self.ids.retain(|_, a| !dead.contains(a));
        self.names.retain(|_, e| !matches!(e, Ent::Actor(a) if dead.contains(a)));
        self.dead = dead;
    }
}

type Answer = KFuture<RegistrationResult>;
fn answer(f: &mut Answer) -> Option<RegistrationResult> {
    let mut cx = Context::from_waker(Waker::noop());
    match std::pin::Pin::new(f).poll(&mut cx) {
        Poll::Ready(r) => Some(r.expect("not dropped")),
        Poll::Pending => None,
    }
}

/// The registry of host 0 next to a model of it.
struct Reg {
    comps: RefCell<BTreeMap<usize, Arc<Component<Sink>>>>,
    ids: BTreeMap<usize, ActorPath>,
    m: Model,
    answers: Vec<(Answer, Result<ActorPath, &'static str>, String)>,
    seq: u32,
    /// what was chosen by a policy since the registry changed: whose message, to whom
    chosen: BTreeMap<u32, Vec<(String, usize)>>,
}
impl Reg {
    fn new(n: &Net) -> Reg {
        let h = &n.hosts[0];
        let mut comps = BTreeMap::new();
        let mut ids = BTreeMap::new();
        for c in [A, B] {
            let comp = h.sink(c);
            ids.insert(c, h.path().into_unique(comp.id()).into());
            comps.insert(c, comp);
        }
        Reg { comps: RefCell::new(comps), ids, m: Model::default(), answers: vec![], seq: 0, chosen: BTreeMap::new() }
    }
    fn alive(&self, c: usize) -> bool {
        self.comps.borrow().contains_key(&c)
    }
    fn path(&self, n: &Net, to: &str) -> ActorPath {
        format!("tcp://{}/{to}", n.hosts[0].addr).parse().unwrap()
    }
    fn name(&mut self, n: &Net, text: &str, update: bool, ent: Ent) -> Result<ActorPath, &'static str> {
        let s = segs(text);
        if s.iter().any(|s| s.is_empty() || s.contains(['*', '?', '#'])) {
            Err("invalid")
        } else if self.m.names.contains_key(&s) && !update {
            Err("duplicate")
        } else {
            self.m.names.insert(s, ent);
            self.chosen.clear();
            Ok(self.path(n, text))
        }
    }
    fn alias(&mut self, n: &Net, text: &str, c: usize, update: bool) {
        n.ctx.log(|| format!("register {text:?} for {c}, update {update}"));
        let sys = n.hosts[0].sys();
        let comp = self.comps.borrow()[&c].clone();
        let f = if update { sys.update_alias_registration(&comp, text) } else { sys.register_by_alias(&comp, text) };
        let want = self.name(n, text, update, Ent::Actor(c));
        self.answers.push((f, want, text.into()));
    }
    fn policy(&mut self, n: &Net, text: &str, kind: Kind, update: bool) {
        n.ctx.log(|| format!("policy {text:?}: {kind:?}, update {update}"));
        let sys = n.hosts[0].sys();
        let f = match kind {
            Kind::RoundRobin => sys.set_routing_policy(RoundRobinRouting::default(), text, update),
            Kind::Broadcast => sys.set_routing_policy(BroadcastRouting, text, update),
            Kind::Hash => sys.set_routing_policy(SenderDefaultHashBucketRouting::default(), text, update),
        };
        self.m.policies += 1;
        let want = self.name(n, text, update, Ent::Policy(self.m.policies, kind));
        self.answers.push((f, want, text.into()));
    }
    fn id(&mut self, n: &Net, c: usize) {
        n.ctx.log(|| format!("register {c}"));
        let f = n.hosts[0].sys().register(&self.comps.borrow()[&c]);
        let want = if self.m.ids.contains_key(&c) {
            Err("duplicate")
        } else {
            self.m.ids.insert(c, c);
            Ok(self.ids[&c].clone())
        };
        self.answers.push((f, want, format!("{c}")));
    }
    fn kill(&mut self, n: &Net, c: usize) -> Outcome {
        n.ctx.log(|| format!("kill {c}"));
        let comp = self.comps.borrow_mut().remove(&c).unwrap();
        n.hosts[0].sys().kill(comp);
        self.m.dead.push(c);
        n.rt.settle()
    }
    /// Every answer so far is there and right.
    fn answered(&mut self) -> Outcome {
        for (mut f, want, what) in self.answers.drain(..) {
            let Some(got) = answer(&mut f) else {
                ensure!(false, "n08-answer", "the registration of {what} is not answered");
                unreachable!()
            };
            let ok = match (&got, &want) {
                (Ok(p), Ok(q)) => p == q,
                (Err(RegistrationError::DuplicateEntry), Err("duplicate")) => true,
                (Err(RegistrationError::InvalidPath(_)), Err("invalid")) => true,
                _ => false,
            };
            ensure!(ok, "n08-answer", "the registration of {what}: {got:?} instead of {want:?}");
        }
        Ok(())
    }
    fn target(&self, to: &str) -> Expect {
        match to {
            "#A" => self.m.ids.get(&A).map_or(Expect::Nobody, |c| Expect::One(vec![*c], None)),
            "#B" => self.m.ids.get(&B).map_or(Expect::Nobody, |c| Expect::One(vec![*c], None)),
            _ => self.m.named(to),
        }
    }
    fn dst(&self, n: &Net, to: &str, t: Transport) -> ActorPath {
        let mut p = match to {
            "#A" => self.ids[&A].clone(),
            "#B" => self.ids[&B].clone(),
            _ => self.path(n, to),
        };
        p.set_protocol(t);
        p
    }
    /// Send, and see who got it.
    fn tell(&mut self, n: &Net, from: usize, sender: usize, to: &str, t: Transport, how: How) -> Outcome {
        // by the dispatcher, not the network
        let local = from == 0 && t != Transport::Udp;
        if !local {
            n.rt.settle()?;
        }
        let want = self.target(to);
        let dst = self.dst(n, to, t);
        self.seq += 1;
        let pay = Pay { seq: self.seq, len: [20, 700][self.seq as usize % 2 * (t != Transport::Udp) as usize] };
        let mut src: ActorPath = n.hosts[from].path().into_named_with_string(&format!("s{sender}")).unwrap().into();
        src.set_protocol(t);
        n.send_as(from, src.clone(), &dst, pay.clone(), how);
        n.rt.settle()?;
        self.answered()?;
        let (mut got, mut letters) = (vec![], vec![]);
        for (i, h) in n.hosts.iter().enumerate() {
            for (log, out) in [(&h.log, &mut got), (&h.letters, &mut letters)] {
                for g in log.lock().unwrap().drain(..) {
                    ensure!(i == 0, "n08-receiver", "host {i} got {g:?}");
                    ensure!(g.pay.as_ref() == Ok(&pay), "n08-content", "{g:?} instead of {pay:?}");
                    ensure!(g.sender == src.to_string(), "n08-sender", "{g:?} instead of {src}");
                    ensure!(g.receiver == dst.to_string(), "n08-receiver", "{g:?} instead of {dst}");
                    out.push(g.sink);
                }
            }
        }
        got.sort();
        n.ctx.outcome(&(&got, letters.len()));
        let dead = |l: &[usize]| l.iter().any(|c| self.m.dead.contains(c));
        let lost = local as usize;
        match &want {
            // an empty group may be nobody
            Expect::All(l) | Expect::One(l, _) if l.is_empty() => {
                ensure!(got.is_empty() && letters.len() <= lost, "n08-empty", "{pay:?} for {dst} went to {got:?}");
            }
            Expect::Nobody => {
                ensure!(
                    got.is_empty() && letters.len() == lost,
                    "n08-nobody",
                    "{pay:?} for {dst} went to {got:?} and {} times to nobody",
                    letters.len()
                );
            }
            Expect::All(l) => {
                let mut l: Vec<usize> = l.iter().copied().filter(|c| self.alive(*c)).collect();
                l.sort();
                ensure!(got == l && letters.is_empty(), "n08-all", "{pay:?} for {dst} went to {got:?} instead of {l:?}");
            }
            Expect::One(l, p) => {
                ensure!(
                    got.len() <= 1 && got.iter().all(|c| l.contains(c)) && letters.is_empty(),
                    "n08-one",
                    "{pay:?} for {dst} went to {got:?} instead of one of {l:?}, to nobody {}",
                    letters.len()
                );
                ensure!(got.len() == 1 || dead(l), "n08-lost", "{pay:?} for {dst} went to nobody of {l:?}");
                if let (Some((p, k)), [c], false) = (p, &got[..], dead(l)) {
                    let since = self.chosen.entry(*p).or_default();
                    since.push((src.to_string(), *c));
                    match k {
                        Kind::RoundRobin => {
                            for w in since.windows(l.len()) {
                                let mut a: Vec<usize> = w.iter().map(|x| x.1).collect();
                                let mut b = l.clone();
                                a.sort();
                                b.sort();
                                ensure!(a == b, "n08-robin", "a round over {l:?} is {w:?}");
                            }
                        }
                        _ => {
                            let first = since.iter().find(|x| x.0 == src.to_string()).unwrap();
                            ensure!(first.1 == *c, "n08-hash", "one sender reached {} and {c}", first.1);
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

const DSTS: [&str; 9] = ["x", "g", "#B", "g/*", "g/?", "g/x", "#A", "x/?", "y/*"];

fn connect(n: &Net) -> Outcome {
    // the connection is not what is checked
    n.send(1, &"tcp://10.0.0.1:1000/nobody".parse().unwrap(), Pay { seq: 0, len: 0 }, How::Lazy);
    n.rt.settle()?;
    ensure!(
        n.hosts.iter().all(|h| h.got().is_empty() && h.letters.lock().unwrap().is_empty()),
        "n08-nobody",
        "a remote message for nobody was handled"
    );
    Ok(())
}

/// Registrations, deaths, cleanups and messages from everywhere in every order.
fn histories(ctx: &Ctx, depth: usize, dsts: usize, senders: usize) -> Outcome {
    with_net(ctx, &Opts { sinks: 0, ..Opts::default() }, |n| {
        connect(n)?;
        let mut r = Reg::new(n);
        // some of it is there already
        match ctx.pick(4) {
            0 => (),
            1 => r.alias(n, "g/x", A, false),
            k => {
                r.alias(n, "g/x", A, false);
                r.alias(n, "g/y", B, false);
                r.policy(n, "g", [Kind::RoundRobin, Kind::Hash][k - 2], false);
            }
        }
        let mut told = false;
        for i in 0..depth {
            // a history that ends without a message is a part of another
            match if i + 1 == depth { 3 } else { ctx.pick(6) } {
                0 => {
                    let t = *ctx.pick_of(&["x", "g/x", "g"]);
                    let c = if r.alive(B) { *ctx.pick_of(&[A, B]) } else { A };
                    let u = ctx.pick(2) == 1;
                    r.alias(n, t, c, u);
                }
                1 => {
                    let c = if r.alive(B) { *ctx.pick_of(&[B, A]) } else { A };
                    r.id(n, c);
                }
                2 => {
                    use Kind::*;
                    let (t, k, u) = *ctx.pick_of(&[
                        ("g", RoundRobin, false),
                        ("g", Broadcast, true),
                        ("x", RoundRobin, true),
                        ("g", Hash, true),
                        ("g/*", RoundRobin, true),
                    ]);
                    r.policy(n, t, k, u);
                }
                3 => {
                    let to = DSTS[ctx.pick(dsts)];
                    use Transport::*;
                    // from whom, how
                    let all = [(1, Tcp, How::Lazy), (0, Tcp, How::Pre), (1, Udp, How::Eager), (0, Local, How::Lazy), (0, Udp, How::Eager)];
                    let (from, t, how) = *ctx.pick_of(&all[..senders]);
                    r.tell(n, from, 0, to, t, how)?;
                    told = true;
                }
                4 => {
                    if !r.alive(B) {
                        return Ok(());
                    }
                    r.kill(n, B)?;
                }
                _ => {
                    if r.alive(B) {
                        return Ok(());
                    }
                    ctx.log(|| "cleanup".into());
                    // a reaper runs once something is registered
                    n.rt.settle()?;
                    for _ in 0..12 {
                        n.advance(500);
                        n.rt.settle()?;
                    }
                    r.m.reaped();
                    r.chosen.clear();
                }
            }
            ctx.state(&r.m);
        }
        assert!(told);
        Ok(())
    })
}

/// Messages to groups, with a change somewhere in between.
fn groups(ctx: &Ctx, len: usize) -> Outcome {
    with_net(ctx, &Opts { sinks: 0, ..Opts::default() }, |n| {
        connect(n)?;
        let mut r = Reg::new(n);
        let kind = *ctx.pick_of(&[None, Some(Kind::RoundRobin), Some(Kind::Hash), Some(Kind::Broadcast)]);
        let late = ctx.pick(2) == 1;
        if let (Some(k), false) = (kind, late) {
            r.policy(n, "g", k, false);
        }
        for (i, (t, c)) in [("g/x", A), ("g/y", B), ("g/z/w", A), ("g/z", B)].iter().enumerate() {
            if i >= 2 + ctx.pick(3) {
                break;
            }
            r.alias(n, t, *c, false);
        }
        if let (Some(k), true) = (kind, late) {
            r.policy(n, "g", k, false);
        }
        for i in 0..len {
            match ctx.pick(5) {
                0 => r.alias(n, "g/v", B, false),
                1 => r.alias(n, "g/x", B, true),
                k => {
                    let to = ["g", "g/?", "g/*"][k - 2];
                    let (from, sender) = *ctx.pick_of(&[(1, 0), (1, 1), (0, 0)]);
                    r.tell(n, from, sender, to, Transport::Tcp, HOWS[(i + sender) % 3])?;
                }
            }
        }
        Ok(())
    })
}

/// Messages arrive while something is registered.
fn races(ctx: &Ctx, msgs: usize, fine: bool) -> Outcome {
    with_net(ctx, &Opts { sinks: 0, ..Opts::default() }, |n| {
        connect(n)?;
        let mut r = Reg::new(n);
        r.alias(n, "x", A, false);
        r.alias(n, "g/x", A, false);
        let (to, op) = *ctx.pick_of(&[("x", 0), ("g", 1), ("g/*", 2), ("g/x", 3), ("#B", 4), ("g", 5), ("x", 6)]);
        if op == 5 {
            r.policy(n, "g", Kind::Broadcast, false);
        }
        n.rt.settle()?;
        r.answered()?;
        let dst = r.dst(n, to, Transport::Tcp);
        let before = r.target(to);
        n.env.fine.set(fine);
        // from host 1 in the beginning, from host 0 on both sides
        let at = ctx.pick(msgs + 1);
        for i in 0..msgs + 1 {
            if i == at {
                match op {
                    0 => r.alias(n, "x", B, true),
                    1 => r.policy(n, "g", Kind::RoundRobin, false),
                    2 => r.alias(n, "g/y", B, false),
                    3 => r.alias(n, "g/x", B, true),
                    4 => r.id(n, B),
                    5 => r.policy(n, "g", Kind::Hash, true),
                    _ => r.alias(n, "x", B, false),
                }
            } else {
                let from = 1;
                let k = if i > at { i } else { i + 1 };
                n.send(from, &dst, Pay { seq: k as u32, len: 20 }, How::Lazy);
                n.send(0, &dst, Pay { seq: 100 + k as u32, len: 20 }, How::Eager);
            }
        }
        let after = r.target(to);
        n.rt.explore()?;
        n.env.fine.set(false);
        n.rt.settle()?;
        r.answered()?;
        n.show();
        let got = n.hosts[0].got();
        let letters = n.hosts[0].letters.lock().unwrap().clone();
        for l in [&got, &letters] {
            for g in l {
                ensure!(g.pay.is_ok() && g.receiver == dst.to_string(), "n08-content", "{g:?}");
            }
        }
        let who = |log: &[Got], seq: u32| -> Vec<usize> {
            let mut v: Vec<usize> = log.iter().filter(|g| g.pay.as_ref().unwrap().seq == seq).map(|g| g.sink).collect();
            v.sort();
            v
        };
        let fits = |e: &Expect, got: &[usize], lost: usize, local: bool| match e {
            Expect::All(l) | Expect::One(l, _) if l.is_empty() => got.is_empty() && lost <= local as usize,
            Expect::Nobody => got.is_empty() && lost == local as usize,
            Expect::All(l) => {
                let mut l = l.clone();
                l.sort();
                got == l && lost == 0
            }
            Expect::One(l, _) => got.len() == 1 && l.contains(&got[0]) && lost == 0,
        };
        let mut seen = vec![];
        for base in [0, 100] {
            let mut changed = false;
            for k in 1..=msgs as u32 {
                let (g, l) = (who(&got, base + k), who(&letters, base + k).len());
                seen.push((g.clone(), l));
                let local = base == 100;
                let (b, a) = (fits(&before, &g, l, local), fits(&after, &g, l, local));
                // what is local is in order with the registration
                let (b, a) = if local { (b && k <= at as u32, a && k > at as u32) } else { (b, a) };
                ensure!(
                    a || b && !changed,
                    "n08-race",
                    "message {} for {dst} went to {g:?} and {l} times to nobody, before it is {before:?}, after {after:?}, changed {changed}",
                    base + k
                );
                changed |= a && !b;
            }
        }
        // in order
        for c in [A, B] {
            for base in [0, 100] {
                let s: Vec<u32> = got
                    .iter()
                    .filter(|g| g.sink == c)
                    .map(|g| g.pay.as_ref().unwrap().seq)
                    .filter(|s| s / 100 == base / 100)
                    .collect();
                ensure!(s.is_sorted(), "n08-order", "{c} got {s:?}");
            }
        }
        ctx.outcome(&seen);
        // from now on it is the new one
        n.hosts[0].log.lock().unwrap().clear();
        n.hosts[0].letters.lock().unwrap().clear();
        r.seq = 200;
        r.tell(n, 1, 0, to, Transport::Tcp, How::Lazy)?;
        r.tell(n, 0, 0, to, Transport::Tcp, How::Lazy)
    })
}

/// Messages are passed on, and on.
fn forward(ctx: &Ctx, hops: usize, msgs: usize) -> Outcome {
    use Transport::*;
    let chunk = *ctx.pick_of(&[512, 256]);
    let hosts = vec!["10.0.0.1:1000", "10.0.0.2:2000", "10.0.0.3:3000"];
    with_net(ctx, &Opts { addrs: hosts, chunk, sinks: 2, ..Opts::default() }, |n| {
        let from = ctx.pick(2);
        let first = *ctx.pick_of(&[Tcp, Udp]);
        let how = *ctx.pick_of(&HOWS);
        for h in &n.hosts {
            h.keep();
        }
        let path = |n: &Net, h: usize, s: usize, t: Transport| {
            let mut p = n.hosts[h].sinks[s].clone();
            p.set_protocol(t);
            p
        };
        let mut at = (1, 0, first);
        let lens: Vec<u32> = if first == Udp { vec![20, 90, 0] } else { vec![20, 1500, 0] };
        let mut sender = String::new();
        for i in 0..msgs {
            let to = path(n, at.0, at.1, at.2);
            sender = n.source(from, &to).to_string();
            n.send(from, &to, Pay { seq: i as u32, len: lens[i] }, how);
        }
        let mut udp = first == Udp;
        n.rt.settle()?;
        for hop in 0..hops {
            let l = n.hosts[at.0].take_kept();
            ensure!(
                l.len() == msgs && l.iter().all(|(s, _)| *s == at.1),
                "n08-forward",
                "after {hop} hops host {} kept {:?} instead of {msgs} messages",
                at.0,
                l
            );
            // to the others, by whatever means, or to itself
            let k = ctx.pick(6);
            let next = match k {
                0..4 => ((at.0 + 1 + k / 2) % 3, ctx.pick(2), [Tcp, Udp][k % 2]),
                4 => (at.0, 1 - at.1, Tcp),
                _ => (at.0, at.1, Local),
            };
            if next.2 == Udp && !udp {
                // too large for a datagram
                if first == Tcp && lens[..msgs].iter().any(|l| *l > 100) {
                    return Ok(());
                }
                udp = true;
            }
            let original = ctx.pick(2) == 0;
            let at_once = ctx.pick(2) == 0;
            for (_, m) in l {
                let to = path(n, next.0, next.1, next.2);
                n.ctx.log(|| format!("host {} forwards to {to}, original sender {original}", at.0));
                let sys = n.hosts[at.0].sys();
                if original {
                    to.forward_with_original_sender(m, sys);
                } else {
                    let mine = path(n, at.0, at.1, Tcp);
                    sender = mine.to_string();
                    to.forward_with_sender(m, sys, mine);
                }
                if !at_once {
                    n.rt.settle()?;
                }
            }
            n.rt.settle()?;
            at = next;
        }
        for h in &n.hosts {
            h.release();
        }
        let want = path(n, at.0, at.1, at.2).to_string();
        for (i, h) in n.hosts.iter().enumerate() {
            let got = h.got();
            let letters = h.letters.lock().unwrap().clone();
            ensure!(letters.is_empty(), "n08-forward", "host {i} got {letters:?} for nobody");
            ensure!(got.len() == if i == at.0 { msgs } else { 0 }, "n08-forward", "host {i} got {got:?}");
            for (j, g) in got.iter().enumerate() {
                let pay = Pay { seq: j as u32, len: lens[j] };
                ensure!(g.pay.as_ref() == Ok(&pay), "n08-content", "{g:?} instead of {pay:?}");
                ensure!(g.sink == at.1 && g.receiver == want, "n08-receiver", "{g:?} instead of {want}");
                ensure!(g.sender == sender, "n08-sender", "{g:?} instead of {sender}");
            }
        }
        ctx.outcome(&(at.0, at.1, sender));
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "N08",
        level: "model_checking",
        rule: "one execution is one history of registrations, policies, deaths, cleanups and messages from local and remote senders, or one chain of forwarded messages, in one order of the threads",
        assumptions: vec![
            "sockets behave as simulated: edge-triggered readiness, ordered reliable streams until they break, unreliable datagrams".into(),
            "messages to an actor that has died may be lost until its registrations are cleaned up".into(),
        ],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("histories", 0, move |ctx| histories(ctx, t.or(3, 4), t.or(4, 5), t.or(2, 3))).weight(3),
                Scenario::new("all-destinations", 0, move |ctx| histories(ctx, t.or(2, 3), DSTS.len(), 5)),
                Scenario::new("groups", 0, move |ctx| groups(ctx, t.or(3, 4))),
                Scenario::new("races", t.or(4, 6), move |ctx| races(ctx, 2, false)),
                Scenario::new("races-fine", t.or(2, 3), move |ctx| races(ctx, 2, true)),
                Scenario::new("forward", 0, move |ctx| forward(ctx, t.or(2, 3), 3)),
            ]
        }),
    }]
}
#[allow(unused)]
type _D = (SocketAddr, Mutex<()>);
