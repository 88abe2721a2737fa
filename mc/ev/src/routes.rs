//! C20: routing groups and their policies. C21: registration and delivery by the dispatcher.

use crate::{
    common::{M, m},
    lookup::{Ent, Model, owned},
    world::{World, poll_once},
};
use explore::{Check, Ctx, Outcome, Scenario, Violation, ensure};
use kompact::{
    KompactLogger,
    messaging::{DispatchData, DispatchEnvelope, NetMessage, RegistrationError, RegistrationResult, SerialisedFrame},
    net::buffers::{BufferConfig, EncodeBuffer},
    prelude::*,
    routing::groups::*,
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, hash_map::DefaultHasher},
    hash::BuildHasherDefault,
    sync::{Arc, Mutex},
    task::Poll,
};

/// Who got what from whom.
type Got = (u8, String, M);
type GotLog = Arc<Mutex<Vec<Got>>>;
const LETTERS: u8 = 99;

#[derive(ComponentDefinition)]
struct Rcv {
    ctx: ComponentContext<Self>,
    who: u8,
    log: GotLog,
    ready: Option<KPromise<()>>,
}
impl Rcv {
    fn new(who: u8, log: &GotLog) -> Rcv {
        Rcv { ctx: ComponentContext::uninitialised(), who, log: log.clone(), ready: None }
    }
}
impl ComponentLifecycle for Rcv {
    fn on_start(&mut self) -> HandlerResult {
        if let Some(p) = self.ready.take() {
            p.complete().unwrap_or(())
        }
        Handled::OK
    }
}
impl Actor for Rcv {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        let sender = msg.sender.to_string();
        let m = match msg.try_deserialise::<M, M>() {
            Ok(m) => m,
            Err(e) => {
                eprintln!("not a message: {e:?}");
                m(255, 255, 255)
            }
        };
        self.log.lock().unwrap().push((self.who, sender, m));
        Handled::OK
    }
}

const A: usize = 0;
const B: usize = 1;
const C: usize = 2;

struct Net {
    w: World,
    log: GotLog,
    comps: RefCell<Vec<Option<Arc<Component<Rcv>>>>>,
    ids: Vec<u128>,
    sender: Arc<Component<Rcv>>,
    sys: SystemPath,
}
impl Net {
    fn new(ctx: &Ctx, n: usize) -> Result<Net, Violation> {
        let log: GotLog = Default::default();
        let l2 = log.clone();
        let w = World::with(ctx, move |conf| {
            conf.system_components(
                move |p| {
                    let mut r = Rcv::new(LETTERS, &l2);
                    r.ready = Some(p);
                    r
                },
                LocalDispatcher::new,
            );
        });
        let mut comps = vec![];
        let mut ids = vec![];
        for i in 0..n as u8 {
            let l = log.clone();
            let c = w.sys.create(move || Rcv::new(i, &l));
            w.name(c.id(), ((b'A' + i) as char).to_string());
            w.sys.start(&c);
            ids.push(c.id().as_u128());
            comps.push(Some(c));
        }
        let l = log.clone();
        let sender = w.sys.create(move || Rcv::new(98, &l));
        w.settle()?;
        let sys = w.sys.system_path();
        Ok(Net { w, log, comps: RefCell::new(comps), ids, sender, sys })
    }
    fn named(&self, text: &str) -> ActorPath {
        if text.is_empty() {
            return NamedPath::with_system(self.sys.clone(), vec![]).into();
        }
        NamedPath::with_system(self.sys.clone(), text.split('/').map(|s| s.to_string()).collect()).into()
    }
    fn unique(&self, i: usize) -> ActorPath {
        UniquePath::with_system(self.sys.clone(), uuid::Uuid::from_u128(self.ids[i])).into()
    }
    fn r(&self, i: usize) -> Arc<Component<Rcv>> {
        self.comps.borrow()[i].clone().expect("alive")
    }
    fn kill(&self, i: usize) {
        if let Some(c) = self.comps.borrow_mut()[i].take() {
            self.w.sys.kill(c);
        }
    }
    fn alive(&self, i: usize) -> bool {
        self.comps.borrow()[i].is_some()
    }
    /// Sends `msg` to `dst`; returns the sender's path as it arrives.
    fn tell(&self, dst: &ActorPath, msg: M, way: usize) -> Result<String, Violation> {
        let err = |e: SerError| Violation::new("tell failed", format!("{dst} way {way}: {e}"));
        let me = self.sender.on_definition(|cd| cd.ctx.actor_path());
        let mut mine = me.clone();
        mine.set_protocol(dst.protocol());
        let other = NamedPath::with_system(self.sys.clone(), vec!["other".into()]);
        let other: ActorPath = other.into();
        Ok(match way {
            0 => {
                self.sender.on_definition(|cd| dst.tell(msg, cd));
                mine.to_string()
            }
            1 => {
                self.sender.on_definition(|cd| dst.tell_serialised(msg, cd)).map_err(err)?;
                mine.to_string()
            }
            2 => {
                self.sender
                    .on_definition(|cd| {
                        let pre = cd.ctx.preserialise(&msg)?;
                        dst.tell_preserialised(pre, cd)
                    })
                    .map_err(err)?;
                mine.to_string()
            }
            3 => {
                dst.tell_with_sender(msg, &self.w.sys, other.clone());
                other.to_string()
            }
            4 => {
                let n = NetMessage::with_box(msg.ser_id(), me.clone(), me.clone(), Box::new(msg));
                dst.forward_with_original_sender(n, &self.w.sys);
                me.to_string()
            }
            5 => {
                let mut v = vec![];
                msg.serialise(&mut v).map_err(err)?;
                let n = NetMessage::with_bytes(msg.ser_id(), me.clone(), me.clone(), v.into());
                dst.forward_with_sender(n, &self.w.sys, other.clone());
                other.to_string()
            }
            6 => {
                self.sender
                    .on_definition(|cd| {
                        let pre = cd.ctx.preserialise(&msg)?;
                        dst.tell_preserialised_with_sender(pre, cd, other.clone())
                    })
                    .map_err(err)?;
                other.to_string()
            }
            _ => {
                // what the dispatcher gets for remote paths
                let mut eb = EncodeBuffer::with_config(&BufferConfig::default(), &None);
                let mut be = eb.get_buffer_encoder().map_err(err)?;
                let lease = ser_helpers::serialise_msg(&me, dst, &msg, &mut be).map_err(err)?;
                let frame = match way {
                    7 => SerialisedFrame::ChunkLease(lease),
                    8 => SerialisedFrame::ChunkRef(lease.into_chunk_ref()),
                    _ => SerialisedFrame::Bytes(lease.create_byte_clone()),
                };
                let env = DispatchEnvelope::Msg { src: me.clone(), dst: dst.clone(), msg: DispatchData::Serialised(frame) };
                self.w.sys.dispatcher_ref().tell(env);
                me.to_string()
            }
        })
    }
    fn got(&self) -> Vec<Got> {
        self.log.lock().unwrap().clone()
    }
}
const WAYS: usize = 10;

// ------------------------------------------------------------------ C21

enum Expect {
    /// exactly this receiver
    One(u8),
    /// each of these
    All(Vec<u8>),
    /// one of these, or none if one of them is dead
    Some(Vec<u8>),
    /// nobody, and it may be lost
    Nobody,
}

fn target(net: &Net, model: &Model, dst: &ActorPath) -> Expect {
    let sys = kompact::prelude::SystemField::system(dst);
    if sys != &net.sys && sys.protocol() != Transport::Local {
        return Expect::One(LETTERS);
    }
    match dst {
        ActorPath::Unique(u) => match model.ids.get(&u.id().as_u128()) {
            Some(a) => Expect::One(*a as u8),
            None => Expect::One(LETTERS),
        },
        ActorPath::Named(n) => {
            let mut p = n.clone_path();
            if p.is_empty() {
                return Expect::One(LETTERS);
            }
            let marker = match p.last().map(|s| s.as_str()) {
                Some("*") => '*',
                Some("?") => '?',
                _ => ' ',
            };
            if marker != ' ' {
                p.pop();
            }
            let below: Vec<u8> = model.below(&p).into_iter().map(|a| a as u8).collect();
            let exists = p.is_empty() || model.names.keys().any(|k| k.starts_with(&p));
            match (model.names.get(&p), marker) {
                (Some(Ent::Actor(a)), ' ') => Expect::One(*a as u8),
                (Some(Ent::Actor(_)), _) => Expect::One(LETTERS),
                // kind 1 selects, 2 broadcasts
                (Some(Ent::Policy(_, 1)), '*') | (Some(Ent::Policy(_, 2)), '?') => Expect::One(LETTERS),
                (Some(Ent::Policy(_, 1)), _) if below.is_empty() => Expect::Nobody,
                (Some(Ent::Policy(_, 1)), _) => Expect::Some(below),
                (Some(Ent::Policy(..)), _) => Expect::All(below),
                (None, ' ') => Expect::One(LETTERS),
                (None, _) if !exists => Expect::One(LETTERS),
                (None, '*') => Expect::All(below),
                (None, _) if below.is_empty() => Expect::Nobody,
                (None, _) => Expect::Some(below),
            }
        }
    }
}

type Answers = Vec<(KFuture<RegistrationResult>, Result<ActorPath, &'static str>, String)>;

struct Book {
    model: Model,
    answers: Answers,
    sent: Vec<(String, M, Expect)>,
    pol: u8,
}
impl Book {
    fn new() -> Book {
        Book { model: Model { letters: Some(LETTERS as usize), ..Default::default() }, answers: vec![], sent: vec![], pol: 0 }
    }
    fn alias(&mut self, net: &Net, text: &str, c: usize, update: bool) {
        net.w.ctx.log(|| format!("register {text:?} for {c}, update {update}"));
        let comp = net.r(c);
        let f = if update { net.w.sys.update_alias_registration(&comp, text) } else { net.w.sys.register_by_alias(&comp, text) };
        let segs: Vec<String> = text.split('/').map(|s| s.to_string()).collect();
        let want = if segs.iter().any(|s| s.is_empty() || s.contains(['*', '?', '#'])) {
            Err("invalid")
        } else if self.model.names.contains_key(&segs) && !update {
            Err("duplicate")
        } else {
            self.model.names.insert(segs, Ent::Actor(c));
            Ok(net.named(text))
        };
        self.answers.push((f, want, text.to_string()));
    }
    fn policy(&mut self, net: &Net, text: &str, kind: usize, update: bool) {
        net.w.ctx.log(|| format!("policy {text:?} of kind {kind}, update {update}"));
        let sys = &net.w.sys;
        let f = match kind {
            1 => sys.set_routing_policy(RoundRobinRouting::default(), text, update),
            2 => sys.set_routing_policy(BroadcastRouting, text, update),
            _ => sys.set_routing_policy(SenderDefaultHashBucketRouting::default(), text, update),
        };
        let kind = if kind == 2 { 2 } else { 1 };
        let segs: Vec<String> = text.split('/').map(|s| s.to_string()).collect();
        let want = if segs.iter().any(|s| s.is_empty() || s.contains(['*', '?', '#'])) {
            Err("invalid")
        } else if self.model.names.contains_key(&segs) && !update {
            Err("duplicate")
        } else {
            self.model.names.insert(segs, Ent::Policy(self.pol, kind));
            self.pol += 1;
            Ok(net.named(text))
        };
        self.answers.push((f, want, text.to_string()));
    }
    fn id(&mut self, net: &Net, c: usize) {
        net.w.ctx.log(|| format!("register {c}"));
        let f = net.w.sys.register(&net.r(c));
        let id = net.ids[c];
        let want = if self.model.ids.contains_key(&id) {
            Err("duplicate")
        } else {
            self.model.ids.insert(id, c);
            Ok(net.unique(c))
        };
        self.answers.push((f, want, format!("{c}")));
    }
    fn tell(&mut self, net: &Net, dst: &ActorPath, way: usize) -> Outcome {
        let m = m(way as u8, 0, self.sent.len() as u8);
        net.w.ctx.log(|| format!("tell {dst} {m:?}"));
        let from = net.tell(dst, m, way)?;
        self.sent.push((from, m, target(net, &self.model, dst)));
        Ok(())
    }
    /// Once everything is quiet.
    fn check(&mut self, net: &Net) -> Outcome {
        for (f, want, what) in &mut self.answers {
            let got = match poll_once(f) {
                Poll::Ready(Ok(r)) => r,
                o => return Err(Violation::new("no answer", format!("registration of {what}: {o:?}"))),
            };
            let ok = match (&got, &want) {
                (Ok(p), Ok(q)) => p == q,
                (Err(RegistrationError::DuplicateEntry), Err("duplicate")) => true,
                (Err(RegistrationError::InvalidPath(_)), Err("invalid")) => true,
                _ => false,
            };
            ensure!(ok, "wrong answer", "registration of {what}: {got:?} instead of {want:?}");
        }
        let all = net.got();
        net.w.ctx.outcome(&all);
        net.w.ctx.state(&(&self.model, &all));
        for (from, m, exp) in &self.sent {
            let got: Vec<u8> = all.iter().filter(|g| g.2 == *m).map(|g| g.0).collect();
            let dead = |w: &u8| *w != LETTERS && !net.alive(*w as usize);
            let (ok, want) = match exp {
                Expect::One(w) => (got == [*w] || dead(w) && got.is_empty(), vec![*w]),
                Expect::All(ws) => {
                    let mut live: Vec<u8> = ws.iter().copied().filter(|w| !dead(w)).collect();
                    let mut have: Vec<u8> = got.iter().copied().filter(|w| !dead(w)).collect();
                    let extra = got.iter().filter(|w| dead(w)).count() <= ws.iter().filter(|w| dead(w)).count();
                    live.sort();
                    have.sort();
                    (live == have && extra && got.iter().all(|g| ws.contains(g)), ws.clone())
                }
                Expect::Some(ws) => {
                    ((got.len() == 1 || got.is_empty() && ws.iter().any(dead)) && got.iter().all(|g| ws.contains(g)), ws.clone())
                }
                Expect::Nobody => (got.is_empty() || got == [LETTERS], vec![]),
            };
            ensure!(ok, "wrong receiver", "{m:?} went to {got:?} instead of {want:?}");
            for g in all.iter().filter(|g| g.2 == *m) {
                ensure!(g.1 == *from, "wrong sender", "{m:?} came from {} instead of {from}", g.1);
            }
        }
        ensure!(
            all.iter().all(|g| self.sent.iter().any(|s| s.1 == g.2)),
            "invented message",
            "{all:?}"
        );
        // order
        for w in all.iter().map(|g| g.0) {
            let seqs: Vec<u8> = all.iter().filter(|g| g.0 == w).map(|g| g.2.seq).collect();
            ensure!(seqs.is_sorted(), "reordered", "{w} got {seqs:?}");
        }
        Ok(())
    }
}
const DSTS: usize = 13;
fn dst(net: &Net, k: usize) -> ActorPath {
    let far = SystemPath::new(Transport::Tcp, "10.0.0.1".parse().unwrap(), 4000);
    let near = SystemPath::new(Transport::Local, "10.0.0.9".parse().unwrap(), 77);
    match k {
        0 => net.named("x"),
        1 => net.unique(B),
        2 => net.named("g"),
        3 => net.named("g/x"),
        4 => net.named("g/*"),
        5 => net.named("g/?"),
        6 => net.unique(A),
        7 => net.named(""),
        8 => net.named("?"),
        9 => net.named("*"),
        10 => NamedPath::with_system(far, vec!["x".into()]).into(),
        11 => NamedPath::with_system(near, vec!["x".into()]).into(),
        _ => net.named("x/y"),
    }
}

/// Registrations, deaths, and messages in every order, with the work in between in every order.
fn histories(depth: usize, dsts: usize, ways: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let net = Net::new(ctx, 2)?;
        let mut b = Book::new();
        let n = 1 + ctx.pick(depth);
        for _ in 0..n {
            match ctx.pick(6) {
                0 => {
                    let t = *ctx.pick_of(&["x", "g/x", "g/y"]);
                    let c = if net.alive(B) { ctx.pick(2) } else { A };
                    let u = ctx.pick(2) == 1;
                    b.alias(&net, t, c, u);
                }
                1 => {
                    let c = if net.alive(B) { 1 - ctx.pick(2) } else { A };
                    b.id(&net, c);
                }
                2 => {
                    let (t, k, u) = *ctx.pick_of(&[("g", 1, false), ("g", 2, true), ("x", 1, true), ("g/*", 1, true)]);
                    b.policy(&net, t, k, u);
                }
                3 => {
                    let d = dst(&net, ctx.pick(dsts));
                    let way = [0, 2, 4, 7][ctx.pick(ways)];
                    b.tell(&net, &d, way)?;
                }
                4 => {
                    if !net.alive(B) {
                        return Ok(());
                    }
                    ctx.log(|| "kill B".to_string());
                    net.kill(B);
                }
                _ => {
                    // one piece of work
                    if !net.w.step()? {
                        return Ok(());
                    }
                }
            }
        }
        net.w.drain()?;
        b.check(&net)
    }
}

/// Illegal requests change nothing.
fn refused(ctx: &Ctx) -> Outcome {
    let net = Net::new(ctx, 2)?;
    let mut b = Book::new();
    b.alias(&net, "x", A, false);
    b.alias(&net, "g/x", A, false);
    for _ in 0..2 {
        let t = *ctx.pick_of(&["*", "?", "g/*", "x/?", "", "/x", "x/", "g//x", "g/*/x", "#x", "x"]);
        match ctx.pick(3) {
            0 => b.alias(&net, t, B, false),
            1 => b.alias(&net, t, B, true),
            _ => b.policy(&net, t, 1, ctx.pick(2) == 1),
        }
    }
    for k in [0, 3, 4] {
        b.tell(&net, &dst(&net, k), 0)?;
    }
    net.w.drain()?;
    b.check(&net)
}

/// Every way of sending to every kind of destination.
fn ways(len: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let net = Net::new(ctx, 2)?;
        let mut b = Book::new();
        b.alias(&net, "x", A, false);
        b.id(&net, B);
        match ctx.pick(4) {
            0 => {}
            1 => b.policy(&net, "g", 1, false),
            2 => b.policy(&net, "g", 2, false),
            _ => b.policy(&net, "g", 3, false),
        }
        if ctx.pick(2) == 1 {
            b.alias(&net, "g/x", A, false);
            b.alias(&net, "g/y/z", B, false);
        }
        for _ in 0..len {
            let d = dst(&net, ctx.pick(DSTS));
            let way = ctx.pick(WAYS);
            b.tell(&net, &d, way)?;
        }
        net.w.drain()?;
        b.check(&net)
    }
}

// ------------------------------------------------------------------ C20

const SENDERS: [&str; 3] = ["s", "other", "third"];

/// What one policy has done since its membership changed last.
#[derive(Default)]
struct Since {
    chosen: Vec<(usize, Option<u8>)>,
}
impl Since {
    fn note(&mut self, rr: bool, n: usize, sender: usize, to: Option<u8>, what: &str) -> Outcome {
        self.chosen.push((sender, to));
        if rr {
            // a full round visits everyone once, and rounds are the same
            for (i, c) in self.chosen.iter().enumerate() {
                if i >= n {
                    ensure!(c.1 == self.chosen[i - n].1, "round robin order", "{what}: {:?} with {n} members", self.chosen);
                }
            }
        } else {
            for c in &self.chosen {
                ensure!(c.0 != sender || c.1 == to, "hash moved", "{what}: sender {sender} chose {:?}", self.chosen);
            }
        }
        Ok(())
    }
    fn round(&self, n: usize) -> Vec<Option<u8>> {
        let mut v: Vec<Option<u8>> = self.chosen.iter().map(|c| c.1).take(n).collect();
        v.sort();
        v
    }
}

/// The policies used directly, with changing members.
fn direct(max: usize, len: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let net = Net::new(ctx, max)?;
        let refs: Vec<DynActorRef> = (0..max).map(|i| net.r(i).actor_ref().dyn_ref()).collect();
        let kind = ctx.pick(5);
        let log: &KompactLogger = net.w.sys.logger();
        let rr = StorePolicy::from(RoundRobinRouting::default());
        let mut policy: StorePolicy = match kind {
            0 => rr,
            1 => StorePolicy::from(SenderDefaultHashBucketRouting::default()),
            2 => StorePolicy::from(SenderHashBucketRouting::<BuildHasherDefault<DefaultHasher>>::new(Default::default(), NetMessage::sender)),
            3 => StorePolicy::from(DEFAULT_SELECT_POLICY),
            _ => StorePolicy::from(BroadcastRouting),
        };
        let mut members: Vec<usize> = (0..ctx.pick(max + 1)).collect();
        let mut since = Since::default();
        for i in 0..len {
            match ctx.pick(6) {
                k @ 0..3 => {
                    let me: ActorPath = net.named(SENDERS[k]);
                    let refs: Vec<&DynActorRef> = members.iter().map(|m| &refs[*m]).collect();
                    let group = RoutingGroup::new(refs, std::ops::Deref::deref(&policy));
                    let x = m(k as u8, 0, i as u8);
                    let lazy = ctx.pick(2) == 0;
                    let msg = if lazy {
                        NetMessage::with_box(x.ser_id(), me.clone(), net.named("g"), Box::new(x))
                    } else {
                        NetMessage::with_bytes(x.ser_id(), me.clone(), net.named("g"), vec![x.from, x.route, x.seq].into())
                    };
                    ctx.log(|| format!("route {x:?} to {members:?}"));
                    group.route(msg, log);
                    net.w.settle()?;
                    let mut got: Vec<u8> = net.got().iter().filter(|g| g.2 == x && g.1 == me.to_string()).map(|g| g.0).collect();
                    got.sort();
                    if kind == 4 {
                        let want: Vec<u8> = members.iter().map(|m| *m as u8).collect();
                        ensure!(got == want, "broadcast", "{x:?} went to {got:?} instead of {want:?}");
                    } else if members.is_empty() {
                        ensure!(got.is_empty(), "empty group", "{x:?} went to {got:?}");
                    } else {
                        ensure!(got.len() == 1 && members.contains(&(got[0] as usize)), "select", "{x:?} went to {got:?} of {members:?}");
                        since.note(kind == 0, members.len(), k, Some(got[0]), "direct")?;
                        if kind == 0 && since.chosen.len() >= members.len() {
                            // in the order of the members
                            let c: Vec<usize> = since.chosen.iter().map(|c| c.1.unwrap() as usize).collect();
                            for p in c.windows(2) {
                                let at = members.iter().position(|x| *x == p[0]).unwrap();
                                ensure!(p[1] == members[(at + 1) % members.len()], "round robin order", "{c:?} over {members:?}");
                            }
                        }
                    }
                }
                3 => {
                    policy = policy.clone();
                }
                4 => {
                    if members.len() == max {
                        return Ok(());
                    }
                    let new = (0..max).find(|m| !members.contains(m)).unwrap();
                    members.push(new);
                    members.sort();
                    since = Since::default();
                }
                _ => {
                    if members.is_empty() {
                        return Ok(());
                    }
                    let at = ctx.pick(members.len());
                    members.remove(at);
                    since = Since::default();
                }
            }
            ctx.state(&(kind, &members, &since.chosen));
            ctx.step();
        }
        ensure!(net.got().len() <= len * max, "invented message", "{:?}", net.got());
        Ok(())
    }
}

/// Buckets are in range and depend on the field alone.
fn buckets(ctx: &Ctx) -> Outcome {
    #[derive(Debug, Clone)]
    struct F {
        key: u32,
        other: u32,
    }
    fn key(f: &F) -> &u32 {
        &f.key
    }
    let p = FieldHashBucketRouting::new(DefaultHasherBuilder, key);
    let q = p;
    let k = ctx.pick(64) as u32;
    let n = 1 + ctx.pick(40);
    let mut seen = BTreeMap::new();
    for other in 0..3 {
        let f = F { key: k, other };
        let b = p.get_bucket(&f, n);
        ensure!(b < n, "bucket", "{b} of {n}");
        ensure!(q.get_bucket(&f, n) == b, "bucket", "a copy chooses differently");
        ensure!(p.hash_message(&f) == p.hash_field(&f.key), "bucket", "hash of {f:?}");
        seen.insert(b, other + f.other);
    }
    ensure!(seen.len() == 1, "bucket", "depends on other fields: {seen:?}");
    ctx.state(&(k, n));
    Ok(())
}

/// Groups made by registration.
fn groups(len: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let net = Net::new(ctx, 3)?;
        let kind = ctx.pick(4); // none, round robin, broadcast, hash
        let mut b = Book::new();
        let late = ctx.pick(2) == 1;
        if kind > 0 && !late {
            b.policy(&net, "g", kind, false);
        }
        let spots = [("g/a", A), ("g/b", B), ("g/s/c", C), ("g/d", A)];
        let set = ctx.pick(16);
        for (i, (t, c)) in spots.iter().enumerate() {
            if set >> i & 1 == 1 {
                b.alias(&net, t, *c, false);
            }
        }
        if kind > 0 && late {
            b.policy(&net, "g", kind, false);
        }
        net.w.settle()?;
        let mut since: BTreeMap<&str, Since> = BTreeMap::new();
        for i in 0..len {
            match ctx.pick(4) {
                k @ 0..2 => {
                    let to = *ctx.pick_of(&["g", "g/?", "g/*"]);
                    let from: ActorPath = net.named(SENDERS[k]);
                    let x = m(k as u8, 0, i as u8);
                    ctx.log(|| format!("tell {to} {x:?}"));
                    let d = net.named(to);
                    let exp = target(&net, &b.model, &d);
                    d.tell_with_sender(x, &net.w.sys, from.clone());
                    b.sent.push((from.to_string(), x, exp));
                    net.w.settle()?;
                    let got: Vec<u8> = net.got().iter().filter(|g| g.2 == x).map(|g| g.0).collect();
                    let below = b.model.below(&owned(&["g"]));
                    if kind == 1 && to != "g/*" || kind == 3 && to != "g/*" || kind == 0 && to == "g/?" {
                        let n = below.len();
                        if n > 0 {
                            let s = since.entry("").or_default();
                            s.note(kind == 1, n, k, got.first().copied(), to)?;
                            if kind == 1 && s.chosen.len() == n && net.alive(B) {
                                let mut want: Vec<Option<u8>> = below.iter().map(|b| Some(*b as u8)).collect();
                                want.sort();
                                ensure!(s.round(n) == want, "round robin misses", "{:?} instead of {want:?}", s.round(n));
                            }
                        }
                    }
                }
                2 => {
                    let (t, c) = *ctx.pick_of(&[("g/a", C), ("g/e", A), ("h", A), ("g/a", A)]);
                    let u = ctx.pick(2) == 1;
                    let before = b.model.names.clone();
                    b.alias(&net, t, c, u);
                    net.w.settle()?;
                    let grown: Vec<_> = b.model.names.iter().filter(|n| n.0.len() > 1).collect();
                    let old: Vec<_> = before.iter().filter(|n| n.0.len() > 1).collect();
                    if grown != old {
                        since.clear();
                    }
                }
                _ => {
                    if !net.alive(B) {
                        return Ok(());
                    }
                    net.kill(B);
                    net.w.settle()?;
                    since.clear();
                }
            }
        }
        net.w.settle()?;
        b.check(&net)
    }
}

/// A message which cannot be copied reaches all members of a broadcast, or none of several.
fn uncopyable(ctx: &Ctx) -> Outcome {
    #[derive(Debug)]
    struct NoCopy(bool);
    impl Serialisable for NoCopy {
        fn ser_id(&self) -> SerId {
            <M as Deserialiser<M>>::SER_ID
        }
        fn size_hint(&self) -> Option<usize> {
            None
        }
        fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
            if self.0 {
                buf.put_slice(&[1, 2, 3]);
                Ok(())
            } else {
                Err(SerError::invalid_data("planned"))
            }
        }
        fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
            Ok(Box::new(m(1, 2, 3)))
        }
    }
    let n = ctx.pick(4);
    let ok = ctx.pick(2) == 1;
    let net = Net::new(ctx, n)?;
    let mut b = Book::new();
    let explicit = ctx.pick(2) == 1;
    if explicit {
        b.policy(&net, "g", 2, false);
    }
    for i in 0..n {
        b.alias(&net, &format!("g/{i}"), i, false);
    }
    net.named("g/*").tell_with_sender(Box::new(NoCopy(ok)) as Box<dyn Serialisable>, &net.w.sys, net.named("s"));
    net.w.settle()?;
    let got: Vec<u8> = net.got().iter().filter(|g| g.2 == m(1, 2, 3)).map(|g| g.0).collect();
    let mut sorted = got.clone();
    sorted.sort();
    sorted.retain(|g| *g != LETTERS);
    let all: Vec<u8> = (0..n as u8).collect();
    let want = if ok || n == 1 { all } else { vec![] };
    ensure!(sorted == want, "uncopyable", "serialisable {ok}: went to {got:?} of {n}");
    // the dispatcher still works
    if n > 0 {
        b.alias(&net, "later", 0, false);
        b.tell(&net, &net.named("later"), 0)?;
    }
    net.w.settle()?;
    ctx.state(&(n, ok, explicit));
    for (f, _, what) in &mut b.answers {
        ensure!(poll_once(f).is_ready(), "no answer", "{what}");
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C20",
            level: "model_checking",
            rule: "every sequence of routed messages, membership changes, deaths and copies of the policy up to the length, for every policy, used directly and through the dispatcher, with members and choices compared with the policy's rule",
            assumptions: vec![],
            scenarios: Box::new(|t| {
                vec![
                    Scenario::new("direct", 0, direct(3, t.or(5, 6))).same_thread().weight(2),
                    Scenario::new("four members", 0, direct(4, t.or(4, 5))).same_thread().weight(2),
                    Scenario::new("buckets", 0, buckets).same_thread(),
                    Scenario::new("groups", 0, groups(t.or(3, 5))).same_thread().weight(3),
                    Scenario::new("uncopyable", 0, uncopyable).same_thread(),
                ]
            }),
        },
        Check {
            id: "C21",
            level: "model_checking",
            rule: "every history of registrations, policies, deaths and messages up to the depth, in every order of the resulting work (deviation bound), every way of sending to every kind of path",
            assumptions: vec!["a path keeps its registration when its actor dies, as the local dispatcher does not clean up; messages to it may be lost".into()],
            scenarios: Box::new(|t| {
                vec![
                    Scenario::new("histories", 2, histories(t.or(3, 4), 8, t.or(2, 3))).weight(3),
                    Scenario::new("all destinations", 1, histories(t.or(2, 3), DSTS, 4)).weight(2),
                    Scenario::new("refused", 0, refused),
                    Scenario::new("ways", 0, ways(t.or(2, 3))).weight(2),
                ]
            }),
        },
    ]
}
