//! C19: the lookup table for actor paths against a map of names.

use crate::{
    common::{M, m},
    world::World,
};
use explore::{Check, Ctx, Outcome, Scenario, ensure};
use kompact::{
    KompactLogger,
    lookup::{ActorLookup, ActorStore, InsertResult, LookupResult},
    messaging::{NetMessage, PathResolvable},
    prelude::*,
    routing::groups::{RoutingPolicy, StorePolicy},
};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    sync::{
        Arc,
        atomic::{AtomicU64, Ordering},
    },
};
use uuid::Uuid;

/// Counts the network messages it gets.
#[derive(ComponentDefinition)]
struct Counter {
    ctx: ComponentContext<Self>,
    n: Arc<AtomicU64>,
}
ignore_lifecycle!(Counter);
impl Actor for Counter {
    type Message = Never;
    fn receive_local(&mut self, _m: Never) -> HandlerResult {
        unreachable!()
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        self.n.fetch_add(1, Ordering::SeqCst);
        Handled::OK
    }
}

struct One {
    c: Option<Arc<Component<Counter>>>,
    r: DynActorRef,
    n: Arc<AtomicU64>,
}
/// A system and its actors are shared by the executions of one thread; actor `MORTAL` is renewed
/// after it died.
struct Rig {
    w: World,
    actors: Vec<One>,
}
const MORTAL: usize = 2;
const LETTERS: usize = 3;
impl Rig {
    fn new(ctx: &Ctx) -> Rig {
        let mut r = Rig { w: World::new(ctx), actors: vec![] };
        for _ in 0..4 {
            let a = r.actor();
            r.actors.push(a);
        }
        r
    }
    fn actor(&self) -> One {
        let n: Arc<AtomicU64> = Default::default();
        let n2 = n.clone();
        let c = self.w.sys.create_unsupervised(move || Counter { ctx: ComponentContext::uninitialised(), n: n2 });
        self.w.sys.start(&c);
        self.run();
        let r = c.actor_ref().dyn_ref();
        One { c: Some(c), r, n }
    }
    fn run(&self) {
        loop {
            let j = self.w.jobs.pop();
            match j {
                Some(j) => j(),
                None => break,
            }
        }
    }
    fn renew(&mut self) {
        if self.actors[MORTAL].c.is_none() {
            self.actors[MORTAL] = self.actor();
        }
    }
    fn dead(&self, a: usize) -> bool {
        self.actors[a].c.is_none()
    }
    /// Who was called since the last time.
    fn counts(&self) -> Vec<u64> {
        self.run();
        self.actors.iter().map(|a| a.n.swap(0, Ordering::SeqCst)).collect()
    }
}
thread_local! {
    static RIG: RefCell<Option<Rig>> = const { RefCell::new(None) };
    static USED: RefCell<Vec<(u8, char)>> = const { RefCell::new(vec![]) };
}

/// A policy which tells everyone and leaves a note about which part of it was used.
#[derive(Debug, Clone)]
struct Tag {
    id: u8,
    part: char,
    b: Option<Box<Tag>>,
    s: Option<Box<Tag>>,
}
fn tag(id: u8, kind: usize) -> Tag {
    let part = |p| Some(Box::new(Tag { id, part: p, b: None, s: None }));
    Tag {
        id,
        part: 't',
        b: if kind != 1 { part('b') } else { None },
        s: if kind != 2 { part('s') } else { None },
    }
}
impl RoutingPolicy<DynActorRef, NetMessage> for Tag {
    fn route(&self, members: &[&DynActorRef], msg: NetMessage, _logger: &KompactLogger) {
        USED.with(|u| u.borrow_mut().push((self.id, self.part)));
        for m in members {
            m.tell(msg.try_clone().expect("clone"));
        }
    }
    fn boxed_clone(&self) -> Box<dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync> {
        Box::new(self.clone())
    }
    fn broadcast(&self) -> Option<&(dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync)> {
        self.b.as_ref().map(|b| &**b as _)
    }
    fn select(&self) -> Option<&(dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync)> {
        self.s.as_ref().map(|b| &**b as _)
    }
}

const NAMES: [&[&str]; 7] = [&["a"], &["b"], &["ab"], &["a", "b"], &["a", "c"], &["a", "b", "d"], &["b", "é e"]];
const ABSENT: [&[&str]; 4] = [&["c"], &["a", "b", "d", "e"], &["a", "b", "c"], &["ab", "b"]];
const IDS: [u128; 2] = [1, u128::MAX - 3];
pub fn owned(p: &[&str]) -> Vec<String> {
    p.iter().map(|s| s.to_string()).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ent {
    Actor(usize),
    /// id and kind (0: both, 1: only select, 2: only broadcast)
    Policy(u8, usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model {
    pub ids: BTreeMap<u128, usize>,
    pub names: BTreeMap<Vec<String>, Ent>,
    pub letters: Option<usize>,
}
impl Model {
    pub fn below(&self, p: &[String]) -> Vec<usize> {
        self.names
            .iter()
            .filter(|(k, _)| k.len() > p.len() && k.starts_with(p))
            .filter_map(|(_, e)| if let Ent::Actor(a) = e { Some(*a) } else { None })
            .collect()
    }
}

fn message(sys: &SystemPath) -> NetMessage {
    let me = NamedPath::with_system(sys.clone(), vec!["me".into()]);
    NetMessage::with_box(M::SER_ID, me.clone().into(), me.into(), Box::new(m(0, 0, 0)))
}

struct Run<'a> {
    rig: &'a mut Rig,
    sys: SystemPath,
}
impl Run<'_> {
    fn is(&self, r: &DynActorRef, a: usize) -> bool {
        if self.rig.dead(a) { !r.can_upgrade_component() } else { *r == self.rig.actors[a].r }
    }
    fn same_entry(&self, what: &str, got: InsertResult, want: Option<Ent>) -> Outcome {
        let ok = match (&got, &want) {
            (InsertResult::None, None) => true,
            (InsertResult::Ref(r), Some(Ent::Actor(a))) => self.is(r, *a),
            (InsertResult::Policy(p), Some(Ent::Policy(id, _))) => {
                p.route(&[], message(&self.sys), self.rig.w.sys.logger());
                USED.with(|u| u.borrow_mut().pop()) == Some((*id, 't'))
            }
            _ => false,
        };
        ensure!(ok, "previous entry", "{what} gave {got:?} instead of {want:?}");
        ensure!(got.is_empty() == want.is_none(), "previous entry", "{what}: is_empty");
        Ok(())
    }
    fn named(&self, p: &[&str]) -> ActorPath {
        NamedPath::with_system(self.sys.clone(), owned(p)).into()
    }

    /// Every query gives what the model says.
    fn queries(&self, ctx: &Ctx, s: &ActorStore, model: &Model, when: &str) -> Outcome {
        for id in IDS.iter().chain(&[7u128]) {
            let u = Uuid::from_u128(*id);
            let want = model.ids.get(id);
            let path: ActorPath = UniquePath::with_system(self.sys.clone(), u).into();
            let got = s.get_by_uuid(&u);
            let other = s.get_by_actor_path(&path);
            let ok = match (got, &other, want) {
                (None, LookupResult::None, None) => true,
                (Some(r), LookupResult::Ref(q), Some(a)) => self.is(r, *a) && self.is(q, *a),
                _ => false,
            };
            ensure!(ok, "lookup of id", "{when}: {id} finds {got:?} and {other:?} instead of {want:?}");
            ensure!(
                s.contains(&PathResolvable::ActorId(u)) == want.is_some() && s.contains(&PathResolvable::Path(path)) == want.is_some(),
                "contains id",
                "{when}: {id}"
            );
        }
        ensure!(s.contains(&PathResolvable::System) == model.letters.is_some(), "contains system", "{when}");
        let none: &[&str] = &[];
        match (s.get_by_named_path(&[]), model.letters) {
            (LookupResult::Ref(r), Some(a)) if self.is(r, a) => {}
            (LookupResult::None, None) => {}
            (g, w) => ensure!(false, "lookup of the system", "{when}: {g:?} instead of {w:?}"),
        }
        for p in NAMES.iter().chain(&ABSENT).chain(&[none]) {
            let segs = owned(p);
            let want = model.names.get(&segs);
            if !p.is_empty() {
                let text = segs.join("/");
                for (k, q) in [PathResolvable::Alias(text), PathResolvable::Segments(segs.clone()), PathResolvable::Path(self.named(p))]
                    .into_iter()
                    .enumerate()
                {
                    ensure!(s.contains(&q) == want.is_some(), "contains name", "{when}: {p:?} as {k}, {want:?}");
                }
            }
            for marker in ["", "*", "?"] {
                let mut q = segs.clone();
                if !marker.is_empty() {
                    q.push(marker.into());
                } else if p.is_empty() {
                    continue;
                }
                let exists = p.is_empty() || want.is_some() || model.names.keys().any(|k| k.starts_with(&segs));
                let full: ActorPath = NamedPath::with_system(self.sys.clone(), q.clone()).into();
                let r = if marker.is_empty() { s.get_by_named_path(&q) } else { s.get_by_actor_path(&full) };
                ensure!(r.is_empty() == matches!(r, LookupResult::None), "is_empty", "{when}");
                let what = format!("{when}: {q:?}");
                match (want, marker) {
                    (Some(Ent::Actor(a)), "") => match r {
                        LookupResult::Ref(r) if self.is(r, *a) => {}
                        r => ensure!(false, "lookup of name", "{what} finds {r:?} instead of {a}"),
                    },
                    (Some(Ent::Actor(_)), _) => {
                        ensure!(matches!(r, LookupResult::Err(_)), "lookup of group", "{what} finds {r:?}, there is an actor")
                    }
                    (Some(Ent::Policy(id, kind)), mk) => {
                        let part = match mk {
                            "*" => 'b',
                            "?" => 's',
                            _ => 't',
                        };
                        let fits = !matches!((part, kind), ('b', 1) | ('s', 2));
                        match r {
                            LookupResult::Err(_) if !fits => {}
                            LookupResult::Group(g) if fits => {
                                g.route(message(&self.sys), self.rig.w.sys.logger());
                                let used = USED.with(|u| std::mem::take(&mut *u.borrow_mut()));
                                ensure!(used == [(*id, part)], "policy", "{what} used {used:?} instead of {:?}", (id, part));
                                self.members(&model.below(&segs), true, &what)?;
                            }
                            r => ensure!(false, "lookup of group", "{what} finds {r:?}, policy kind {kind}"),
                        }
                    }
                    (None, "") => ensure!(r.is_empty(), "lookup of absent name", "{what} finds {r:?}"),
                    (None, mk) => match r {
                        LookupResult::None if !exists => {}
                        // an empty tree may have an empty group
                        LookupResult::Group(g) if exists => {
                            let below = model.below(&segs);
                            if !below.is_empty() {
                                g.route(message(&self.sys), self.rig.w.sys.logger());
                                self.members(&below, mk == "*", &what)?;
                            }
                        }
                        r => ensure!(false, "lookup of implicit group", "{what} finds {r:?}, there is something: {exists}"),
                    },
                }
            }
        }
        ctx.state(model);
        Ok(())
    }

    /// A message went to all (or one) of these.
    fn members(&self, want: &[usize], all: bool, what: &str) -> Outcome {
        let mut n = vec![0u64; 4];
        for a in want {
            if !self.rig.dead(*a) {
                n[*a] += 1;
            }
        }
        let got = self.rig.counts();
        if all {
            ensure!(got == n, "members", "{what} delivered {got:?} instead of {n:?}");
        } else {
            let dead = want.iter().any(|a| self.rig.dead(*a));
            let total: u64 = got.iter().sum();
            ensure!(
                (total == 1 || dead && total == 0) && got.iter().zip(&n).all(|(g, n)| g <= n),
                "members",
                "{what} delivered {got:?} for members {n:?}"
            );
        }
        Ok(())
    }
}

/// Level 2: all operations and names, 1: few names, 0: also fewer kinds of operations.
fn history(depth: usize, level: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        RIG.with(|r| {
            let mut r = r.borrow_mut();
            let rig = r.get_or_insert_with(|| Rig::new(ctx));
            rig.renew();
            rig.counts();
            let res = one_history(ctx, rig, depth, level);
            if res.is_err() {
                *r = None;
            }
            res
        })
    }
}
fn one_history(ctx: &Ctx, rig: &mut Rig, depth: usize, level: usize) -> Outcome {
    let full = level == 2;
    let sys = SystemPath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 0);
    let run = Run { rig, sys };
    let mut store = ActorStore::new();
    let mut model = Model::default();
    let mut old: Option<(ActorStore, Model)> = None;
    let n = 1 + ctx.pick(depth);
    let names: &[&[&str]] = if full { &NAMES } else { &[NAMES[0], NAMES[3], NAMES[5]] };
    let mut pol = 0;
    let mut what = String::new();
    let actor = |run: &Run, ctx: &Ctx| if full { ctx.pick(3) } else { [0, MORTAL][ctx.pick(2)] }.min(if run.rig.dead(MORTAL) { 1 } else { 3 });
    for _ in 0..n {
        let kinds = if level > 0 { 11 } else { 7 };
        match ctx.pick(kinds) {
            0 => {
                let p = ctx.pick_of(names);
                let a = actor(&run, ctx);
                let way = ctx.pick(if full { 3 } else { 1 });
                what = format!("insert {p:?} {a} way {way}");
                let key = match way {
                    0 => PathResolvable::Alias(p.join("/")),
                    1 => PathResolvable::Segments(owned(p)),
                    _ => PathResolvable::Path(run.named(p)),
                };
                let got = store.insert(key, run.rig.actors[a].r.clone());
                let want = model.names.insert(owned(p), Ent::Actor(a));
                match got {
                    Ok(g) => run.same_entry(&what, g, want)?,
                    Err(e) => ensure!(false, "insert refused", "{what}: {e:?}"),
                }
            }
            1 => {
                let p = ctx.pick_of(names);
                let kind = ctx.pick(if full { 3 } else { 1 });
                what = format!("policy {p:?} {kind}");
                let got = store.set_routing_policy(&owned(p), StorePolicy::from(tag(pol, kind)));
                let want = model.names.insert(owned(p), Ent::Policy(pol, kind));
                pol += 1;
                match got {
                    Ok(g) => run.same_entry(&what, g, want)?,
                    Err(e) => ensure!(false, "policy refused", "{what}: {e:?}"),
                }
            }
            2 => {
                let absent = if full { ctx.pick(2) } else { 0 };
                let p = if absent == 1 { ctx.pick_of(&ABSENT) } else { ctx.pick_of(names) };
                what = format!("remove {p:?}");
                let got = store.remove_by_named_path(&owned(p));
                let want = model.names.remove(&owned(p)).is_some();
                ensure!(got == want, "remove name", "{what}: {got}");
            }
            3 => {
                let a = actor(&run, ctx);
                what = format!("remove actor {a}");
                let got = store.remove(run.rig.actors[a].r.clone());
                let before = model.ids.len() + model.names.len();
                model.ids.retain(|_, x| *x != a);
                model.names.retain(|_, x| *x != Ent::Actor(a));
                let want = before - model.ids.len() - model.names.len();
                ensure!(got == want, "remove actor", "{what}: {got} instead of {want}");
            }
            4 => {
                what = "kill".into();
                run.rig.actors[MORTAL].c = None;
                run.rig.run();
            }
            5 => {
                what = "cleanup".into();
                let got = store.cleanup();
                let mut want = 0;
                if run.rig.dead(MORTAL) {
                    let before = model.ids.len() + model.names.len();
                    model.ids.retain(|_, x| *x != MORTAL);
                    model.names.retain(|_, x| *x != Ent::Actor(MORTAL));
                    want = before - model.ids.len() - model.names.len();
                }
                ensure!(got == want, "cleanup", "{got} instead of {want}");
            }
            6 => {
                let id = *ctx.pick_of(&IDS);
                let a = actor(&run, ctx);
                let way = ctx.pick(if full { 2 } else { 1 });
                what = format!("insert {id} {a} way {way}");
                let u = Uuid::from_u128(id);
                let key = match way {
                    0 => PathResolvable::ActorId(u),
                    _ => PathResolvable::Path(UniquePath::with_system(run.sys.clone(), u).into()),
                };
                let got = store.insert(key, run.rig.actors[a].r.clone());
                let want = model.ids.insert(id, a).map(Ent::Actor);
                match got {
                    Ok(g) => run.same_entry(&what, g, want)?,
                    Err(e) => ensure!(false, "insert refused", "{what}: {e:?}"),
                }
            }
            7 => {
                let id = *ctx.pick_of(&IDS);
                what = format!("remove {id}");
                let got = store.remove_by_uuid(&Uuid::from_u128(id));
                ensure!(got == model.ids.remove(&id).is_some(), "remove id", "{what}: {got}");
            }
            8 => {
                what = "insert the system".into();
                let got = store.insert(PathResolvable::System, run.rig.actors[LETTERS].r.clone());
                let want = model.letters.replace(LETTERS).map(Ent::Actor);
                match got {
                    Ok(g) => run.same_entry(&what, g, want)?,
                    Err(e) => ensure!(false, "insert refused", "{what}: {e:?}"),
                }
            }
            9 => {
                let all = ["a/*", "?", "*", "a/?", "", "a//b", "/a", "a/", "a/*/b", "a#b"];
                let text = *ctx.pick_of(&all[..if full { all.len() } else { 1 }]);
                let a = run.rig.actors[0].r.clone();
                let way = ctx.pick(4);
                let segs: Vec<String> = text.split('/').map(|s| s.to_string()).collect();
                what = format!("insert illegal {text:?} way {way}");
                let got = match way {
                    0 => store.insert(PathResolvable::Alias(text.into()), a),
                    1 => store.insert(PathResolvable::Segments(segs), a),
                    2 => store.set_routing_policy(&segs, StorePolicy::from(tag(99, 0))),
                    // paths to several actors can be made
                    _ => {
                        let text = if text.ends_with('*') { "a/*" } else { "?" };
                        let segs: Vec<String> = text.split('/').map(|s| s.to_string()).collect();
                        let p: ActorPath = NamedPath::with_system(run.sys.clone(), segs).into();
                        store.insert(PathResolvable::Path(p), a)
                    }
                };
                ensure!(got.is_err(), "illegal path", "{what} is accepted");
            }
            _ => {
                what = "clone".into();
                old = Some((store.clone(), model.clone()));
            }
        }
        ctx.log(|| what.clone());
        ctx.step();
    }
    run.queries(ctx, &store, &model, &what)?;
    if let Some((s, m)) = old {
        run.queries(ctx, &s, &m, "the copy")?;
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C19",
        level: "model_checking",
        rule: "every sequence of insertions, policies, removals, deaths, cleanups and copies up to the depth, with every query compared with a map of names afterwards",
        assumptions: vec!["names come from a fixed tree with common prefixes; the empty name is only used for the dead letter actor".into()],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("all operations", 0, history(t.or(2, 3), 2)).same_thread(),
                Scenario::new("all kinds", 0, history(t.or(4, 5), 1)).same_thread().weight(3),
                Scenario::new("few names", 0, history(t.or(5, 6), 0)).same_thread().weight(3),
            ]
        }),
    }]
}
