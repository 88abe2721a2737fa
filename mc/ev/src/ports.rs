//! C04: port events reach every connected counterpart exactly once, in order.
use crate::{common::*, world::*};
use explore::*;
use kompact::prelude::*;
use std::sync::Arc;

type C = Arc<Component<Probe>>;
type Chan = Box<dyn Channel + Send + 'static>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Run,
    /// indication triggered by provider p on its port
    Ind(usize),
    /// request triggered by requirer r on its port
    Req(usize),
    /// from outside, onto the required port of r / the provided port of p
    SysInd(usize),
    SysReq(usize),
    /// message to provider p that makes it trigger an indication
    MsgInd(usize),
    Connect(usize, usize, u8),
    Disconnect(usize, usize, u8),
    Kill(usize),
}

struct Net<'a> {
    w: &'a World,
    ctx: Ctx,
    /// providers 0,1 and requirers 2,3
    c: Vec<Option<C>>,
    pref: Vec<ProvidedRef<P1>>,
    rref: Vec<RequiredRef<P1>>,
    ind: [[bool; 2]; 2],
    req: [[bool; 2]; 2],
    chans: Vec<Vec<Vec<(u8, Chan)>>>,
    /// what each component must have handled: (source, event)
    want: [Vec<M>; 4],
    seq: [u8; 8],
    killed: [bool; 4],
}

impl Net<'_> {
    fn next(&mut self, src: usize) -> M {
        let x = m(src as u8, 0, self.seq[src]);
        self.seq[src] += 1;
        x
    }
    fn ops(&self, kills: bool) -> Vec<Op> {
        let mut v = vec![Op::Run];
        for p in 0..2 {
            if self.killed[p] {
                continue;
            }
            v.push(Op::Ind(p));
        }
        for r in 0..2 {
            if self.killed[r + 2] {
                continue;
            }
            v.push(Op::Req(r));
        }
        if !self.killed[0] {
            v.push(Op::SysReq(0));
            v.push(Op::MsgInd(0));
        }
        if !self.killed[3] {
            v.push(Op::SysInd(1));
        }
        for p in 0..2 {
            for r in 0..2 {
                if self.killed[p] || self.killed[r + 2] {
                    continue;
                }
                if !self.ind[p][r] && !self.req[r][p] {
                    v.push(Op::Connect(p, r, 0));
                    if p == 0 {
                        v.push(Op::Connect(p, r, 1));
                        v.push(Op::Connect(p, r, 2));
                    }
                } else {
                    for how in 0..5 {
                        if how == 0 && self.chans[p][r].is_empty() {
                            continue;
                        }
                        if p == 1 && how > 0 {
                            continue;
                        }
                        v.push(Op::Disconnect(p, r, how));
                    }
                }
            }
        }
        if kills {
            for k in [1, 2] {
                if !self.killed[k] {
                    v.push(Op::Kill(k));
                }
            }
        }
        v
    }
    fn connect(&mut self, p: usize, r: usize, how: u8) {
        let (a, b) = (self.c[p].clone().unwrap(), self.c[r + 2].clone().unwrap());
        match how {
            0 => {
                let ch = biconnect_components::<P1, _, _>(&a, &b).expect("connect");
                self.chans[p][r].push((0, ch.boxed()));
                self.ind[p][r] = true;
                self.req[r][p] = true;
            }
            1 => {
                let ch: ProviderChannel<P1, Probe> = a.connect_to_required(self.rref[r].clone());
                self.chans[p][r].push((1, ch.boxed()));
                self.ind[p][r] = true;
            }
            _ => {
                let ch: RequirerChannel<P1, Probe> = b.connect_to_provided(self.pref[p].clone());
                self.chans[p][r].push((2, ch.boxed()));
                self.req[r][p] = true;
            }
        }
    }
    fn apply(&mut self, op: Op) -> Outcome {
        self.ctx.log(|| format!("{op:?}"));
        match op {
            Op::Run => {
                self.w.step()?;
            }
            Op::Ind(p) => {
                let x = self.next(p);
                self.c[p].as_ref().unwrap().on_definition(|d| d.p1.trigger(x));
                for r in 0..2 {
                    if self.ind[p][r] {
                        self.want[r + 2].push(x);
                    }
                }
            }
            Op::MsgInd(p) => {
                // the trigger happens now: run this component alone first
                let x = self.next(p);
                let c = self.c[p].as_ref().unwrap();
                c.actor_ref().tell(x);
                // make it handle everything it has queued
                while let Some(i) = self.w.enabled_of(&c.id()) {
                    self.w.run_job(i)?;
                }
                for r in 0..2 {
                    if self.ind[p][r] {
                        self.want[r + 2].push(x);
                    }
                }
            }
            Op::Req(r) => {
                let x = self.next(r + 2);
                self.c[r + 2].as_ref().unwrap().on_definition(|d| d.r1.trigger(x));
                for p in 0..2 {
                    if self.req[r][p] {
                        self.want[p].push(x);
                    }
                }
            }
            Op::SysInd(r) => {
                let x = self.next(4 + r);
                self.w.sys.trigger_i(x, &self.rref[r]);
                self.want[r + 2].push(x);
            }
            Op::SysReq(p) => {
                let x = self.next(6 + p);
                self.w.sys.trigger_r(x, &self.pref[p]);
                self.want[p].push(x);
            }
            Op::Connect(p, r, how) => self.connect(p, r, how),
            Op::Disconnect(p, r, how) => {
                let (a, b) = (self.c[p].clone().unwrap(), self.c[r + 2].clone().unwrap());
                match how {
                    0 => {
                        let (kind, ch) = self.chans[p][r].pop().unwrap();
                        ensure!(ch.disconnect().is_ok(), "disconnect failed", "no component is running");
                        if kind != 2 {
                            self.ind[p][r] = false;
                        }
                        if kind != 1 {
                            self.req[r][p] = false;
                        }
                    }
                    1 => {
                        let rr = self.rref[r].clone();
                        let ch = a.on_definition(|d| d.p1.disconnect_port(rr));
                        ensure!(ch == self.ind[p][r], "disconnect result", "disconnect_port: {ch}");
                        self.ind[p][r] = false;
                    }
                    2 => {
                        let pr = self.pref[p].clone();
                        let ch = b.on_definition(|d| d.r1.disconnect_port(pr));
                        ensure!(ch == self.req[r][p], "disconnect result", "disconnect_port: {ch}");
                        self.req[r][p] = false;
                    }
                    3 => {
                        let ch = a.on_definition(|d| d.p1.disconnect_component(b.as_ref()));
                        // what has been killed goes, too
                        ensure!(
                            ch == self.ind[p][r] || self.killed != [false; 4],
                            "disconnect result",
                            "disconnect_component: {ch}"
                        );
                        self.ind[p][r] = false;
                    }
                    _ => {
                        let ch = b.on_definition(|d| d.r1.disconnect_component(a.as_ref()));
                        ensure!(
                            ch == self.req[r][p] || self.killed != [false; 4],
                            "disconnect result",
                            "disconnect_component: {ch}"
                        );
                        self.req[r][p] = false;
                    }
                }
                if !self.ind[p][r] && !self.req[r][p] {
                    self.chans[p][r].clear();
                }
            }
            Op::Kill(k) => {
                self.w.settle()?;
                let c = self.c[k].take().unwrap();
                self.w.sys.kill(c);
                self.w.settle()?;
                self.killed[k] = true;
                for o in 0..2 {
                    if k < 2 {
                        self.ind[k][o] = false;
                        self.req[o][k] = false;
                        self.chans[k][o].clear();
                    } else {
                        self.ind[o][k - 2] = false;
                        self.req[k - 2][o] = false;
                        self.chans[o][k - 2].clear();
                    }
                }
            }
        }
        Ok(())
    }
}

fn program(ctx: &Ctx, depth: usize, kills: bool, fixed: Option<usize>) -> Outcome {
    let w = World::new(ctx);
    let log = Log::new(ctx);
    let behave: Arc<Behave> = Arc::new(|me: &mut Probe, e| {
        if let E::Msg(x) = e {
            me.p1.trigger(x);
        }
        Handled::OK
    });
    let c: Vec<Option<C>> = (0..4)
        .map(|i| {
            let c = w.sys.create(|| Probe::new(i, &log, behave.clone()));
            w.name(c.id(), who_name(i));
            w.sys.start(&c);
            Some(c)
        })
        .collect();
    w.settle()?;
    let pref = (0..2).map(|i| c[i].as_ref().unwrap().provided_ref()).collect();
    let rref = (2..4).map(|i| c[i].as_ref().unwrap().required_ref()).collect();
    let mut n = Net {
        w: &w,
        ctx: ctx.clone(),
        c,
        pref,
        rref,
        ind: Default::default(),
        req: Default::default(),
        chans: vec![vec![vec![], vec![]], vec![vec![], vec![]]],
        want: Default::default(),
        seq: [0; 8],
        killed: [false; 4],
    };
    let topo = match fixed {
        Some(t) => t,
        None => ctx.pick(16),
    };
    for p in 0..2 {
        for r in 0..2 {
            if topo >> (p * 2 + r) & 1 == 1 {
                n.connect(p, r, 0);
            }
        }
    }
    for _ in 0..depth {
        let ops = n.ops(kills);
        let op = ops[ctx.pick(ops.len())];
        n.apply(op)?;
    }
    w.drain()?;
    for i in 0..4u8 {
        let evs = log.of(i);
        let got: Vec<M> = evs
            .iter()
            .filter_map(|e| match e {
                E::Req(1, x) if i < 2 => Some(*x),
                E::Ind(1, x) if i >= 2 => Some(*x),
                _ => None,
            })
            .collect();
        let other = evs.iter().any(|e| match e {
            E::Req(p, _) => i >= 2 || *p != 1,
            E::Ind(p, _) => i < 2 || *p != 1,
            _ => false,
        });
        ensure!(!other, "event on the wrong port", "{}: {evs:?}", who_name(i));
        let want = &n.want[i as usize];
        for src in 0..8u8 {
            let g: Vec<u8> = got.iter().filter(|x| x.from == src).map(|x| x.seq).collect();
            let s: Vec<u8> = want.iter().filter(|x| x.from == src).map(|x| x.seq).collect();
            ensure!(
                g == s,
                "port event not handled exactly once in order",
                "{} from source {src}: triggered {s:?}, handled {g:?}",
                who_name(i)
            );
        }
    }
    log.finish();
    Ok(())
}

/// A channel that was made several times, in several ways, is disconnected, possibly while one of its ends is in use.
fn disconnected(ctx: &Ctx) -> Outcome {
    let w = World::new(ctx);
    let log = Log::new(ctx);
    let behave: Arc<Behave> = Arc::new(|_: &mut Probe, _| Handled::OK);
    let c: Vec<C> = (0..4)
        .map(|i| {
            let c = w.sys.create(|| Probe::new(i, &log, behave.clone()));
            w.name(c.id(), who_name(i));
            w.sys.start(&c);
            c
        })
        .collect();
    w.settle()?;
    let (a, b) = (c[0].clone(), c[2].clone());
    // others are not affected
    let others = ctx.pick(2) == 1;
    let before = ctx.pick(2) == 1;
    if others && before {
        let _ = biconnect_components::<P1, _, _>(&a, &c[3]).expect("connect");
        let _ = biconnect_components::<P1, _, _>(&c[1], &b).expect("connect");
    }
    let n = 1 + ctx.pick(2);
    let mut chans: Vec<(u8, Chan)> = vec![];
    let (mut ind, mut req) = (false, false);
    for _ in 0..n {
        let kind = ctx.pick(3) as u8;
        let ch: Chan = match kind {
            0 => biconnect_components::<P1, _, _>(&a, &b).expect("connect").boxed(),
            1 => {
                let r: RequiredRef<P1> = b.required_ref();
                let ch: ProviderChannel<P1, Probe> = a.connect_to_required(r);
                ch.boxed()
            }
            _ => {
                let p: ProvidedRef<P1> = a.provided_ref();
                let ch: RequirerChannel<P1, Probe> = b.connect_to_provided(p);
                ch.boxed()
            }
        };
        ind |= kind != 2;
        req |= kind != 1;
        chans.push((kind, ch));
    }
    if others && !before {
        let _ = biconnect_components::<P1, _, _>(&a, &c[3]).expect("connect");
        let _ = biconnect_components::<P1, _, _>(&c[1], &b).expect("connect");
    }
    let mut seq = 0;
    // who handles what is triggered now: 0 requires, 2 provides
    let mut round = |sure: bool, ind: bool, req: bool| -> Outcome {
        let x = m(9, 0, seq);
        seq += 1;
        a.on_definition(|d| d.p1.trigger(x));
        b.on_definition(|d| d.r1.trigger(x));
        w.drain()?;
        let count = |i: u8| {
            log.of(i).iter().filter(|e| matches!(e, E::Ind(1, y) | E::Req(1, y) if y.seq == x.seq)).count()
        };
        for (i, on) in [(0, req), (2, ind)] {
            // connected twice: at least once
            ensure!(
                !sure || (count(i) > 0) == on && (n > 1 || count(i) < 2),
                if on { "port event not handled exactly once in order" } else { "port event handled after the disconnect" },
                "{}: {} times",
                who_name(i),
                count(i)
            );
        }
        for i in [1, 3] {
            ensure!(
                count(i) == others as usize,
                "port event of another channel",
                "{}: {} times",
                who_name(i),
                count(i)
            );
        }
        Ok(())
    };
    round(true, ind, req)?;
    let (kind, ch) = chans.swap_remove(ctx.pick(n));
    let by_ref = ctx.pick(2) == 1;
    let go = |ch: Chan| -> Result<Option<Chan>, Chan> {
        if by_ref {
            match ch.disconnect_by_ref() {
                Ok(()) => Ok(Some(ch)),
                Err(_) => Err(ch),
            }
        } else {
            ch.disconnect().map(|_| None).map_err(|e| e.channel)
        }
    };
    let r = match ctx.pick(4) {
        0 => go(ch),
        1 => a.on_definition(|_| go(ch)),
        2 => b.on_definition(|_| go(ch)),
        _ => c[1].on_definition(|_| go(ch)),
    };
    ctx.outcome(&r.is_ok());
    let r = match r {
        Ok(ch) => Ok(ch),
        Err(ch) => {
            // an end was in use: it can be done later
            round(false, false, false)?;
            go(ch)
        }
    };
    match r {
        Ok(_) => {
            if kind != 2 {
                ind = false;
            }
            if kind != 1 {
                req = false;
            }
        }
        Err(_) => return Err(Violation::new("disconnect failed", "no component is running")),
    }
    round(true, ind, req)?;
    round(true, ind, req)
}

/// Two components are connected while one of them is in use: it fails, says why and leaves nothing
/// behind, and can be done later.
fn busy(ctx: &Ctx) -> Outcome {
    let w = World::new(ctx);
    let log = Log::new(ctx);
    let behave: Arc<Behave> = Arc::new(|_: &mut Probe, _| Handled::OK);
    let c: Vec<C> = (0..3)
        .map(|i| {
            let c = w.sys.create(|| Probe::new(i, &log, behave.clone()));
            w.name(c.id(), who_name(i));
            w.sys.start(&c);
            c
        })
        .collect();
    w.settle()?;
    let mut connected = [[0usize; 3]; 3];
    let mut seq = 0;
    for _ in 0..2 {
        let (p, r) = *ctx.pick_of(&[(0, 2), (1, 2), (0, 1), (2, 0)]);
        let held = ctx.pick(4);
        let go = || match ctx.pick(2) {
            0 => biconnect_components::<P1, _, _>(&c[p], &c[r]).map(|_| ()),
            _ => on_dual_definition(&c[p], &c[r], |x, y| biconnect_ports(&mut x.p1, &mut y.r1)),
        };
        let got = match held {
            3 => go(),
            h => c[h].on_definition(|_| go()),
        };
        let want = match held {
            h if h == p => Err(TryDualLockError::LeftWouldBlock),
            h if h == r => Err(TryDualLockError::RightWouldBlock),
            _ => Ok(()),
        };
        ensure!(format!("{got:?}") == format!("{want:?}"), "connect result", "{} was in use: {got:?}", held);
        connected[p][r] += got.is_ok() as usize;
        // only who is connected handles anything
        for from in 0..3u8 {
            let x = m(9, 0, seq);
            seq += 1;
            c[from as usize].on_definition(|d| {
                d.p1.trigger(x);
                d.r1.trigger(x);
            });
            w.drain()?;
            for to in 0..3u8 {
                let ind = log.of(to).iter().filter(|e| matches!(e, E::Ind(1, y) if y.seq == x.seq)).count();
                let req = log.of(to).iter().filter(|e| matches!(e, E::Req(1, y) if y.seq == x.seq)).count();
                let (i, q) = (connected[from as usize][to as usize], connected[to as usize][from as usize]);
                for (n, k) in [(ind, i), (req, q)] {
                    ensure!(
                        (n > 0) == (k > 0) && n <= k,
                        "port event not handled exactly once in order",
                        "{} to {}: {n} of {k}",
                        who_name(from),
                        who_name(to)
                    );
                }
            }
        }
    }
    ctx.outcome(&connected);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C04",
        level: "model_checking",
        rule: "every topology of 2 providers and 2 requirers and every sequence of trigger, connect, disconnect and kill up to the depth on the real runtime, compared with a set model of the channels",
        assumptions: vec![],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("topologies", t.or(0, 1), move |c| program(c, t.or(3, 3), false, None)),
                Scenario::new("from-unconnected", 0, move |c| program(c, t.or(4, 5), false, Some(0))),
                Scenario::new("disconnected", 0, disconnected),
                Scenario::new("busy", 0, busy),
                Scenario::new("with-kills", 0, move |c| program(c, t.or(3, 4), true, Some(15))),
            ]
        }),
    }]
}
