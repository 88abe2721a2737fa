//! What must hold of handled messages.
use crate::net::*;
use explore::{Outcome, ensure};
use kompact::prelude::ActorPath;
use mio::sim;
use std::{cell::RefCell, collections::BTreeMap};

pub struct Sent {
    pub from: usize,
    pub to_host: usize,
    pub sink: usize,
    pub to: String,
    pub udp: bool,
    pub pay: Pay,
}
/// Everything sent, in order.
#[derive(Default)]
pub struct Book(pub RefCell<Vec<Sent>>, RefCell<Vec<u32>>, RefCell<Vec<u32>>);

impl Book {
    pub fn send(&self, n: &Net, from: usize, host: usize, sink: usize, len: u32, how: How) -> u32 {
        self.send_via(n, from, host, sink, len, how, false)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn send_via(&self, n: &Net, from: usize, host: usize, sink: usize, len: u32, how: How, udp: bool) -> u32 {
        let seq = self.0.borrow().len() as u32;
        let pay = Pay { seq, len };
        let mut to: ActorPath = n.hosts[host].sinks[sink].clone();
        if udp {
            to.set_protocol(kompact::prelude::Transport::Udp);
        }
        self.0.borrow_mut().push(Sent {
            from,
            to_host: host,
            sink,
            to: to.to_string(),
            udp,
            pay: pay.clone(),
        });
        n.send(from, &to, pay, how);
        seq
    }
    /// Whoever handled something handled what was sent to it, unchanged and once.
    pub fn intact(&self, n: &Net, id: &str) -> Outcome {
        let sent = self.0.borrow();
        for (h, host) in n.hosts.iter().enumerate() {
            let mut seen = vec![];
            for g in host.got() {
                let p = match &g.pay {
                    Ok(p) => p,
                    Err(e) => {
                        ensure!(false, format!("{id}-content"), "host {h} got something else: {e}");
                        unreachable!()
                    }
                };
                let Some(s) = sent.get(p.seq as usize) else {
                    ensure!(false, format!("{id}-invented"), "host {h} got {p:?}, which nobody sent");
                    unreachable!()
                };
                ensure!(s.pay == *p, format!("{id}-content"), "host {h} got {p:?} for {:?}", s.pay);
                ensure!(
                    s.to_host == h && s.sink == g.sink && g.receiver == s.to,
                    format!("{id}-receiver"),
                    "host {h} sink {} got {p:?} for {}, which was sent to {}",
                    g.sink,
                    g.receiver,
                    s.to
                );
                let want = format!(
                    "{}://{}/source",
                    if s.udp { "udp" } else { "tcp" },
                    n.hosts[s.from].addr
                );
                ensure!(g.sender == want, format!("{id}-sender"), "{p:?} comes from {} instead of {want}", g.sender);
                ensure!(
                    g.session.is_some() != s.udp,
                    format!("{id}-session"),
                    "{p:?} has session {:?}",
                    g.session
                );
                let again = self.2.borrow().contains(&p.seq);
                ensure!(again || !seen.contains(&p.seq), format!("{id}-twice"), "host {h} handled {p:?} twice");
                seen.push(p.seq);
            }
        }
        Ok(())
    }
    /// In order between any two systems (per sink), without gaps in a session.
    pub fn ordered(&self, n: &Net, id: &str) -> Outcome {
        let sent = self.0.borrow();
        for (h, host) in n.hosts.iter().enumerate() {
            let mut by: BTreeMap<(usize, usize), Vec<(u32, Option<u128>)>> = BTreeMap::new();
            for g in host.got() {
                let seq = g.pay.as_ref().unwrap().seq;
                by.entry((sent[seq as usize].from, g.sink)).or_default().push((seq, g.session));
            }
            for ((from, sink), l) in by {
                let mine: Vec<u32> = sent
                    .iter()
                    .filter(|s| s.from == from && s.to_host == h && s.sink == sink && !s.udp)
                    .map(|s| s.pay.seq)
                    .collect();
                for w in l.windows(2) {
                    ensure!(
                        w[0].0 < w[1].0,
                        format!("{id}-order"),
                        "host {h} handled {} after {}: {l:?}",
                        w[1].0,
                        w[0].0
                    );
                    if w[0].1 == w[1].1 {
                        let (i, j) = (
                            mine.iter().position(|x| *x == w[0].0).unwrap(),
                            mine.iter().position(|x| *x == w[1].0).unwrap(),
                        );
                        ensure!(
                            j == i + 1,
                            format!("{id}-gap"),
                            "host {h} handled {} after {} in one session, what was sent between them is missing: {l:?}",
                            w[1].0,
                            w[0].0
                        );
                    }
                }
                // a session does not come back
                let mut old: Vec<Option<u128>> = vec![];
                for (_, s) in &l {
                    if old.last() != Some(s) {
                        ensure!(
                            !old.contains(s),
                            format!("{id}-session"),
                            "messages of different sessions are mixed: {l:?}"
                        );
                        old.push(*s);
                    }
                }
            }
        }
        Ok(())
    }
    /// In order between any two systems (per sink).
    pub fn increasing(&self, n: &Net, id: &str) -> Outcome {
        let sent = self.0.borrow();
        for (h, host) in n.hosts.iter().enumerate() {
            let mut last: BTreeMap<(usize, usize), u32> = BTreeMap::new();
            for g in host.got() {
                let seq = g.pay.as_ref().unwrap().seq;
                let k = (sent[seq as usize].from, g.sink);
                let l = last.insert(k, seq);
                ensure!(l < Some(seq), format!("{id}-order"), "host {h} handled {seq} after {l:?}");
            }
        }
        Ok(())
    }
    /// Everything was handled.
    pub fn complete(&self, n: &Net, id: &str) -> Outcome {
        self.complete_from(n, id, 0)
    }
    /// A message may be handled more than once.
    pub fn again(&self, seq: u32) {
        self.2.borrow_mut().push(seq);
    }
    /// Whether the last message arrives does not matter.
    pub fn may_be_lost(&self) {
        self.1.borrow_mut().push(self.0.borrow().len() as u32 - 1);
    }
    /// Whether the messages so far arrive does not matter any more.
    pub fn all_may_be_lost(&self) {
        *self.1.borrow_mut() = (0..self.0.borrow().len() as u32).collect();
    }
    pub fn complete_from(&self, n: &Net, id: &str, from: u32) -> Outcome {
        for s in self.0.borrow().iter().filter(|s| s.pay.seq >= from && !self.1.borrow().contains(&s.pay.seq)) {
            ensure!(
                n.hosts[s.to_host].got().iter().any(|g| matches!(&g.pay, Ok(p) if p.seq == s.pay.seq)),
                format!("{id}-lost"),
                "{:?} from host {} to {} was never handled; status {:?} / {:?}",
                s.pay,
                s.from,
                s.to,
                n.hosts[s.from].status(),
                n.hosts[s.to_host].status()
            );
        }
        Ok(())
    }
    /// A message that was not handled was given to a connection (that broke).
    pub fn accounted(&self, n: &Net, id: &str) -> Outcome {
        let sent = self.0.borrow();
        for from in 0..n.hosts.len() {
            for to in 0..n.hosts.len() {
                let st = n.hosts[from].status();
                if st.contains(&S::Dropped(n.hosts[to].addr)) {
                    continue;
                }
                let (streams, cut) = sim::with(|s| {
                    let l: Vec<Vec<u8>> = s
                        .fds
                        .iter()
                        .filter(|f| {
                            f.kind == sim::Kind::Stream
                                && f.local.ip() == n.hosts[from].addr.ip()
                                && f.remote.ip() == n.hosts[to].addr.ip()
                        })
                        .map(|f| f.written.clone())
                        .collect();
                    let cut = l.iter().filter(|w| cut_off(w)).count();
                    (l, cut)
                });
                let gone: Vec<u32> = sent
                    .iter()
                    .filter(|s| s.from == from && s.to_host == to && !s.udp)
                    .filter(|s| !n.hosts[to].got().iter().any(|g| matches!(&g.pay, Ok(p) if p.seq == s.pay.seq)))
                    .filter(|s| {
                        let b = s.pay.bytes();
                        !streams.iter().any(|w| w.windows(b.len()).any(|x| x == b))
                    })
                    .map(|s| s.pay.seq)
                    .collect();
                ensure!(
                    gone.len() <= cut,
                    format!("{id}-vanished"),
                    "{gone:?} from host {from} to {to} were never handled, and were not given to any connection ({cut} frames were cut off); status {st:?}"
                );
            }
        }
        Ok(())
    }
    pub fn handled(&self, n: &Net) -> usize {
        n.hosts.iter().map(|h| h.got().len()).sum()
    }
}

/// Whether the last frame is not complete.
fn cut_off(mut w: &[u8]) -> bool {
    // magic number, length, kind
    const HEAD: usize = 4 + 4 + 1;
    while w.len() >= HEAD {
        let len = u32::from_be_bytes(w[4..8].try_into().unwrap()) as usize;
        if w.len() < HEAD + len {
            return true;
        }
        w = &w[HEAD + len..];
    }
    !w.is_empty()
}
