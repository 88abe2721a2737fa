use crate::{
    Events, Interest, Token,
    event::{Event, Ready, Source},
    sim,
};
use std::{io, time::Duration};

#[derive(Debug)]
pub struct Poll {
    registry: Registry,
}
#[derive(Debug)]
pub struct Registry {
    pub(crate) id: usize,
}
#[derive(Debug)]
pub struct Waker {
    poll: usize,
    token: Token,
}

impl Poll {
    pub fn new() -> io::Result<Poll> {
        Ok(Poll { registry: Registry { id: sim::with(|s| s.new_poll()) } })
    }
    pub fn registry(&self) -> &Registry {
        &self.registry
    }
    pub fn poll(&mut self, events: &mut Events, timeout: Option<Duration>) -> io::Result<()> {
        let id = self.registry.id;
        events.clear();
        sim::op("poll");
        let env = sim::env();
        env.point("poll");
        let end = timeout.map(|t| env.now() + t.as_millis() as u64);
        if !sim::with(|s| s.any_ready(id)) && timeout != Some(Duration::ZERO) {
            env.wait(&|| sim::with(|s| s.any_ready(id)) || end.is_some_and(|e| env.now() >= e));
        }
        let mut list = sim::with(|s| s.collect(id, events.capacity()));
        if list.len() > 1 {
            let k = env.choose("events", list.len());
            if k > 0 {
                // only some are reported now
                let later = list.split_off(k);
                sim::with(|s| s.put_back(id, later.into_iter().map(|e| e.0).collect()));
            }
        }
        events.list = list.into_iter().map(|e| e.1).collect();
        env.log(&|| {
            format!(
                "poll: {}",
                events
                    .iter()
                    .map(|e| format!(
                        "{}{}{}",
                        e.token.0,
                        if e.ready.readable { "r" } else { "" },
                        if e.ready.writable { "w" } else { "" }
                    ))
                    .collect::<Vec<_>>()
                    .join(" ")
            )
        });
        Ok(())
    }
}
impl Drop for Poll {
    fn drop(&mut self) {
        sim::try_with(|s| s.drop_poll(self.registry.id));
    }
}

impl Registry {
    pub fn register<S: Source + ?Sized>(&self, s: &mut S, token: Token, interests: Interest) -> io::Result<()> {
        s.register(self, token, interests)
    }
    pub fn reregister<S: Source + ?Sized>(&self, s: &mut S, token: Token, interests: Interest) -> io::Result<()> {
        s.reregister(self, token, interests)
    }
    pub fn deregister<S: Source + ?Sized>(&self, s: &mut S) -> io::Result<()> {
        s.deregister(self)
    }
    pub fn try_clone(&self) -> io::Result<Registry> {
        Ok(Registry { id: self.id })
    }
}

impl Waker {
    pub fn new(registry: &Registry, token: Token) -> io::Result<Waker> {
        Ok(Waker { poll: registry.id, token })
    }
    pub fn wake(&self) -> io::Result<()> {
        sim::try_with(|s| s.wake(self.poll, self.token));
        Ok(())
    }
}

pub(crate) fn readable(token: Token) -> Event {
    Event { token, ready: Ready { readable: true, ..Ready::default() } }
}
