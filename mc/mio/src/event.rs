use crate::{Interest, Registry, Token};
use std::io;

/// What a source is ready for.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Ready {
    pub readable: bool,
    pub writable: bool,
    pub error: bool,
    pub read_closed: bool,
    pub write_closed: bool,
}
impl Ready {
    pub fn any(&self) -> bool {
        self.readable || self.writable || self.error || self.read_closed || self.write_closed
    }
}
#[derive(Clone, Debug)]
pub struct Event {
    pub(crate) token: Token,
    pub(crate) ready: Ready,
}
impl Event {
    pub fn token(&self) -> Token {
        self.token
    }
    pub fn is_readable(&self) -> bool {
        self.ready.readable
    }
    pub fn is_writable(&self) -> bool {
        self.ready.writable
    }
    pub fn is_error(&self) -> bool {
        self.ready.error
    }
    pub fn is_read_closed(&self) -> bool {
        self.ready.read_closed
    }
    pub fn is_write_closed(&self) -> bool {
        self.ready.write_closed
    }
    pub fn is_priority(&self) -> bool {
        false
    }
    pub fn is_aio(&self) -> bool {
        false
    }
    pub fn is_lio(&self) -> bool {
        false
    }
}

#[derive(Debug)]
pub struct Events {
    pub(crate) list: Vec<Event>,
    capacity: usize,
}
impl Events {
    pub fn with_capacity(capacity: usize) -> Events {
        Events { list: vec![], capacity }
    }
    pub fn capacity(&self) -> usize {
        self.capacity
    }
    pub fn is_empty(&self) -> bool {
        self.list.is_empty()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, Event> {
        self.list.iter()
    }
    pub fn clear(&mut self) {
        self.list.clear()
    }
}
impl<'a> IntoIterator for &'a Events {
    type Item = &'a Event;
    type IntoIter = std::slice::Iter<'a, Event>;
    fn into_iter(self) -> Self::IntoIter {
        self.list.iter()
    }
}

pub trait Source {
    fn register(&mut self, r: &Registry, token: Token, interests: Interest) -> io::Result<()>;
    fn reregister(&mut self, r: &Registry, token: Token, interests: Interest) -> io::Result<()>;
    fn deregister(&mut self, r: &Registry) -> io::Result<()>;
}
impl<T: Source + ?Sized> Source for Box<T> {
    fn register(&mut self, r: &Registry, token: Token, interests: Interest) -> io::Result<()> {
        (**self).register(r, token, interests)
    }
    fn reregister(&mut self, r: &Registry, token: Token, interests: Interest) -> io::Result<()> {
        (**self).reregister(r, token, interests)
    }
    fn deregister(&mut self, r: &Registry) -> io::Result<()> {
        (**self).deregister(r)
    }
}
