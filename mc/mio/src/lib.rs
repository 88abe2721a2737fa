//! Stand-in for mio: sockets live in a simulated network of this OS thread.
//!
//! The semantics follow Linux: edge-triggered readiness (an event reports everything the socket is
//! ready for when it is collected), connections that are established by the kernel before they are
//! accepted, data that can still be read after the peer closed or reset the connection, a reset
//! when a socket is closed with unread data or written to after its peer closed.
//! Whatever the environment may do differently (short reads and writes, sockets that would block,
//! interruptions, the events one poll reports, lost, repeated or reordered datagrams) is a choice
//! of the installed [sim::Env].
pub mod event;
mod interest;
pub mod net;
mod poll;
pub mod sim;

pub use event::Events;
pub use interest::Interest;
pub use poll::{Poll, Registry, Waker};

/// Associates readiness events with a source.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Token(pub usize);
impl From<Token> for usize {
    fn from(t: Token) -> usize {
        t.0
    }
}
