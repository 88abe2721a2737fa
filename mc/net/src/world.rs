//! What `rt` needs of a world.
use futures::task::noop_waker_ref;
use std::{
    future::Future,
    pin::Pin,
    sync::LazyLock,
    task::{Context, Poll},
};

static LOGGER: LazyLock<kompact::KompactLogger> = LazyLock::new(|| {
    use slog::Drain;
    let drain = slog_async::Async::new(slog::Discard).build().fuse();
    slog::Logger::root_typed(std::sync::Arc::new(drain), slog::o!())
});
pub fn logger() -> kompact::KompactLogger {
    LOGGER.clone()
}

pub fn poll_once<F: Future + Unpin>(f: &mut F) -> Poll<F::Output> {
    let mut cx = Context::from_waker(noop_waker_ref());
    Pin::new(f).poll(&mut cx)
}
