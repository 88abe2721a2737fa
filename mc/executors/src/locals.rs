//! As in executors 0.10.0, except that a controlled executor can stand in for the thread-local one.
use super::*;
use std::cell::UnsafeCell;

// UnsafeCell has 10x the performance of RefCell
// and the scoping guarantees that the borrows are exclusive
thread_local!(
    static LOCAL_EXECUTOR: UnsafeCell<Option<Box<dyn CanExecute>>> = UnsafeCell::new(Option::None);
);

pub(crate) fn set_local_executor<E>(executor: E)
where
    E: CanExecute + 'static,
{
    LOCAL_EXECUTOR.with(move |e| unsafe {
        *e.get() = Some(Box::new(executor));
    });
}

pub(crate) fn unset_local_executor() {
    LOCAL_EXECUTOR.with(move |e| unsafe {
        *e.get() = None;
    });
}

/// The executor whose job is running on a simulated thread.
pub trait Local: Sync {
    /// Whether the current simulated thread is a worker of an executor.
    fn is_worker(&self) -> bool;
    /// Add `job` to the local queue of the current worker.
    fn execute(&self, job: Box<dyn FnOnce() + Send + 'static>);
}
static STAND_IN: std::sync::OnceLock<&'static dyn Local> = std::sync::OnceLock::new();
/// Must come first.
pub fn stand_in(l: &'static dyn Local) {
    let _ = STAND_IN.set(l);
}

/// Tries run the job on the same executor that spawned the thread running the job.
///
/// This is not supported on all executor implementations,
/// and will return `Err` variant with the original job if it can't be scheduled.
pub fn try_execute_locally<F>(f: F) -> Result<(), F>
where
    F: FnOnce() + Send + 'static,
{
    if let Some(l) = STAND_IN.get().filter(|l| l.is_worker()) {
        l.execute(Box::new(f));
        return Ok(());
    }
    LOCAL_EXECUTOR.with(move |e| {
        if let Some(Some(boxed)) = unsafe { e.get().as_ref() } {
            boxed.execute_job(Box::new(f));
            Ok(())
        } else {
            Err(f)
        }
    })
}
