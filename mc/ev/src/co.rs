//! Stackful coroutines: the explored threads of one execution all run on one OS thread.
use std::{
    cell::Cell,
    sync::Mutex,
};

#[cfg(not(target_arch = "x86_64"))]
compile_error!("the context switch is written for x86_64");

std::arch::global_asm!(
    ".global kompact_mc_switch",
    "kompact_mc_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
unsafe extern "C" {
    fn kompact_mc_switch(save: *mut usize, to: usize);
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const SIZE: usize = 512 * 1024;
struct Stack(usize);
static POOL: Mutex<Vec<Stack>> = Mutex::new(Vec::new());

impl Stack {
    fn get() -> Stack {
        if let Some(s) = POOL.lock().unwrap().pop() {
            return s;
        }
        unsafe {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
            let p = mmap(std::ptr::null_mut(), SIZE, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(p as isize != -1, "no memory for a stack");
            mprotect(p, 4096, 0);
            Stack(p as usize)
        }
    }
    fn put(self) {
        POOL.lock().unwrap().push(self);
    }
}

pub struct Co {
    sp: usize,
    stack: Option<Stack>,
    f: Option<Box<dyn FnOnce()>>,
    done: bool,
}

thread_local! {
    static ROOT: Cell<usize> = const { Cell::new(0) };
    static CURRENT: Cell<*mut Co> = const { Cell::new(std::ptr::null_mut()) };
}

extern "C" fn entry() -> ! {
    let co = CURRENT.with(|c| c.get());
    unsafe {
        let f = (*co).f.take().unwrap();
        f(); // must not unwind
        (*co).done = true;
    }
    suspend();
    unreachable!()
}

impl Co {
    /// `f` must catch its own panics.
    pub fn new(f: Box<dyn FnOnce()>) -> Box<Co> {
        let stack = Stack::get();
        let top = stack.0 + SIZE;
        // after the `ret` into `entry` the stack pointer is 8 modulo 16
        let sp = top - 16 - 6 * 8;
        unsafe {
            let p = sp as *mut usize;
            for i in 0..6 {
                *p.add(i) = 0;
            }
            *p.add(6) = entry as *const () as usize;
            *p.add(7) = 0;
        }
        Box::new(Co {
            sp,
            stack: Some(stack),
            f: Some(f),
            done: false,
        })
    }
    /// Run until it suspends or ends; true at the end.
    pub fn resume(&mut self) -> bool {
        assert!(!self.done);
        unsafe {
            let me: *mut Co = self;
            let before = CURRENT.with(|c| c.replace(me));
            assert!(before.is_null(), "resume inside of a coroutine");
            let root = ROOT.with(|r| r.as_ptr());
            kompact_mc_switch(root, (*me).sp);
            CURRENT.with(|c| c.set(std::ptr::null_mut()));
        }
        if self.done {
            self.stack.take().unwrap().put();
        }
        self.done
    }
}

/// Back to whoever resumed the current coroutine.
pub fn suspend() {
    unsafe {
        let co = CURRENT.with(|c| c.get());
        let to = ROOT.with(|r| r.get());
        kompact_mc_switch(&mut (*co).sp, to);
    }
}

impl Drop for Co {
    fn drop(&mut self) {
        // an unfinished coroutine keeps whatever it holds (only after a violation)
        if let Some(s) = self.stack.take() {
            if self.f.is_some() {
                s.put();
            } else {
                std::mem::forget(s);
            }
        }
    }
}
