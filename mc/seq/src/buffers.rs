//! C18: pooled buffers are not reused while leased.

use bytes::{Buf, BufMut};
use explore::{Check, Ctx, Outcome, Scenario, Violation, ensure};
use kompact::net::buffers::{
    BufferChunk, BufferConfig, BufferPool, Chunk, ChunkAllocator, ChunkLease, ChunkRef, EncodeBuffer,
};
use kompact::prelude::{
    ActorPath, NetMessage, SerError, SerErrorKind, SerId, Serialisable, Transport, UniquePath,
};
use kompact::prelude::ser_helpers;
use std::{
    any::Any,
    collections::BTreeSet,
    sync::{Arc, Mutex},
};

const CHUNK: usize = 128;

/// An allocator which knows the state of all its chunks. Memory is poisoned, but not
/// given back, when released, so that a premature release shows in the leases.
#[derive(Debug, Default)]
pub struct Tracker {
    chunks: Mutex<Vec<Tracked>>,
}
#[derive(Debug)]
struct Tracked {
    mem: Box<[u8]>,
    chunk: usize,
    live: bool,
    released_twice: bool,
}
struct TrackedChunk {
    at: *mut u8,
    len: usize,
}
impl Chunk for TrackedChunk {
    fn as_mut_ptr(&mut self) -> *mut u8 {
        self.at
    }
    fn len(&self) -> usize {
        self.len
    }
}
impl ChunkAllocator for Tracker {
    fn get_chunk(&self) -> *mut dyn Chunk {
        let mut mem = vec![0xEE_u8; CHUNK].into_boxed_slice();
        let chunk = Box::into_raw(Box::new(TrackedChunk { at: mem.as_mut_ptr(), len: CHUNK }));
        self.chunks.lock().unwrap().push(Tracked { mem, chunk: chunk as usize, live: true, released_twice: false });
        chunk
    }
    unsafe fn release(&self, ptr: *mut dyn Chunk) {
        let addr = ptr as *mut TrackedChunk as usize;
        let mut c = self.chunks.lock().unwrap();
        if let Some(t) = c.iter_mut().find(|t| t.chunk == addr) {
            t.released_twice = !t.live;
            t.live = false;
            t.mem.fill(0xDD);
        }
    }
}
impl Drop for Tracker {
    fn drop(&mut self) {
        for t in self.chunks.get_mut().unwrap() {
            drop(unsafe { Box::from_raw(t.chunk as *mut TrackedChunk) });
        }
    }
}
impl Tracker {
    pub fn live(&self) -> usize {
        self.chunks.lock().unwrap().iter().filter(|t| t.live).count()
    }
    pub fn total(&self) -> usize {
        self.chunks.lock().unwrap().len()
    }
    fn double(&self) -> bool {
        self.chunks.lock().unwrap().iter().any(|t| t.released_twice)
    }
    fn index_of(&self, at: *const u8) -> Option<usize> {
        let a = at as usize;
        self.chunks.lock().unwrap().iter().position(|t| {
            let s = t.mem.as_ptr() as usize;
            a >= s && a < s + CHUNK
        })
    }
}

/// A message of a given size and content.
#[derive(Debug, Clone)]
struct Blob {
    data: Vec<u8>,
    hint: Option<usize>,
    /// write byte by byte
    bytewise: bool,
    fail_after: Option<usize>,
}
impl Serialisable for Blob {
    fn ser_id(&self) -> SerId {
        0x51
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        let n = self.fail_after.unwrap_or(self.data.len());
        if self.bytewise {
            for b in &self.data[..n] {
                buf.put_u8(*b);
            }
        } else {
            buf.put_slice(&self.data[..n]);
        }
        if self.fail_after.is_some() {
            return Err(SerError::invalid_type("planned failure"));
        }
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}

fn path(i: u8) -> ActorPath {
    ActorPath::Unique(UniquePath::new(
        Transport::Tcp,
        "10.1.2.3".parse().unwrap(),
        0x1234,
        uuid::Uuid::from_u128(0x0807_0605_0403_0201_1807_1605_1403_1200 + i as u128),
    ))
}
fn path_bytes(i: u8) -> Vec<u8> {
    let mut v = vec![1, 10, 1, 2, 3, 0x12, 0x34];
    if let ActorPath::Unique(u) = path(i) {
        v.extend(u.id().as_bytes());
    }
    v
}

enum Held {
    Lease(ChunkLease),
    Ref(ChunkRef),
}
struct Entry {
    held: Held,
    want: Vec<u8>,
    chunks: BTreeSet<usize>,
}

fn read_ref(r: &ChunkRef) -> Vec<u8> {
    let mut r = r.clone();
    let n = r.remaining();
    r.copy_to_bytes(n).to_vec()
}

impl Entry {
    fn read(&self) -> Vec<u8> {
        match &self.held {
            Held::Lease(l) => l.create_byte_clone().to_vec(),
            Held::Ref(r) => read_ref(r),
        }
    }
}

struct Bench<'a> {
    ctx: &'a Ctx,
    tracker: Arc<Tracker>,
    buffer: EncodeBuffer,
    max: usize,
    held: Vec<Entry>,
    /// chunks of the encode buffer which is current, as far as known from the leases
    msgs: u8,
    trace: Vec<String>,
    failures: usize,
}

fn content(i: u8, len: usize) -> Vec<u8> {
    (0..len).map(|k| (k as u8).wrapping_mul(3).wrapping_add(i.wrapping_mul(37)).wrapping_add(1)).collect()
}

impl<'a> Bench<'a> {
    fn new(ctx: &'a Ctx, initial: usize, max: usize, min_free: usize) -> Self {
        let tracker = Arc::new(Tracker::default());
        let mut c = BufferConfig::default();
        c.chunk_size(CHUNK);
        c.initial_chunk_count(initial);
        c.max_chunk_count(max);
        c.encode_buf_min_free_space(min_free);
        let alloc: Arc<dyn ChunkAllocator> = tracker.clone();
        Bench {
            ctx,
            tracker,
            buffer: EncodeBuffer::with_config(&c, &Some(alloc)),
            max,
            held: vec![],
            msgs: 0,
            trace: vec![format!("initial {initial} max {max} min_free {min_free}")],
            failures: 0,
        }
    }

    fn what(&self) -> String {
        self.trace.join("; ")
    }

    fn chunks_of(&self, r: &ChunkRef) -> BTreeSet<usize> {
        let mut r = r.clone();
        let mut set = BTreeSet::new();
        while r.has_remaining() {
            let c = r.chunk();
            if let Some(i) = self.tracker.index_of(c.as_ptr()) {
                set.insert(i);
            }
            let n = c.len();
            r.advance(n);
        }
        set
    }

    fn chunks_of_lease(&self, l: &mut ChunkLease) -> BTreeSet<usize> {
        self.tracker.index_of(l.chunk().as_ptr()).into_iter().collect()
    }

    /// Must a message of this many bytes fit?
    fn fits(&self, size: usize) -> bool {
        let mut busy: BTreeSet<usize> = BTreeSet::new();
        for e in &self.held {
            busy.extend(&e.chunks);
        }
        // the current chunk may be one more, and what is left in it may not be usable
        size.div_ceil(CHUNK) + busy.len() + 1 <= self.max
    }

    fn keep(&mut self, held: Held, mut want: Vec<u8>) -> Result<(), Violation> {
        // A lease in several chunks is kept as a reference, since only that can be cloned.
        let (held, chunks) = match held {
            Held::Lease(mut l) => {
                ensure!(l.remaining() == want.len(), "lease has wrong length", "{}: {} instead of {}", self.what(), l.remaining(), want.len());
                ensure!(l.create_byte_clone() == want, "lease reads back differently", "{}", self.what());
                if l.chunk().len() < l.remaining() {
                    let whole = self.chunks_of_lease(&mut l);
                    // some of it may have been read already
                    let n = match self.ctx.sched(4) {
                        0 => 0,
                        1 => 1,
                        2 => l.chunk().len(),
                        _ => want.len() - 1,
                    };
                    l.advance(n);
                    want.drain(..n);
                    if n > 0 {
                        self.trace.push(format!("read {n}"));
                    }
                    ensure!(l.remaining() == want.len(), "lease has wrong length", "{}: {} instead of {}", self.what(), l.remaining(), want.len());
                    ensure!(l.create_byte_clone() == want, "lease reads back differently", "{}", self.what());
                    let r = l.into_chunk_ref();
                    let mut c = self.chunks_of(&r);
                    c.extend(whole);
                    (Held::Ref(r), c)
                } else {
                    let c = self.tracker.index_of(l.chunk().as_ptr()).into_iter().collect();
                    (Held::Lease(l), c)
                }
            }
            Held::Ref(r) => {
                let c = self.chunks_of(&r);
                (Held::Ref(r), c)
            }
        };
        let e = Entry { held, want, chunks };
        ensure!(e.read() == e.want, "lease reads back differently", "{}", self.what());
        self.held.push(e);
        Ok(())
    }

    /// The result of encoding a message whose frame has this content.
    fn result(&mut self, must: bool, want: Vec<u8>, r: Result<Held, SerError>) -> Outcome {
        match r {
            Ok(h) => self.keep(h, want),
            Err(e) => {
                self.trace.push(format!("-> {:?}", e.kind()));
                self.failures += 1;
                ensure!(
                    e.kind() == SerErrorKind::NoBuffersAvailable,
                    "unexpected error",
                    "{}: {e}",
                    self.what()
                );
                ensure!(!must, "capacity lost", "{}: {} bytes must fit", self.what(), want.len());
                Ok(())
            }
        }
    }

    fn put(&mut self, len: usize) -> Outcome {
        self.msgs += 1;
        let want = content(self.msgs, len);
        let must = self.fits(len);
        let r = self.buffer.get_buffer_encoder().and_then(|mut e| {
            e.put_slice(&want);
            e.get_chunk_lease()
        });
        self.result(must, want, r.map(Held::Lease))
    }

    fn frame(&self, body: &[u8], ser_id: u8) -> Vec<u8> {
        let mut v = vec![];
        v.extend(0xC0A1_BA11_u32.to_be_bytes());
        v.extend(((body.len() + 2 * 23 + 1) as u32).to_be_bytes());
        v.push(2);
        v.extend(path_bytes(1));
        v.extend(path_bytes(2));
        v.push(ser_id);
        v.extend(body);
        v
    }

    fn message(&mut self, len: usize, exact: bool, bytewise: bool) -> Outcome {
        self.msgs += 1;
        let data = content(self.msgs, len);
        let want = with_ser_id(self.frame(&data, 0), len);
        let blob = Blob { hint: exact.then_some(len), data, bytewise, fail_after: None };
        let must = self.fits(want.len());
        let r = self.buffer.get_buffer_encoder().and_then(|mut e| ser_helpers::serialise_msg(&path(1), &path(2), &blob, &mut e));
        self.result(must, want, r.map(Held::Lease))
    }

    fn step(&mut self, op: usize) -> Outcome {
        self.ctx.step();
        self.trace.push(format!("{}", OPS[op]));
        match OPS[op] {
            "put1" => self.put(1)?,
            "put40" => self.put(40)?,
            "put64" => self.put(64)?,
            "put120" => self.put(120)?,
            "put128" => self.put(128)?,
            "put200" => self.put(200)?,
            "put256" => self.put(256)?,
            "put300" => self.put(300)?,
            "bytes130" => {
                self.msgs += 1;
                let want = content(self.msgs, 130);
                let must = self.fits(130);
                let r = self.buffer.get_buffer_encoder().and_then(|mut e| {
                    for b in &want {
                        e.put_u8(*b);
                    }
                    e.get_chunk_lease()
                });
                self.result(must, want, r.map(Held::Lease))?
            }
            "fill150" => {
                let want = vec![0x5A; 150];
                let must = self.fits(150);
                let r = self.buffer.get_buffer_encoder().and_then(|mut e| {
                    e.put_bytes(0x5A, 150);
                    e.get_chunk_lease()
                });
                self.result(must, want, r.map(Held::Lease))?
            }
            "writer" => {
                self.msgs += 1;
                let want = content(self.msgs, 150);
                let must = self.fits(150);
                let r = self.buffer.get_buffer_encoder().and_then(|mut e| {
                    let written = std::io::Write::write_all(&mut (&mut e).writer(), &want);
                    written.map_err(|e| SerError::unknown(e.to_string()))?;
                    e.get_chunk_lease()
                });
                self.result(must, want, r.map(Held::Lease))?
            }
            "msg60" => self.message(60, true, false)?,
            "msg100 unknown size" => self.message(100, false, true)?,
            "msg150" => self.message(150, true, false)?,
            "fail mid-way" => {
                self.msgs += 1;
                let blob = Blob { hint: Some(100), data: content(self.msgs, 100), bytewise: false, fail_after: Some(80) };
                let r = self
                    .buffer
                    .get_buffer_encoder()
                    .and_then(|mut e| ser_helpers::serialise_msg(&path(1), &path(2), &blob, &mut e));
                ensure!(r.is_err(), "failed serialisation succeeded", "{}", self.what());
            }
            "abandon" => {
                if let Ok(mut e) = self.buffer.get_buffer_encoder() {
                    e.put_slice(&content(99, 70));
                }
            }
            "two at once" => {
                self.msgs += 2;
                let (a, b) = (content(self.msgs - 1, 50), content(self.msgs, 100));
                let must = self.fits(150);
                let r = self.buffer.get_buffer_encoder().and_then(|mut e| {
                    e.put_slice(&a);
                    let x = e.get_chunk_lease()?;
                    e.put(&b[..30]);
                    e.put(&b[30..]);
                    Ok((x, e.get_chunk_lease()))
                });
                match r {
                    Ok((x, y)) => {
                        self.keep(Held::Lease(x), a)?;
                        self.result(must, b, y.map(Held::Lease))?;
                    }
                    Err(e) => self.result(must, a, Err(e))?,
                }
            }
            "preserialise" => {
                self.msgs += 1;
                let data = content(self.msgs, 30);
                let blob = Blob { hint: Some(30), data: data.clone(), bytewise: false, fail_after: None };
                let want = with_ser_id(self.frame(&data, 0), data.len());
                let must = self.fits(want.len() + 2 * CHUNK);
                let buffer = &mut self.buffer;
                let r = buffer.get_buffer_encoder().and_then(|mut e| ser_helpers::preserialise_msg(&blob, &mut e));
                let r = r.and_then(|r| {
                    let mut e = buffer.get_buffer_encoder()?;
                    ser_helpers::serialise_msg_with_preserialised(&path(1), &path(2), r, &mut e)
                });
                self.result(must, want, r.map(Held::Ref))?
            }
            "embed" => {
                // forwards the oldest held data
                if self.held.is_empty() {
                    return Ok(());
                }
                let must = self.fits(CHUNK);
                let e = self.held.remove(0);
                let mut want = self.frame(&e.want, 0);
                let enc = self.buffer.get_buffer_encoder();
                let r = match e.held {
                    Held::Ref(r) if self.ctx.sched(2) == 1 => {
                        // as what follows the paths of another message
                        want.remove(want.len() - e.want.len() - 1);
                        let n = (want.len() - 9) as u32;
                        want[4..8].copy_from_slice(&n.to_be_bytes());
                        self.trace.push("preserialised".into());
                        enc.and_then(|mut enc| ser_helpers::serialise_msg_with_preserialised(&path(1), &path(2), r, &mut enc))
                    }
                    held => {
                        want = with_ser_id(want, e.want.len());
                        let msg = match held {
                            Held::Lease(l) => NetMessage::with_chunk_lease(0x51, path(1), path(2), l),
                            Held::Ref(r) => NetMessage::with_chunk_ref(0x51, path(1), path(2), r),
                        };
                        enc.and_then(|mut enc| ser_helpers::embed_msg(msg, &mut enc))
                    }
                };
                let n = self.held.len();
                self.result(must, want, r.map(Held::Ref))?;
                if self.held.len() > n {
                    self.held.last_mut().unwrap().chunks.extend(e.chunks);
                }
            }
            "swap" => {
                let must = self.fits(1);
                let r = self.buffer.swap_buffer();
                ensure!(r.is_ok() || !must, "capacity lost", "{}: swap must succeed", self.what());
            }
            "drop oldest" => {
                if !self.held.is_empty() {
                    self.held.remove(0);
                }
            }
            "drop newest" => {
                self.held.pop();
            }
            "clone" => {
                // a lease must become a reference before
                if let Some(mut e) = self.held.pop() {
                    e.held = match e.held {
                        Held::Lease(l) => Held::Ref(l.into_chunk_ref()),
                        Held::Ref(r) => {
                            let c = Entry { held: Held::Ref(r.clone()), want: e.want.clone(), chunks: e.chunks.clone() };
                            self.held.push(c);
                            Held::Ref(r)
                        }
                    };
                    self.held.push(e);
                }
            }
            "take prefix" => {
                if let Some(mut e) = self.held.pop() {
                    let n = e.want.len() / 2 + 1;
                    let n = n.min(e.want.len());
                    let got = match &mut e.held {
                        Held::Lease(l) => l.copy_to_bytes(n),
                        Held::Ref(r) => r.copy_to_bytes(n),
                    };
                    ensure!(got == e.want[..n], "prefix reads back differently", "{}", self.what());
                    let rest = e.want.split_off(n);
                    if let Held::Lease(l) = &e.held {
                        ensure!(l.create_byte_clone() == rest, "rest of a lease reads back differently", "{}", self.what());
                    }
                    if !rest.is_empty() {
                        self.keep(e.held, rest)?;
                        // chunks are not given back before the whole is dropped
                        self.held.last_mut().unwrap().chunks.extend(e.chunks);
                    }
                }
            }
            "join" => {
                // appends the newest to the one before it
                if self.held.len() >= 2 {
                    let b = self.held.pop().unwrap();
                    let a = self.held.pop().unwrap();
                    let mut want = a.want.clone();
                    want.extend(&b.want);
                    let joined = match (a.held, b.held) {
                        (Held::Lease(x), Held::Lease(y)) => x.into_chunk_ref_with_tail(y.into_chunk_ref()),
                        (Held::Ref(x), Held::Lease(y)) => y.into_chunk_ref_with_head(x),
                        (x, y) => {
                            // no way to join these
                            self.held.push(Entry { held: x, want: a.want, chunks: a.chunks });
                            self.held.push(Entry { held: y, want: b.want, chunks: b.chunks });
                            return Ok(());
                        }
                    };
                    self.keep(Held::Ref(joined), want)?;
                    self.held.last_mut().unwrap().chunks.extend(a.chunks.union(&b.chunks));
                }
            }
            other => unreachable!("{other}"),
        }
        Ok(())
    }

    fn check(&self) -> Outcome {
        for (i, e) in self.held.iter().enumerate() {
            ensure!(e.read() == e.want, "leased data changed", "{}: lease {i} is now {:?} instead of {:?}", self.what(), e.read(), e.want);
        }
        ensure!(self.tracker.total() <= self.max, "pool exceeds its maximum", "{}: {} chunks", self.what(), self.tracker.total());
        ensure!(!self.tracker.double(), "chunk released twice", "{}", self.what());
        self.ctx.state(&(
            self.tracker.total(),
            self.buffer.writeable_len(),
            self.held.iter().map(|e| (e.want.len(), e.chunks.clone())).collect::<Vec<_>>(),
        ));
        Ok(())
    }

    /// Everything is dropped, in either order: all memory is released, and not before.
    fn finish(mut self) -> Outcome {
        let buffer_first = self.ctx.pick(2) == 0;
        let what = self.what();
        if buffer_first {
            drop(self.buffer);
            for (i, e) in self.held.iter().enumerate() {
                ensure!(e.read() == e.want, "leased data released", "{what}; buffer dropped: lease {i} is now {:?}", e.read());
            }
            self.held.clear();
        } else {
            self.held.clear();
            // the whole capacity is there again
            let mut leases = vec![];
            for i in 0..self.max {
                let writeable = self.buffer.writeable_len();
                let r = self.buffer.get_buffer_encoder().and_then(|mut e| {
                    let n = if i == 0 { writeable.max(1) } else { CHUNK };
                    e.put_slice(&vec![7; n]);
                    e.get_chunk_lease()
                });
                match r {
                    Ok(l) => leases.push(l),
                    Err(e) => {
                        return Err(Violation::new("capacity lost", format!("{what}: all dropped, then only {i} chunks could be filled: {e}")));
                    }
                }
            }
            drop(self.buffer);
            drop(leases);
        }
        ensure!(self.tracker.live() == 0, "memory leaked", "{what}: {} chunks are never released", self.tracker.live());
        ensure!(!self.tracker.double(), "chunk released twice", "{what}");
        self.ctx.outcome(&(self.failures, self.tracker.total()));
        Ok(())
    }
}

/// Puts the serialisation id of the test messages between the paths and the body.
fn with_ser_id(frame: Vec<u8>, body: usize) -> Vec<u8> {
    let at = frame.len() - body - 1;
    let mut v = frame[..at].to_vec();
    v.put_u64_id();
    v.extend(&frame[at + 1..]);
    let len = (v.len() - 9) as u32;
    v[4..8].copy_from_slice(&len.to_be_bytes());
    v
}
trait PutId {
    fn put_u64_id(&mut self);
}
impl PutId for Vec<u8> {
    fn put_u64_id(&mut self) {
        use kompact::prelude::SerIdBufMut;
        self.put_ser_id(0x51);
    }
}

const OPS: [&str; 25] = [
    "put40",
    "put128",
    "put200",
    "drop oldest",
    "msg60",
    "msg150",
    "take prefix",
    "join",
    "put120",
    "preserialise",
    "embed",
    "abandon",
    "swap",
    "two at once",
    "drop newest",
    "put300",
    "fail mid-way",
    "bytes130",
    "clone",
    "put1",
    "msg100 unknown size",
    "put64",
    "put256",
    "fill150",
    "writer",
];

fn sequences(ctx: &Ctx, depth: usize, letters: usize, configs: &[(usize, usize, usize)]) -> Outcome {
    let &(initial, max, min_free) = ctx.pick_of(configs);
    let mut b = Bench::new(ctx, initial, max, min_free);
    for _ in 0..depth {
        let op = ctx.pick(letters);
        b.step(op)?;
        b.check()?;
    }
    let what = b.what();
    ctx.log(|| what);
    b.finish()
}

/// The pool by itself.
fn pool(ctx: &Ctx, depth: usize) -> Outcome {
    let &(initial, max) = ctx.pick_of(&[(0, 2), (1, 2), (2, 3), (3, 3)]);
    let tracker = Arc::new(Tracker::default());
    let mut c = BufferConfig::default();
    c.chunk_size(CHUNK);
    c.initial_chunk_count(initial);
    c.max_chunk_count(max);
    let alloc: Arc<dyn ChunkAllocator> = tracker.clone();
    let mut pool = BufferPool::with_config(&c, &Some(alloc));
    let mut out: Vec<BufferChunk> = vec![];
    let mut leases: Vec<(ChunkLease, Vec<u8>, usize)> = vec![];
    let mut next = std::collections::BTreeMap::<usize, usize>::new();
    let mut trace = vec![format!("initial {initial} max {max}")];
    let mut n = 0u8;
    for _ in 0..depth {
        ctx.step();
        match ctx.pick(5) {
            0 => {
                trace.push("get".into());
                let leased: BTreeSet<usize> = leases.iter().map(|l| l.2).collect();
                let got = pool.get_buffer();
                let held: BTreeSet<usize> = out.iter_mut().map(|b| id(&tracker, b)).collect();
                let must = leased.union(&held).count() < max;
                match got {
                    Some(mut b) => {
                        let i = id(&tracker, &mut b);
                        ensure!(!leased.contains(&i), "leased chunk handed out", "{trace:?}: chunk {i}");
                        ensure!(!held.contains(&i), "chunk handed out twice", "{trace:?}: chunk {i}");
                        ensure!(must, "pool exceeds its maximum", "{trace:?}");
                        // its whole length is writable
                        out.push(b);
                    }
                    None => ensure!(!must, "capacity lost", "{trace:?}: a chunk must be available"),
                }
            }
            1 => {
                if !out.is_empty() {
                    trace.push("return".into());
                    pool.return_buffer(out.remove(0));
                }
            }
            2 => {
                // what a buffer writes, it leases
                if let Some(b) = out.last_mut() {
                    n += 1;
                    trace.push("lease".into());
                    let i = id(&tracker, b);
                    if !leases.iter().any(|l| l.2 == i) {
                        next.remove(&i);
                    }
                    let at = *next.get(&i).unwrap_or(&0);
                    if at == CHUNK {
                        continue;
                    }
                    next.insert(i, at + 16);
                    let want = content(n, 16);
                    let mut l = b.get_lease(at, at + 16);
                    write(&mut l, &want);
                    leases.push((l, want, i));
                }
            }
            3 => {
                if !leases.is_empty() {
                    trace.push("drop oldest lease".into());
                    leases.remove(0);
                }
            }
            _ => {
                trace.push("drop newest lease".into());
                leases.pop();
            }
        }
        for (l, want, i) in &leases {
            ensure!(l.create_byte_clone() == *want, "leased data changed", "{trace:?}: in chunk {i}");
        }
        ensure!(tracker.total() <= max, "pool exceeds its maximum", "{trace:?}");
        ensure!(pool.get_pool_sizes().0 == tracker.total(), "pool size wrong", "{trace:?}: {:?} but {} allocated", pool.get_pool_sizes(), tracker.total());
        ctx.state(&(tracker.total(), out.len(), leases.iter().map(|l| l.2).collect::<Vec<_>>()));
    }
    ctx.outcome(&(tracker.total(), out.len(), leases.len()));
    ctx.log(|| format!("{trace:?}"));
    Ok(())
}

fn id(t: &Tracker, b: &mut BufferChunk) -> usize {
    // an empty range is not allowed, so this looks at the first byte
    let l = b.get_lease(0, 1);
    t.index_of(l.chunk().as_ptr()).unwrap()
}

fn write(l: &mut ChunkLease, bytes: &[u8]) {
    // what has been written is all writable again after a lease has been taken
    let p = l.chunk().as_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), p, bytes.len()) };
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C18",
        level: "model_checking",
        rule: "every sequence of encoding (by each entry point, of sizes around the chunk size), leasing, splitting, joining, cloning, dropping and swapping up to the depth on real encode buffers and pools of two to four chunks with a tracking allocator; all live leases are read back after every operation and the capacity is compared with what the live leases occupy",
        assumptions: vec!["leases are dropped between operations, not concurrently with one".into()],
        scenarios: Box::new(|t| {
            const ALL: &[(usize, usize, usize)] = &[(1, 3, 64), (1, 2, 0), (2, 4, 5), (2, 2, 64), (1, 3, 0)];
            vec![
                Scenario::new("all-operations", 0, move |c| sequences(c, t.or(4, 5), 25, ALL)).same_thread().weight(2),
                Scenario::new("operations", 0, move |c| sequences(c, t.or(5, 6), 14, ALL)).same_thread().weight(2),
                Scenario::new("read-in-part", t.or(1, 2), move |c| sequences(c, t.or(4, 5), 14, ALL)).same_thread().weight(2),
                Scenario::new("long", 0, move |c| sequences(c, t.or(7, 8), 6, ALL)).same_thread().weight(2),
                Scenario::new("pool", 0, move |c| pool(c, t.or(9, 11))).same_thread().weight(2),
            ]
        }),
    }]
}
