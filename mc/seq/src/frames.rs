//! C17: frame decoding is independent of the split of the byte stream.

use bytes::BufMut;
use explore::{Check, Ctx, Outcome, Scenario, Violation, ensure};
use kompact::net::{
    buffers::{BufferConfig, BufferPool, DecodeBuffer, EncodeBuffer},
    frames::{Data, Frame, Hello, Start},
};
use kompact::prelude::SessionId;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

const MAGIC: u32 = 0xC0A1_BA11;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum F {
    Ack,
    Bye,
    Hello4,
    Hello6,
    Start4,
    Start6,
    Data(u16),
}

fn addr4(i: u8) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0x11, 0xA1, i)), 0xC0A1)
}
fn addr6(i: u8) -> SocketAddr {
    SocketAddr::new(
        IpAddr::V6(Ipv6Addr::new(0xfe80, 0, 0xC0A1, 0xBA11, 1, 2, 3, 0x100 + i as u16)),
        0x0102 + i as u16,
    )
}
fn session(i: u8) -> SessionId {
    SessionId::from_u128(0x0102_0304_0506_0708_090a_0b0c_0d0e_0f00 + i as u128)
}
fn payload(i: u8, len: u16) -> Vec<u8> {
    (0..len).map(|k| (k as u8).wrapping_mul(7).wrapping_add(i.wrapping_mul(101))).collect()
}

fn head(out: &mut Vec<u8>, kind: u8, len: usize) {
    out.put_u32(MAGIC);
    out.put_u32(len as u32);
    out.put_u8(kind);
}
fn put_addr(out: &mut Vec<u8>, a: SocketAddr) {
    match a {
        SocketAddr::V4(a) => {
            out.put_u8(4);
            out.put_slice(&a.ip().octets());
        }
        SocketAddr::V6(a) => {
            out.put_u8(6);
            out.put_slice(&a.ip().octets());
        }
    }
    out.put_u16(a.port());
}

/// The bytes of the frame according to the wire format.
fn encode(f: F, i: u8) -> Result<Vec<u8>, Violation> {
    let mut want = vec![];
    match f {
        F::Ack => head(&mut want, 6, 0),
        F::Bye => head(&mut want, 7, 0),
        F::Hello4 | F::Hello6 => {
            head(&mut want, 4, if f == F::Hello4 { 7 } else { 19 });
            put_addr(&mut want, if f == F::Hello4 { addr4(i) } else { addr6(i) });
        }
        F::Start4 | F::Start6 => {
            head(&mut want, 5, if f == F::Start4 { 23 } else { 35 });
            put_addr(&mut want, if f == F::Start4 { addr4(i) } else { addr6(i) });
            want.put_u128(session(i).as_u128());
        }
        F::Data(n) => {
            head(&mut want, 2, n as usize);
            want.put_slice(&payload(i, n));
        }
    };
    Ok(want)
}

/// Kompact's own encoder produces what the wire format says.
fn encoding(ctx: &Ctx) -> Outcome {
    let f = match ctx.pick(7) {
        0 => F::Ack,
        1 => F::Bye,
        2 => F::Hello4,
        3 => F::Hello6,
        4 => F::Start4,
        5 => F::Start6,
        _ => F::Data(ctx.pick(400) as u16 + 1),
    };
    let i = ctx.pick(3) as u8;
    let offset = ctx.pick(128);
    let mut c = BufferConfig::default();
    c.chunk_size(128);
    c.encode_buf_min_free_space(0);
    let mut buffer = EncodeBuffer::with_config(&c, &None);
    let mut frame = match f {
        F::Ack => Frame::Ack(),
        F::Bye => Frame::Bye(),
        F::Hello4 => Frame::Hello(Hello::new(addr4(i))),
        F::Hello6 => Frame::Hello(Hello::new(addr6(i))),
        F::Start4 => Frame::Start(Start::new(addr4(i), session(i))),
        F::Start6 => Frame::Start(Start::new(addr6(i), session(i))),
        F::Data(n) => {
            let mut enc = buffer.get_buffer_encoder().unwrap();
            enc.put_slice(&vec![0; offset]);
            let _ = enc.get_chunk_lease();
            enc.put_slice(&payload(i, n));
            let lease = enc.get_chunk_lease().map_err(|e| Violation::new("encode error", format!("{e}")))?;
            Frame::Data(Data::new(lease))
        }
    };
    ctx.step();
    let want = encode(f, i)?;
    let announced = frame.encoded_len() + 9;
    let mut got = vec![];
    frame
        .encode_into(&mut got)
        .map_err(|e| Violation::new("encode error", format!("{f:?}: {e:?}")))?;
    ensure!(got == want, "frame encoded differently", "{f:?}: {got:?} instead of {want:?}");
    ensure!(announced == got.len(), "encoded_len wrong", "{f:?}: {announced} for {} bytes", got.len());
    drop(frame);
    ctx.state(&(f, i, offset));
    ctx.outcome(&got.len());
    Ok(())
}

fn same(f: F, i: u8, got: &Frame) -> bool {
    match (f, got) {
        (F::Ack, Frame::Ack()) | (F::Bye, Frame::Bye()) => true,
        (F::Hello4, Frame::Hello(h)) => h.addr() == addr4(i),
        (F::Hello6, Frame::Hello(h)) => h.addr() == addr6(i),
        (F::Start4, Frame::Start(s)) => s.addr() == addr4(i) && s.id() == session(i),
        (F::Start6, Frame::Start(s)) => s.addr() == addr6(i) && s.id() == session(i),
        (F::Data(n), Frame::Data(d)) => lease_bytes(d) == payload(i, n),
        _ => false,
    }
}

fn lease_bytes(d: &kompact::net::frames::Data) -> Vec<u8> {
    d.payload.create_byte_clone().to_vec()
}

/// A receiving channel: a decode buffer and a pool, used as the network channels use them.
struct Rx {
    pool: BufferPool,
    buf: DecodeBuffer,
}

enum Got {
    Frame(Frame),
    None,
    Err(String),
}

impl Rx {
    fn new(min_free: usize, max: usize) -> Rx {
        let mut c = BufferConfig::default();
        c.chunk_size(128);
        c.initial_chunk_count(1);
        c.max_chunk_count(max);
        c.encode_buf_min_free_space(min_free);
        let mut pool = BufferPool::with_config(&c, &None);
        let chunk = pool.get_buffer().unwrap();
        Rx { buf: DecodeBuffer::new(chunk, &c), pool }
    }

    /// Read as much as fits now; false if the buffer is full while bytes are left.
    fn receive(&mut self, input: &mut &[u8], max: usize) -> bool {
        loop {
            let Some(w) = self.buf.get_writeable() else {
                return false;
            };
            if input.is_empty() {
                return true;
            }
            let n = w.len().min(input.len()).min(max);
            w[..n].copy_from_slice(&input[..n]);
            self.buf.advance_writeable(n);
            *input = &input[n..];
        }
    }

    fn swap(&mut self) -> Result<(), Violation> {
        let Some(mut b) = self.pool.get_buffer() else {
            return Err(Violation::new(
                "receive buffers exhausted",
                "the pool has no buffer left although the decoded frames were dropped".to_string(),
            ));
        };
        self.buf.swap_buffer(&mut b);
        self.pool.return_buffer(b);
        Ok(())
    }

    fn read_frame(&mut self, input: &mut &[u8], max: usize) -> Result<Got, Violation> {
        match self.buf.has_frame() {
            Err(e) => return Ok(Got::Err(e.to_string())),
            Ok(true) => (),
            Ok(false) => {
                if !self.receive(input, max) {
                    match self.buf.has_frame() {
                        Err(e) => return Ok(Got::Err(e.to_string())),
                        Ok(true) => (),
                        Ok(false) => {
                            self.swap()?;
                            return self.read_frame(input, max);
                        }
                    }
                }
            }
        }
        Ok(match self.buf.get_frame() {
            Ok(f) => Got::Frame(f),
            Err(kompact::net::frames::FramingError::NoData) => Got::None,
            Err(e) => Got::Err(format!("{e:?}")),
        })
    }
}

const ALPHABET: [F; 13] = [
    F::Ack,
    F::Hello4,
    F::Data(1),
    F::Start6,
    F::Data(110),
    F::Data(119),
    F::Data(120),
    F::Data(250),
    F::Bye,
    F::Hello6,
    F::Start4,
    F::Data(7),
    F::Data(128),
];

/// `n` frames after a first frame of each length, cut at each choice of `cuts` positions.
fn splits(ctx: &Ctx, n: usize, cuts: usize, letters: usize, pad: bool) -> Outcome {
    let mut frames = vec![];
    if pad {
        // shifts everything relative to the chunk boundaries
        frames.push(F::Data(1 + ctx.pick(128) as u16));
    }
    for _ in 0..n {
        frames.push(*ctx.pick_of(&ALPHABET[..letters]));
    }
    let min_free = *ctx.pick_of(&[64, 0]);
    // 0: frames are decoded as they arrive and dropped; 1: the same, but all are held;
    // 2: nothing is decoded before everything has arrived
    let mode = ctx.pick(3);
    let mut stream = vec![];
    let mut ends = vec![];
    for (i, f) in frames.iter().enumerate() {
        stream.extend(encode(*f, i as u8)?);
        ends.push(stream.len());
    }
    let mut at: Vec<usize> = vec![];
    for _ in 0..cuts {
        // 0 means no further cut
        let lo = at.last().copied().unwrap_or(0);
        let c = ctx.pick(stream.len() - lo);
        if c == 0 {
            break;
        }
        at.push(lo + c);
    }
    at.push(stream.len());
    ctx.log(|| format!("frames {frames:?} min_free {min_free} mode {mode} cuts {at:?}"));
    let mut rx = Rx::new(min_free, if mode == 0 { 8 } else { 64 });
    let mut decoded: Vec<Frame> = vec![];
    let mut count = 0;
    let mut from = 0;
    for &to in &at {
        let mut input = &stream[from..to];
        from = to;
        ctx.step();
        if mode == 2 {
            while !rx.receive(&mut input, usize::MAX) {
                rx.swap()?;
            }
            if to < stream.len() {
                continue;
            }
        }
        loop {
            match rx.read_frame(&mut input, usize::MAX)? {
                Got::None => break,
                Got::Err(e) => {
                    return Err(Violation::new(
                        "valid stream rejected",
                        format!("{frames:?} cut at {at:?}: frame {count}: {e}"),
                    ));
                }
                Got::Frame(f) => {
                    ensure!(
                        count < frames.len() && same(frames[count], count as u8, &f),
                        "frame decoded differently",
                        "{frames:?} cut at {at:?}: frame {count} decoded as {f:?}"
                    );
                    count += 1;
                    if mode != 0 {
                        decoded.push(f);
                    }
                }
            }
        }
        let complete = ends.iter().filter(|e| **e <= to).count();
        ensure!(
            count == complete && input.is_empty(),
            "wrong number of frames decoded",
            "{frames:?} cut at {at:?}: {count} decoded after {to} bytes which contain {complete}"
        );
        ctx.state(&(count, to, at.len(), stream.len(), mode));
    }
    for (i, f) in decoded.iter().enumerate() {
        ensure!(
            same(frames[i], i as u8, f),
            "decoded frame changed later",
            "{frames:?} cut at {at:?}: frame {i} is now {f:?}"
        );
    }
    ctx.outcome(&(count, at.len()));
    Ok(())
}

/// The whole stream arrives in reads of a fixed small size.
fn trickle(ctx: &Ctx, n: usize) -> Outcome {
    let mut frames = vec![];
    for _ in 0..n {
        frames.push(*ctx.pick_of(&ALPHABET));
    }
    let size = *ctx.pick_of(&[1, 2, 3, 8, 9, 10, 64, 119, 120, 127, 128, 129]);
    let min_free = *ctx.pick_of(&[64, 0, 9]);
    let mut stream = vec![];
    let mut ends = vec![];
    for (i, f) in frames.iter().enumerate() {
        stream.extend(encode(*f, i as u8)?);
        ends.push(stream.len());
    }
    let mut rx = Rx::new(min_free, 8);
    let mut count = 0;
    let mut seen = 0;
    for part in stream.chunks(size) {
        let mut input = part;
        seen += part.len();
        ctx.step();
        loop {
            match rx.read_frame(&mut input, usize::MAX)? {
                Got::None => break,
                Got::Err(e) => {
                    return Err(Violation::new("valid stream rejected", format!("{frames:?} in reads of {size}: frame {count}: {e}")));
                }
                Got::Frame(f) => {
                    ensure!(
                        count < frames.len() && same(frames[count], count as u8, &f),
                        "frame decoded differently",
                        "{frames:?} in reads of {size}: frame {count} decoded as {f:?}"
                    );
                    count += 1;
                }
            }
        }
        let complete = ends.iter().filter(|e| **e <= seen).count();
        ensure!(count == complete, "wrong number of frames decoded", "{frames:?} in reads of {size}: {count} decoded after {seen} bytes which contain {complete}");
    }
    ctx.outcome(&count);
    ctx.state(&(frames, size));
    Ok(())
}

/// Malformed frames are errors, whatever they contain.
fn malformed(ctx: &Ctx, types: usize) -> Outcome {
    let kind = ctx.pick(types) as u8;
    let len = *ctx.pick_of(&[0usize, 1, 2, 5, 6, 7, 8, 18, 19, 20, 22, 23, 24, 34, 35, 36, 130]);
    let first = *ctx.pick_of(&[4u8, 6, 0, 5, 255]);
    let mut stream = vec![];
    head(&mut stream, kind, len);
    for k in 0..len {
        stream.push(if k == 0 { first } else { k as u8 });
    }
    stream.extend(encode(F::Data(9), 1)?);
    let cut = if ctx.pick(2) == 0 { stream.len() } else { 9 + len / 2 };
    let mut rx = Rx::new(64, 8);
    let mut results = vec![];
    'all: for part in [&stream[..cut], &stream[cut..]] {
        let mut input = part;
        loop {
            ctx.step();
            match rx.read_frame(&mut input, usize::MAX)? {
                Got::None => break,
                Got::Err(e) => {
                    results.push(Err(e));
                    break 'all; // the channel is closed on an error
                }
                Got::Frame(f) => results.push(Ok(f)),
            }
        }
    }
    let ok_len = |v4: usize, v6: usize| (first == 4 && len == v4) || (first == 6 && len == v6);
    let more = |v4: usize, v6: usize| (first == 4 && len > v4) || (first == 6 && len > v6);
    let (valid, tolerable) = match kind {
        2 => (len > 0, len == 0),
        4 => (ok_len(7, 19), more(7, 19)),
        5 => (ok_len(23, 35), more(23, 35)),
        6 | 7 => (len == 0, len > 0),
        _ => (false, false),
    };
    let what = || format!("frame type {kind} length {len} first byte {first}: {results:?}");
    let accepted = matches!(results.first(), Some(Ok(_)));
    ensure!(!results.is_empty(), "malformed frame neither error nor frame", "{}", what());
    ensure!(accepted || !valid, "valid frame rejected", "{}", what());
    ensure!(!accepted || valid || tolerable, "malformed frame accepted", "{}", what());
    if accepted && valid {
        ensure!(
            results.len() == 2 && matches!(&results[1], Ok(f) if same(F::Data(9), 1, f)),
            "frame after a valid frame lost",
            "{}",
            what()
        );
    }
    if let Some(Ok(f)) = results.first() {
        let right = match f {
            Frame::Data(_) => kind == 2,
            Frame::Hello(_) => kind == 4,
            Frame::Start(_) => kind == 5,
            Frame::Ack() => kind == 6,
            Frame::Bye() => kind == 7,
        };
        ensure!(right, "frame of another type", "{}", what());
    }
    ctx.outcome(&(accepted, valid, results.len()));
    ctx.state(&(kind, len, first));
    Ok(())
}

/// Every corruption of one byte of a frame head: an error, or a frame as announced.
fn corrupted_head(ctx: &Ctx) -> Outcome {
    let f = *ctx.pick_of(&[F::Data(20), F::Hello4, F::Start6, F::Ack]);
    let pos = ctx.pick(9);
    let val = ctx.pick(256) as u8;
    let mut stream = encode(f, 0)?;
    let orig = stream[pos];
    stream[pos] = val;
    stream.extend(encode(F::Data(9), 1)?);
    let mut rx = Rx::new(64, 8);
    let mut input = &stream[..];
    let mut results = vec![];
    loop {
        ctx.step();
        match rx.read_frame(&mut input, usize::MAX)? {
            Got::None => break,
            Got::Err(e) => {
                results.push(Err(e));
                break;
            }
            Got::Frame(f) => results.push(Ok(f)),
        }
    }
    if pos < 4 && val != orig {
        ensure!(
            matches!(results.first(), Some(Err(_))),
            "wrong magic number accepted",
            "{f:?} with byte {pos} = {val}: {results:?}"
        );
    }
    if val == orig {
        ensure!(
            results.len() == 2 && results.iter().all(|r| r.is_ok()),
            "valid frame rejected",
            "{f:?}: {results:?}"
        );
    }
    ctx.outcome(&results.len());
    ctx.state(&(f, pos, val));
    Ok(())
}

/// A head announces more than has arrived: no frame, however long the announced one is.
fn announced(ctx: &Ctx) -> Outcome {
    let kind = *ctx.pick_of(&[2u8, 4, 5, 6, 7]);
    let low = *ctx.pick_of(&[0u32, 1, 5, 7, 9, 23, 40]);
    let high = *ctx.pick_of(&[0x100u32, 0x1_0000, 0x100_0000, 0x1000_0000, 0x8000_0000, 0xFFFF_FF00]);
    let have = *ctx.pick_of(&[0usize, 1, 5, 7, 9, 23, 40, 100]);
    let mut stream = vec![];
    head(&mut stream, kind, 0);
    stream[4..8].copy_from_slice(&(high | low).to_be_bytes());
    for k in 0..have {
        stream.push(if k == 0 { 4 } else { k as u8 });
    }
    let mut rx = Rx::new(64, 8);
    let mut input = &stream[..];
    loop {
        ctx.step();
        match rx.read_frame(&mut input, usize::MAX)? {
            Got::Frame(f) => return Err(Violation::new("frame before its end", format!("type {kind}, announced {}, {have} bytes: {f:?}", high | low))),
            Got::Err(_) => break,
            Got::None if input.is_empty() => break,
            Got::None => (),
        }
    }
    ctx.state(&(kind, low, high, have));
    Ok(())
}

/// What has been received is thrown away at any point: the next frames are as on a new buffer.
fn discarded(ctx: &Ctx) -> Outcome {
    let fs = [F::Data(5), F::Data(9), F::Data(150), F::Hello4, F::Start6, F::Ack];
    let first = encode(*ctx.pick_of(&fs), 0)?;
    let skip = ctx.pick(2) == 1;
    let cut = ctx.pick(first.len());
    let second = *ctx.pick_of(&fs);
    let mut rx = Rx::new(64, 8);
    if skip {
        let one = encode(F::Data(3), 2)?;
        let mut input = &one[..];
        ensure!(matches!(rx.read_frame(&mut input, usize::MAX)?, Got::Frame(f) if same(F::Data(3), 2, &f)), "valid frame rejected", "the first");
    }
    let mut input = &first[..cut];
    ensure!(matches!(rx.read_frame(&mut input, usize::MAX)?, Got::None), "frame before its end", "cut at {cut}");
    rx.buf.discard();
    let mut stream = encode(second, 1)?;
    stream.extend(encode(F::Data(9), 1)?);
    let mut input = &stream[..];
    for want in [second, F::Data(9)] {
        match rx.read_frame(&mut input, usize::MAX)? {
            Got::Frame(f) if same(want, 1, &f) => (),
            Got::Frame(f) => return Err(Violation::new("frame after discarded bytes", format!("cut at {cut}: {f:?} instead of {want:?}"))),
            Got::None => return Err(Violation::new("frame after discarded bytes", format!("cut at {cut}: {want:?} is not found"))),
            Got::Err(e) => return Err(Violation::new("frame after discarded bytes", format!("cut at {cut}: {e} instead of {want:?}"))),
        }
    }
    ctx.state(&(first, cut, second, skip));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    
    vec![Check {
        id: "C17",
        level: "model_checking",
        rule: "every sequence of frames up to the depth, at every alignment to the receive chunks and cut at every choice of up to two positions, fed to the real decode buffer as the channels do, compared with the encoded frames; every frame type byte with boundary lengths and every one-byte corruption of a frame head",
        assumptions: vec!["payload contents do not influence the framing".into()],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("malformed", 0, |c| malformed(c, 256)).same_thread(),
                Scenario::new("corrupted-head", 0, corrupted_head).same_thread(),
                Scenario::new("encoding", 0, encoding).same_thread(),
                Scenario::new("announced", 0, announced).same_thread(),
                Scenario::new("discarded", 0, discarded).same_thread(),
                Scenario::new("trickle", 0, move |c| trickle(c, t.or(4, 5))).same_thread(),
                Scenario::new("one-cut", 0, move |c| splits(c, t.or(3, 4), 1, 13, false)).same_thread().weight(2),
                Scenario::new("two-cuts", 0, move |c| splits(c, 2, 2, t.or(8, 13), false)).same_thread().weight(3),
                Scenario::new("aligned-cut", 0, move |c| splits(c, 1, 1, 13, true)).same_thread().weight(3),
                Scenario::new("aligned-pairs", 0, move |c| splits(c, 2, 1, t.or(3, 13), true)).same_thread().weight(3),
                Scenario::new("three-cuts", 0, move |c| splits(c, t.or(1, 2), 3, t.or(5, 7), false)).same_thread().weight(3),
            ]
        }),
    }]
}
