//! C15: the wire format of messages and paths; C16: serialisers and deserialisation; C23: bit fields.

use crate::paths::{UUIDS, systems};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use explore::{Check, Ctx, Outcome, Scenario, Violation, ensure};
use kompact::{
    match_deser,
    messaging::{
        HeapOrSer, NetData, NetMessage, Serialised, UnpackError,
        bitfields::{BitField, BitFieldExt, Error as BitError},
        framing::SystemPathHeader,
    },
    net::{
        buffers::{BufferConfig, ChunkLease, ChunkRef, EncodeBuffer},
        frames::{FRAME_HEAD_LEN, FrameType},
    },
    prelude::{
        ActorPath, Deserialiser, NamedPath, SerError, SerId, Serialisable, SerialisableValue, SerialisationId, Serialiser, SystemPath,
        Transport, TryClone, UniquePath, ser_helpers,
    },
    serde_serialisers::Serde,
};
use serde::{Deserialize, Serialize};
use std::{any::Any, cell::RefCell, collections::BTreeMap, convert::TryFrom, fmt::Debug};
use uuid::Uuid;

// ------------------------------------------------------------------ paths

fn any_path(ctx: &Ctx) -> ActorPath {
    let (sys, _) = systems(ctx);
    match ctx.pick(2) {
        0 => UniquePath::with_system(sys, Uuid::from_u128(*ctx.pick_of(&UUIDS))).into(),
        _ => {
            let k = ctx.pick(7);
            NamedPath::with_system(sys, name(k)).into()
        }
    }
}
fn name(k: usize) -> Vec<String> {
    match k {
        0 => vec![],
        1 => vec!["a".into()],
        2 => vec!["a".into(), "b:1".into(), "*".into()],
        3 => vec!["?".into()],
        4 => vec!["é".into(), "x".repeat(254)],
        5 => vec!["y".repeat(65535)],
        _ => vec!["z".repeat(65536)],
    }
}
fn name_len(p: &ActorPath) -> usize {
    match p {
        ActorPath::Named(n) => n.path_ref().join("/").len(),
        _ => 0,
    }
}

/// A path survives, alone and with other bytes behind it.
fn path_roundtrip(ctx: &Ctx) -> Outcome {
    let p = any_path(ctx);
    let mut buf = BytesMut::new();
    let res = Serialisable::serialise(&p, &mut buf);
    if name_len(&p) > 65535 {
        ensure!(res.is_err(), "too long name accepted", "{} bytes", name_len(&p));
        return Ok(());
    }
    ensure!(res.is_ok(), "path serialise", "{p}: {res:?}");
    ctx.state(&p);
    for extra in [0usize, 3] {
        let mut b = buf.clone();
        b.put_bytes(0xFF, extra);
        let mut b = b.freeze();
        match <ActorPath as Deserialiser<ActorPath>>::deserialise(&mut b) {
            Ok(q) => ensure!(q == p, "path roundtrip", "{p:?} is decoded as {q:?}"),
            Err(e) => return Err(Violation::new("path roundtrip", format!("{p:?} is not decoded: {e}"))),
        }
        ensure!(b.remaining() == extra, "path consumption", "{p}: {} bytes left of {extra}", b.remaining());
    }
    // the system path alone
    let sys: &SystemPath = kompact::prelude::SystemField::system(&p);
    let mut buf = BytesMut::new();
    ensure!(sys.serialise(&mut buf).is_ok(), "system path serialise", "{sys}");
    match SystemPath::deserialise(&mut buf) {
        Ok(s) => ensure!(&s == sys && !buf.has_remaining(), "system path roundtrip", "{sys:?} {s:?}"),
        Err(e) => return Err(Violation::new("system path roundtrip", format!("{sys:?} is not decoded: {e}"))),
    }
    // as a message of a local actor
    let boxed: Box<dyn Serialisable> = Box::new(sys.clone());
    let local = boxed.local().map_err(|_| Violation::new("system path local", "not local"))?;
    ensure!(local.downcast::<SystemPath>().map(|s| *s) .as_ref().ok() == Some(sys), "system path local", "other type");
    Ok(())
}

fn few_paths() -> [ActorPath; 6] {
    let t = Transport::Tcp;
    let v4 = "10.1.2.3".parse().unwrap();
    let v6 = "fe80::a1:b2".parse().unwrap();
    [
        UniquePath::new(t, v4, 0x1234, Uuid::from_u128(7)).into(),
        NamedPath::new(t, v6, 1, vec!["ab".into(), "c".into()]).into(),
        NamedPath::new(Transport::Udp, v4, 65535, vec![]).into(),
        UniquePath::new(Transport::Local, v6, 0, Uuid::from_u128(u128::MAX - 5)).into(),
        NamedPath::new(t, v4, 80, vec!["n".repeat(150), "*".into()]).into(),
        NamedPath::new(t, v4, 80, vec!["é".into(), "?".into()]).into(),
    ]
}

// ------------------------------------------------------------------ messages

/// A payload; its deserialiser takes everything that is left.
#[derive(Debug, Clone, PartialEq, Eq)]
struct Blob {
    data: Vec<u8>,
    hint: Option<usize>,
    bytewise: bool,
}
const BLOB_ID: SerId = 0x0102_0304_0506_0708;
impl Serialisable for Blob {
    fn ser_id(&self) -> SerId {
        BLOB_ID
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        if self.bytewise {
            for b in &self.data {
                buf.put_u8(*b);
            }
        } else {
            buf.put_slice(&self.data);
        }
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(Box::new(self.data))
    }
}
struct BlobDeser;
impl Deserialiser<Vec<u8>> for BlobDeser {
    const SER_ID: SerId = BLOB_ID;

    fn deserialise(buf: &mut dyn Buf) -> Result<Vec<u8>, SerError> {
        let n = buf.remaining();
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let c = buf.chunk();
            if c.is_empty() {
                return Err(SerError::invalid_data("empty chunk with bytes remaining"));
            }
            let l = c.len();
            v.extend_from_slice(c);
            buf.advance(l);
        }
        if !buf.chunk().is_empty() {
            return Err(SerError::invalid_data("chunk beyond the end"));
        }
        Ok(v)
    }
}
fn blob(ctx: &Ctx, lens: &[usize], i: u8) -> Blob {
    let len = *ctx.pick_of(lens);
    let data: Vec<u8> = (0..len).map(|k| (k as u8).wrapping_mul(5).wrapping_add(i)).collect();
    let (hint, bytewise) = match ctx.pick(4) {
        0 => (Some(len), false),
        1 => (Some(len), true),
        2 => (Some(len / 2), false),
        _ => (Some(len + 33), true),
    };
    Blob { data, hint, bytewise }
}

fn encoder(ctx: &Ctx) -> EncodeBuffer {
    let mut c = BufferConfig::default();
    let (size, free) = *ctx.pick_of(&[(4096, 64), (128, 8), (128, 127)]);
    c.chunk_size(size);
    c.initial_chunk_count(1);
    c.max_chunk_count(40);
    c.encode_buf_min_free_space(free);
    EncodeBuffer::with_config(&c, &None)
}

enum Enc {
    Lease(ChunkLease),
    Ref(ChunkRef),
}
impl Enc {
    fn bytes(&self) -> Bytes {
        match self {
            Enc::Lease(l) => l.create_byte_clone(),
            Enc::Ref(r) => {
                let mut r = r.clone();
                r.copy_to_bytes(r.remaining())
            }
        }
    }
}

fn ser_err(what: &str) -> impl Fn(SerError) -> Violation + '_ {
    move |e| Violation::new("encode failed", format!("{what}: {e}"))
}

/// Checks the frame head and returns a message decoded from the rest.
fn decode(ctx: &Ctx, enc: Enc, what: &str) -> Result<NetMessage, Violation> {
    let bytes = enc.bytes();
    let hl = FRAME_HEAD_LEN as usize;
    ensure!(bytes.len() >= hl, "frame too short", "{what}");
    let mut head = bytes.clone();
    let (magic, len, kind) = (head.get_u32(), head.get_u32() as usize, head.get_u8());
    ensure!(
        magic == 0xC0A1_BA11 && kind == FrameType::Data as u8 && len == bytes.len() - hl,
        "frame head",
        "{what}: {magic:#x} {len} {kind} for {} bytes",
        bytes.len()
    );
    let r = match (ctx.pick(3), enc) {
        (0, _) => ser_helpers::deserialise_bytes(bytes.slice(hl..)),
        (1, Enc::Lease(mut l)) => {
            l.advance(hl);
            ser_helpers::deserialise_chunk_lease(l)
        }
        (_, Enc::Lease(l)) => {
            let mut r = l.into_chunk_ref();
            r.advance(hl);
            ser_helpers::deserialise_chunk_ref(r)
        }
        (_, Enc::Ref(mut r)) => {
            r.advance(hl);
            ser_helpers::deserialise_chunk_ref(r)
        }
    };
    r.map_err(|e| Violation::new("decode failed", format!("{what}: {e}")))
}

fn same(msg: NetMessage, src: &ActorPath, dst: &ActorPath, data: &[u8], what: &str) -> Outcome {
    ensure!(&msg.sender == src && msg.sender() == src, "sender", "{what}: {} instead of {src}", msg.sender);
    ensure!(&msg.receiver == dst, "receiver", "{what}: {} instead of {dst}", msg.receiver);
    ensure!(*msg.ser_id() == BLOB_ID && msg.data.ser_id == BLOB_ID, "ser id", "{what}: {}", msg.ser_id());
    match msg.try_deserialise::<Vec<u8>, BlobDeser>() {
        Ok(v) => ensure!(v == data, "payload", "{what}: {} bytes instead of {}: {:?}", v.len(), data.len(), &v[..v.len().min(20)]),
        Err(e) => return Err(Violation::new("payload", format!("{what}: {e:?}"))),
    }
    Ok(())
}

/// One message through each way of encoding, cloning, forwarding and decoding.
fn messages(lens: &'static [usize], hops: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let mut eb = encoder(ctx);
        let paths = few_paths();
        let (src, dst) = (ctx.pick_of(&paths[..5]).clone(), ctx.pick_of(&paths[1..5]).clone());
        let b = blob(ctx, lens, 1);
        let mut what = format!("{src} → {dst}, {} bytes, hint {:?}, bytewise {}", b.data.len(), b.hint, b.bytewise);
        // something before it in the buffer
        let before = *ctx.pick_of(&[0usize, 100]);
        let _first = if before > 0 {
            let mut be = eb.get_buffer_encoder().map_err(ser_err("first"))?;
            be.put_slice(&vec![0xAB; before]);
            Some(be.get_chunk_lease().map_err(ser_err("first"))?)
        } else {
            None
        };
        let mut be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
        let way = ctx.pick(6);
        what = format!("{what}, way {way}, behind {before}");
        let enc = match way {
            0 => Enc::Lease(ser_helpers::serialise_msg(&src, &dst, &b, &mut be).map_err(ser_err(&what))?),
            1 => {
                let boxed: Box<dyn Serialisable> = Box::new(b.clone());
                Enc::Lease(ser_helpers::serialise_msg(&src, &dst, &*boxed, &mut be).map_err(ser_err(&what))?)
            }
            2 => {
                let m = ser_helpers::serialise_to_msg(src.clone(), dst.clone(), Box::new(b.clone())).map_err(ser_err(&what))?;
                Enc::Ref(ser_helpers::embed_msg(m, &mut be).map_err(ser_err(&what))?)
            }
            3 => {
                let m = NetMessage::with_box(b.ser_id(), src.clone(), dst.clone(), Box::new(b.clone()));
                let m = if ctx.pick(2) == 1 { m.try_clone().map_err(ser_err(&what))? } else { m };
                Enc::Ref(ser_helpers::embed_msg(m, &mut be).map_err(ser_err(&what))?)
            }
            4 => {
                let pre = ser_helpers::preserialise_msg(&b, &mut be).map_err(ser_err(&what))?;
                drop(be);
                // used for another message before
                be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
                let other = ser_helpers::serialise_msg_with_preserialised(&dst, &src, pre.clone(), &mut be).map_err(ser_err(&what))?;
                drop(be);
                be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
                let one = ser_helpers::serialise_msg_with_preserialised(&src, &dst, pre, &mut be).map_err(ser_err(&what))?;
                same(decode(ctx, Enc::Ref(other), &what)?, &dst, &src, &b.data, &what)?;
                Enc::Ref(one)
            }
            _ => {
                let s = match ctx.pick(3) {
                    0 => ser_helpers::serialise_to_serialised(&b),
                    1 => b.serialised(),
                    _ => Serialised::try_from(&b as &dyn Serialisable),
                }
                .map_err(ser_err(&what))?;
                ensure!(s.ser_id == BLOB_ID && s.data == b.data, "serialised", "{what}: {s:?}");
                let m = NetMessage::with_bytes(s.ser_id, src.clone(), dst.clone(), s.data);
                Enc::Ref(ser_helpers::embed_msg(m, &mut be).map_err(ser_err(&what))?)
            }
        };
        drop(be);
        let mut msg = decode(ctx, enc, &what)?;
        // forwarded by other actors, unread or cloned
        for h in 0..hops {
            match ctx.pick(4) {
                0 => break,
                1 => {}
                2 => {
                    let session = kompact::prelude::SessionId::from_u128(5);
                    msg.set_session(session);
                    let c = msg.try_clone().map_err(ser_err(&what))?;
                    ensure!(c.session() == Some(session) && msg.session() == Some(session), "session of a clone", "{what}: {c:?}");
                    same(msg, &src, &dst, &b.data, &format!("{what}, original of the clone at hop {h}"))?;
                    msg = c;
                }
                _ => {
                    let c = msg.try_clone().map_err(ser_err(&what))?;
                    same(c, &src, &dst, &b.data, &format!("{what}, clone at hop {h}"))?;
                }
            }
            let mut be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
            let enc = Enc::Ref(ser_helpers::embed_msg(msg, &mut be).map_err(ser_err(&what))?);
            what = format!("{what}, forwarded");
            msg = decode(ctx, enc, &what)?;
        }
        ctx.state(&(&what,));
        same(msg, &src, &dst, &b.data, &what)
    }
}

/// A message without a size hint or with a failing serialiser gives an error, and leaves the
/// encode buffer usable.
fn failing_messages(ctx: &Ctx) -> Outcome {
    #[derive(Debug)]
    struct Bad(usize);
    impl Serialisable for Bad {
        fn ser_id(&self) -> SerId {
            3
        }
        fn size_hint(&self) -> Option<usize> {
            Some(4)
        }
        fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
            buf.put_bytes(0x55, self.0);
            Err(SerError::invalid_type("planned"))
        }
        fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
            Ok(self)
        }
    }
    let mut eb = encoder(ctx);
    let paths = few_paths();
    let (src, dst) = (&paths[0], &paths[1]);
    for round in 0..3u8 {
        let n = *ctx.pick_of(&[0usize, 5, 200]);
        let way = ctx.pick(5);
        let mut be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
        let failed = match way {
            0 => ser_helpers::serialise_msg(src, dst, &Bad(n), &mut be).is_err(),
            1 => ser_helpers::serialise_to_serialised(&Bad(n)).is_err(),
            2 => ser_helpers::serialise_to_msg(src.clone(), dst.clone(), Box::new(Bad(n))).is_err(),
            3 => ser_helpers::preserialise_msg(&Bad(n), &mut be).is_err(),
            _ => ser_helpers::embed_msg(NetMessage::with_box(3, src.clone(), dst.clone(), Box::new(Bad(n))), &mut be).is_err(),
        };
        ensure!(failed, "failure hidden", "way {way}, {n} bytes written before");
        drop(be);
        let b = Blob { data: vec![round; 20], hint: Some(20), bytewise: false };
        let mut be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
        let what = format!("message after a failed one (way {way}, {n} bytes)");
        let l = ser_helpers::serialise_msg(src, dst, &b, &mut be).map_err(ser_err(&what))?;
        drop(be);
        ctx.state(&(round, n, way));
        same(decode(ctx, Enc::Lease(l), &what)?, src, dst, &b.data, &what)?;
    }
    Ok(())
}

fn plain_bytes(src: &ActorPath, dst: &ActorPath, ser_id: SerId, data: &[u8]) -> Result<Vec<u8>, Violation> {
    let mut v = Vec::new();
    src.serialise(&mut v).map_err(ser_err("src"))?;
    dst.serialise(&mut v).map_err(ser_err("dst"))?;
    v.put_u64(ser_id);
    v.put_slice(data);
    Ok(v)
}

/// Every truncation and every change of one byte gives an error or a message with exactly these bytes.
fn corruption(ctx: &Ctx) -> Outcome {
    let paths = few_paths();
    let k = ctx.pick(3);
    let (src, dst) = (&paths[[0, 1, 5][k]], &paths[[1, 2, 3][k]]);
    let good = plain_bytes(src, dst, 0x11, &[9, 8, 7])?;
    let mut v = good.clone();
    let at = ctx.pick(v.len());
    let truncate = ctx.pick(257);
    if truncate == 256 {
        v.truncate(at);
    } else {
        v[at] = truncate as u8;
    }
    let via = ctx.pick(2);
    let what = format!("{src} → {dst}: byte {at} {}", if truncate == 256 { "cut".to_string() } else { format!("set to {truncate}") });
    let r = if via == 0 {
        ser_helpers::deserialise_bytes(Bytes::from(v.clone()))
    } else {
        let mut c = BufferConfig::default();
        c.chunk_size(128);
        c.initial_chunk_count(1);
        c.max_chunk_count(4);
        c.encode_buf_min_free_space(1);
        let mut eb = EncodeBuffer::with_config(&c, &None);
        let mut be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
        // make it cross a chunk border
        be.put_slice(&[0; 100]);
        let _pad = be.get_chunk_lease().map_err(ser_err("pad"))?;
        if v.is_empty() {
            ser_helpers::deserialise_chunk_lease(ChunkLease::empty())
        } else {
            be.put_slice(&v);
            let l = be.get_chunk_lease().map_err(ser_err("lease"))?;
            ser_helpers::deserialise_chunk_lease(l)
        }
    };
    ctx.outcome(&r.is_ok());
    ctx.state(&(k, at, truncate, via));
    match r {
        Err(_) => ensure!(v != good, "good bytes rejected", "{what}"),
        Ok(m) => {
            let (s, d, id) = (m.sender.clone(), m.receiver.clone(), *m.ser_id());
            let rest = match m.data.try_deserialise_unchecked::<Vec<u8>, BlobDeser>() {
                Ok(v) => v,
                Err(e) => return Err(Violation::new("payload", format!("{what}: {e:?}"))),
            };
            let again = plain_bytes(&s, &d, id, &rest)?;
            ensure!(again == v, "decoded as something else", "{what}: {s} → {d}, id {id}, {rest:?}");
        }
    }
    Ok(())
}

/// All texts of bytes of a length as a named path.
fn names_of_bytes(ctx: &Ctx) -> Outcome {
    const BYTES: [u8; 10] = [b'a', b'/', b'#', b'*', b'?', 0xC3, 0xA9, 0xFF, 0, 0x80];
    let n = ctx.pick(6);
    let name: Vec<u8> = (0..n).map(|_| *ctx.pick_of(&BYTES)).collect();
    let base: ActorPath = NamedPath::new(Transport::Tcp, "10.1.2.3".parse().unwrap(), 5, vec![]).into();
    let mut v = Vec::new();
    base.serialise(&mut v).map_err(ser_err("base"))?;
    let at = v.len() - 2;
    v.truncate(at);
    v.put_u16(n as u16);
    v.put_slice(&name);
    let expected: Option<Vec<String>> = String::from_utf8(name.clone()).ok().and_then(|s| {
        let segs: Vec<String> = if s.is_empty() { vec![] } else { s.split('/').map(|s| s.to_string()).collect() };
        crate::paths::lookup_ok(&segs).then_some(segs)
    });
    let got = <ActorPath as Deserialiser<ActorPath>>::deserialise(&mut Bytes::from(v));
    ctx.outcome(&got.is_ok());
    ctx.state(&name);
    match (expected, got) {
        (None, Err(_)) => Ok(()),
        (Some(e), Ok(ActorPath::Named(n))) if n.path_ref() == e => Ok(()),
        (e, g) => Err(Violation::new("name bytes", format!("{name:?}: {g:?}, expected {e:?}"))),
    }
}

// ------------------------------------------------------------------ C16

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Unit;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Newtype(i16);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Pair(u8, char);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum En {
    A,
    B(u16),
    C(i8, String),
    D { x: Option<u32>, y: () },
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Blobs(#[serde(with = "blobs")] Vec<u8>);
mod blobs {
    use serde::{Deserializer, Serializer, de::Visitor};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(v)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        struct V;
        impl Visitor<'_> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
                Ok(v)
            }
        }
        d.deserialize_byte_buf(V)
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Everything {
    b: bool,
    i: (i8, i16, i32, i64),
    u: (u8, u16, u32, u64),
    f: (f32, f64),
    c: char,
    s: String,
    o: Option<Box<Everything>>,
    v: Vec<En>,
    m: BTreeMap<String, Newtype>,
    unit: Unit,
    p: Pair,
    e: En,
    a: [u16; 3],
    by: Blobs,
}
macro_rules! ser_ids {
    ($($t:ty = $id:expr),* $(,)?) => { $(impl SerialisationId for $t { const SER_ID: SerId = $id; })* };
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct W<T>(T);
ser_ids! {
    En = 129,
    W<bool> = 100, W<i8> = 101, W<i16> = 102, W<i32> = 103, W<i64> = 104, W<u8> = 105, W<u16> = 106, W<u32> = 107, W<u64> = 108,
    W<f32> = 109, W<f64> = 110, W<char> = 111, W<String> = 112, W<Option<u16>> = 113, W<Option<Option<()>>> = 114, W<Unit> = 115,
    W<Pair> = 116, W<En> = 117, W<Vec<u16>> = 118, W<Vec<Vec<String>>> = 119, W<BTreeMap<u8, String>> = 120, W<Blobs> = 121,
    Everything = 122, W<(u8, (), String)> = 123, W<[i32; 2]> = 124, W<ActorPath> = 125, W<BTreeMap<u32, u8>> = 126, W<Vec<Option<u8>>> = 128,
}

/// A value of some type, as a step of a sequence in one buffer.
trait Item {
    fn put(&self, buf: &mut dyn BufMut) -> Result<(), SerError>;
    fn get(&self, buf: &mut dyn Buf) -> Result<bool, SerError>;
    fn id(&self) -> (SerId, SerId);
    fn text(&self) -> String;
    fn boxed(&self) -> Box<dyn Serialisable>;
    fn take(&self, m: NetMessage) -> Result<bool, UnpackError<NetMessage>>;
}
struct Own<T>(T);
impl<T: Serialisable + Deserialiser<T> + PartialEq + Clone + 'static> Item for Own<T> {
    fn put(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        self.0.serialise(buf)
    }
    fn get(&self, buf: &mut dyn Buf) -> Result<bool, SerError> {
        T::deserialise(buf).map(|x| x == self.0)
    }
    fn id(&self) -> (SerId, SerId) {
        (self.0.ser_id(), T::SER_ID)
    }
    fn text(&self) -> String {
        format!("{:?}", self.0)
    }
    fn boxed(&self) -> Box<dyn Serialisable> {
        Box::new(self.0.clone())
    }
    fn take(&self, m: NetMessage) -> Result<bool, UnpackError<NetMessage>> {
        m.try_deserialise::<T, T>().map(|x| x == self.0)
    }
}
struct Srd<T>(T);
impl<T: Serialize + serde::de::DeserializeOwned + SerialisationId + Debug + Send + Clone + 'static> Item for Srd<T> {
    fn put(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        Serde.serialise(&self.0, buf)
    }
    fn get(&self, buf: &mut dyn Buf) -> Result<bool, SerError> {
        <Serde as Deserialiser<T>>::deserialise(buf).map(|x| format!("{x:?}") == format!("{:?}", self.0))
    }
    fn id(&self) -> (SerId, SerId) {
        (Serialiser::<T>::ser_id(&Serde), <Serde as Deserialiser<T>>::SER_ID)
    }
    fn text(&self) -> String {
        format!("{:?}", self.0)
    }
    fn boxed(&self) -> Box<dyn Serialisable> {
        Box::new(SerialisableValue::new(self.0.clone(), Serde))
    }
    fn take(&self, m: NetMessage) -> Result<bool, UnpackError<NetMessage>> {
        m.try_deserialise::<T, Serde>().map(|x| format!("{x:?}") == format!("{:?}", self.0))
    }
}

fn items() -> Vec<Box<dyn Item>> {
    let p = few_paths();
    let e = |o| Everything {
        b: true,
        i: (-1, i16::MIN, i32::MAX, i64::MIN + 1),
        u: (255, 0xFF00, 0x8000_0001, u64::MAX - 1),
        f: (-0.0, f64::MIN_POSITIVE),
        c: '\u{10FFFF}',
        s: "né".into(),
        o,
        v: vec![En::A, En::B(7), En::C(-8, "".into()), En::D { x: Some(9), y: () }],
        m: [("k".to_string(), Newtype(-300)), ("".to_string(), Newtype(2))].into_iter().collect(),
        unit: Unit,
        p: Pair(3, 'π'),
        e: En::D { x: None, y: () },
        a: [1, 0x0203, 0xFFFE],
        by: Blobs(vec![0, 255, 3]),
    };
    vec![
        Box::new(Own(String::new())),
        Box::new(Own("abc é\0 end".to_string())),
        Box::new(Own("x".repeat(300))),
        Box::new(Own(0u64)),
        Box::new(Own(0x0102_0304_0506_0708u64)),
        Box::new(Own(u64::MAX)),
        Box::new(Own(())),
        Box::new(Own(p[0].clone())),
        Box::new(Own(p[1].clone())),
        Box::new(Own(p[4].clone())),
        Box::new(Srd(W(true))),
        Box::new(Srd(W(false))),
        Box::new(Srd(W(-2i8))),
        Box::new(Srd(W(0x0102i16))),
        Box::new(Srd(W(i32::MIN))),
        Box::new(Srd(W(-3i64))),
        Box::new(Srd(W(200u8))),
        Box::new(Srd(W(0xFFFEu16))),
        Box::new(Srd(W(0x01020304u32))),
        Box::new(Srd(W(u64::MAX / 3))),
        Box::new(Srd(W(1.5e-40f32))),
        Box::new(Srd(W(f64::NEG_INFINITY))),
        Box::new(Srd(W('é'))),
        Box::new(Srd(W("s".repeat(17)))),
        Box::new(Srd(W(Some(0x0100u16)))),
        Box::new(Srd(W(None::<u16>))),
        Box::new(Srd(W(Some(None::<()>)))),
        Box::new(Srd(W(Some(Some(()))))),
        Box::new(Srd(W(Unit))),
        Box::new(Srd(W(Pair(9, '\0')))),
        Box::new(Srd(W(En::A))),
        Box::new(Srd(W(En::B(0xFF)))),
        Box::new(Srd(W(En::C(1, "c".into())))),
        Box::new(Srd(W(En::D { x: Some(1), y: () }))),
        Box::new(Srd(W(Vec::<u16>::new()))),
        Box::new(Srd(W(vec![1u16, 2, 0xFFFF]))),
        Box::new(Srd(W(vec![vec!["a".to_string()], vec![], vec!["".into(), "b".into()]]))),
        Box::new(Srd(W([(1u8, "x".to_string()), (0, "".into())].into_iter().collect::<BTreeMap<_, _>>()))),
        Box::new(Srd(W(Blobs(vec![])))),
        Box::new(Srd(W(Blobs((0..=255).collect())))),
        Box::new(Srd(e(None))),
        Box::new(Srd(e(Some(Box::new(e(None)))))),
        Box::new(Srd(W((1u8, (), "t".to_string())))),
        Box::new(Srd(W([i32::MIN, 1]))),
        Box::new(Srd(W(p[1].clone()))),
        Box::new(Srd(W(p[3].clone()))),
    ]
}
thread_local! {
    static ITEMS: RefCell<Option<&'static [Box<dyn Item>]>> = const { RefCell::new(None) };
}
fn all_items() -> &'static [Box<dyn Item>] {
    ITEMS.with(|i| *i.borrow_mut().get_or_insert_with(|| Box::leak(items().into_boxed_slice())))
}

/// Sequences of values in one buffer, of one piece or several chunks.
fn sequences(max: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let all = all_items();
        let n = 1 + ctx.pick(max);
        let picked: Vec<&Box<dyn Item>> = (0..n).map(|_| ctx.pick_of(all)).collect();
        let what: Vec<String> = picked.iter().map(|i| i.text()).collect();
        ctx.state(&what);
        let put = |buf: &mut dyn BufMut| -> Outcome {
            for i in &picked {
                i.put(buf).map_err(|e| Violation::new("serialise", format!("{}: {e}", i.text())))?;
            }
            Ok(())
        };
        let get = |buf: &mut dyn Buf| -> Outcome {
            for i in &picked {
                match i.get(buf) {
                    Ok(true) => {}
                    Ok(false) => return Err(Violation::new("value changed", format!("{} of {what:?}", i.text()))),
                    Err(e) => return Err(Violation::new("not deserialised", format!("{} of {what:?}: {e}", i.text()))),
                }
            }
            ensure!(buf.remaining() == 0, "bytes left", "{} after {what:?}", buf.remaining());
            Ok(())
        };
        match ctx.pick(3) {
            0 => {
                let mut b = BytesMut::new();
                put(&mut b)?;
                get(&mut b.freeze())
            }
            k => {
                let mut c = BufferConfig::default();
                c.chunk_size(128);
                c.initial_chunk_count(1);
                c.max_chunk_count(60);
                c.encode_buf_min_free_space(1);
                let mut eb = EncodeBuffer::with_config(&c, &None);
                let mut be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
                if k == 2 {
                    be.put_slice(&[0; 125]);
                    let _ = be.get_chunk_lease().map_err(ser_err("lease"))?;
                }
                put(&mut be)?;
                match be.get_chunk_lease() {
                    Ok(mut l) => get(&mut l),
                    // nothing was written
                    Err(_) if what.iter().all(|w| w == "()" || w == "W(Unit)") => Ok(()),
                    Err(e) => Err(Violation::new("lease", e.to_string())),
                }
            }
        }
    }
}

/// Sizes around those where a narrower length would wrap.
fn large_values(ctx: &Ctx) -> Outcome {
    let n = *ctx.pick_of(&[0usize, 1, 127, 128, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 70_000]);
    let i: Box<dyn Item> = match ctx.pick(8) {
        0 => Box::new(Own("x".repeat(n))),
        1 => Box::new(Own("é".repeat(n))),
        2 => Box::new(Srd(W("ü→".repeat(n)))),
        3 => Box::new(Srd(W(Blobs((0..n).map(|i| i as u8).collect())))),
        4 => Box::new(Srd(W((0..n).map(|i| i as u16).collect::<Vec<_>>()))),
        5 => Box::new(Srd(W((0..n as u32).map(|i| (i, i as u8)).collect::<BTreeMap<_, _>>()))),
        6 => Box::new(Srd(W((0..n).map(|i| (i % 3 > 0).then_some(i as u8)).collect::<Vec<_>>()))),
        _ => {
            // names of up to what one path may take
            let n = n.min(700);
            let name: Vec<String> = vec!["ab".repeat(n / 4 + 1), "c".repeat(n / 2 + 1)];
            let p = NamedPath::with_system(kompact::prelude::SystemField::system(&few_paths()[1]).clone(), name);
            if ctx.pick(2) == 0 { Box::new(Own(ActorPath::from(p))) } else { Box::new(Srd(W(ActorPath::from(p)))) }
        }
    };
    ctx.state(&(n, i.id()));
    let mut b = BytesMut::new();
    i.put(&mut b).map_err(ser_err("put"))?;
    let len = b.len();
    let mut b = b.freeze();
    match i.get(&mut b) {
        Ok(true) => {}
        Ok(false) => return Err(Violation::new("value changed", format!("{n}: {:.60}", i.text()))),
        Err(e) => return Err(Violation::new("not deserialised", format!("{n}: {:.60}: {e}", i.text()))),
    }
    ensure!(b.is_empty(), "bytes left", "{} of {len} of {:.40}", b.len(), i.text());
    Ok(())
}

/// Text that is not UTF-8 is not text.
fn not_text(ctx: &Ctx) -> Outcome {
    let bad: &[u8] = ctx.pick_of(&[&[0x80u8][..], &[0xC0, 0x80], &[0xE2, 0x82], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xFF]]);
    let (before, after) = (ctx.pick(3), ctx.pick(3));
    let text: Vec<u8> = [&b"ab"[..before], bad, &b"cd"[..after]].concat();
    let how = ctx.pick(3);
    ctx.state(&(&text, how));
    let mut b = BytesMut::new();
    // of the same length
    let placeholder = "x".repeat(text.len());
    let item: Box<dyn Item> = if how == 0 { Box::new(Own(placeholder.clone())) } else { Box::new(Srd(W(placeholder.clone()))) };
    item.put(&mut b).map_err(ser_err("put"))?;
    let at = b.windows(text.len()).position(|w| w == placeholder.as_bytes()).expect("the text is in there");
    b[at..at + text.len()].copy_from_slice(&text);
    let mut b = b.freeze();
    let r = match how {
        2 => <Serde as Deserialiser<En>>::deserialise(&mut {
            // as part of something else
            let mut c = BytesMut::new();
            Serde.serialise(&En::C(1, placeholder.clone()), &mut c).map_err(ser_err("put"))?;
            let at = c.windows(text.len()).position(|w| w == placeholder.as_bytes()).expect("the text is in there");
            c[at..at + text.len()].copy_from_slice(&text);
            c.freeze()
        })
        .is_ok(),
        _ => item.get(&mut b).is_ok(),
    };
    ensure!(!r, "not text but accepted", "{text:?}");
    Ok(())
}

/// Every prefix of a value is rejected.
fn truncated_values(ctx: &Ctx) -> Outcome {
    let i = ctx.pick_of(all_items());
    let mut b = BytesMut::new();
    i.put(&mut b).map_err(ser_err("put"))?;
    let (s, d) = i.id();
    ensure!(s == d, "ids differ", "{}: {s} {d}", i.text());
    if b.is_empty() {
        return Ok(());
    }
    let n = ctx.pick(b.len());
    let mut t = b.freeze();
    t.truncate(n);
    ctx.state(&(i.text(), n));
    match i.get(&mut t) {
        Err(_) => Ok(()),
        Ok(same) => Err(Violation::new("truncated value accepted", format!("{} from {n} bytes, same = {same}", i.text()))),
    }
}

/// One byte of a value changed: an error or another value, never a panic or huge allocation.
fn corrupted_values(ctx: &Ctx) -> Outcome {
    let i = ctx.pick_of(all_items());
    let mut b = Vec::new();
    i.put(&mut b).map_err(ser_err("put"))?;
    if b.is_empty() {
        return Ok(());
    }
    let at = ctx.pick(b.len());
    b[at] = *ctx.pick_of(&[0u8, 1, 2, 0x7F, 0x80, 0xFE, 0xFF]);
    let mut b = Bytes::from(b);
    let r = i.get(&mut b);
    ctx.outcome(&r.is_ok());
    ctx.state(&(i.text(), at));
    Ok(())
}

// --- protocol buffers

/// Protobuf messages through every kind of buffer, cut anywhere.
fn protobuf(ctx: &Ctx) -> Outcome {
    use protobuf::well_known_types::{
        struct_::{ListValue, Struct, Value},
        wrappers::{BoolValue, BytesValue, DoubleValue, Int64Value, StringValue, UInt32Value},
    };
    macro_rules! wrapper {
        ($t:ident, $v:expr) => {{
            let mut m = $t::new();
            m.value = $v;
            through_protobuf(ctx, m)
        }};
    }
    match ctx.pick(16) {
        i @ 0..=3 => wrapper!(StringValue, ["", "x", "né", "\0"][i].repeat(if i == 1 { 300 } else { 1 })),
        i @ 4..=7 => wrapper!(Int64Value, [0, -1, i64::MIN, 300][i - 4]),
        8 => wrapper!(UInt32Value, u32::MAX),
        9 => wrapper!(BoolValue, true),
        10 => wrapper!(DoubleValue, -0.5),
        i @ 11..=12 => wrapper!(BytesValue, (0..[130, 3][i - 11] as u8).collect()),
        i => {
            let value = |f: &dyn Fn(&mut Value)| {
                let mut v = Value::new();
                f(&mut v);
                v
            };
            let mut list = ListValue::new();
            list.values.push(value(&|v| v.set_string_value("in a list".repeat(1 + 20 * (i - 13)))));
            list.values.push(value(&|v| v.set_number_value(1e300)));
            let mut st = Struct::new();
            st.fields.insert("key".into(), value(&|v| v.set_list_value(list.clone())));
            if i == 15 {
                st.fields.insert("".into(), value(&|v| v.set_bool_value(true)));
            }
            let mut outer = Struct::new();
            outer.fields.insert("nested".into(), value(&|v| v.set_struct_value(st.clone())));
            through_protobuf(ctx, outer)
        }
    }
}
fn through_protobuf<M: protobuf::Message + PartialEq + Debug>(ctx: &Ctx, m: M) -> Outcome {
    use kompact::{
        prelude::Deserialisable,
        protobuf_serialisers::{ProtobufDeser, ProtobufSer},
    };
    let what = format!("{m:?}");
    ensure!(
        Serialiser::<M>::ser_id(&ProtobufSer) == Deserialisable::<M>::ser_id(&ProtobufDeser { msg: M::new(), buf: Bytes::new() }),
        "ids differ",
        "{what}"
    );
    let get = |buf: &mut dyn Buf| ProtobufDeser { msg: M::new(), buf }.get_deserialised();
    let back = |buf: &mut dyn Buf| -> Outcome {
        let r = get(buf).map_err(|e| Violation::new("not deserialised", format!("{what}: {e}")))?;
        ensure!(r == m, "value changed", "{r:?} instead of {what}");
        Ok(())
    };
    let put = |buf: &mut dyn BufMut| ProtobufSer.serialise(&m, buf).map_err(ser_err(&what));
    let mut plain = BytesMut::new();
    put(&mut plain)?;
    let plain = plain.freeze();
    match ctx.pick(5) {
        0 => back(&mut plain.clone()),
        1 => {
            let a = ctx.pick(plain.len() + 1);
            ctx.state(&(&what, a));
            let (mut x, y) = (plain.slice(..a), plain.slice(a..));
            if ctx.pick(2) == 0 {
                back(&mut x.chain(y))
            } else {
                let mid = y.slice(..y.len() / 2);
                let rest = y.slice(y.len() / 2..);
                back(&mut Buf::chain(Buf::chain(&mut x, mid), rest))
            }
        }
        // no value at all, or not this one: no panic
        2 => {
            let mut b = plain.slice(..ctx.pick(plain.len() + 1));
            let n = b.len();
            let r = get(&mut b);
            ctx.outcome(&r.is_ok());
            ensure!(n < plain.len() || r.is_ok(), "not deserialised", "{what}");
            Ok(())
        }
        3 => {
            if plain.is_empty() {
                return Ok(());
            }
            let mut b = plain.to_vec();
            let at = ctx.pick(b.len());
            b[at] ^= *ctx.pick_of(&[1u8, 0x80, 0xFF]);
            ctx.outcome(&get(&mut &b[..]).is_ok());
            Ok(())
        }
        // through pooled buffers
        _ => {
            let mut c = BufferConfig::default();
            c.chunk_size(128);
            c.initial_chunk_count(1);
            c.max_chunk_count(60);
            c.encode_buf_min_free_space(1);
            let mut eb = EncodeBuffer::with_config(&c, &None);
            let mut be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
            let skip = ctx.pick(127);
            if skip > 0 {
                be.put_slice(&[0; 128][..skip]);
                let _ = be.get_chunk_lease().map_err(ser_err("lease"))?;
            }
            put(&mut be)?;
            if plain.is_empty() {
                return Ok(());
            }
            let mut l = be.get_chunk_lease().map_err(ser_err("lease"))?;
            ensure!(l.remaining() == plain.len(), "size", "{what}: {} instead of {}", l.remaining(), plain.len());
            ctx.state(&(&what, skip));
            if ctx.pick(2) == 0 { back(&mut l) } else { back(&mut l.into_chunk_ref()) }
        }
    }
}

// --- matching of ids

fn as_message(i: &dyn Item, repr: usize) -> Result<NetMessage, Violation> {
    let p = few_paths();
    let (src, dst) = (p[0].clone(), p[1].clone());
    let id = i.id().0;
    let mut v = BytesMut::new();
    i.put(&mut v).map_err(ser_err("put"))?;
    let lease = |v: &[u8]| -> Result<ChunkLease, Violation> {
        if v.is_empty() {
            return Ok(ChunkLease::empty());
        }
        let mut c = BufferConfig::default();
        c.chunk_size(128);
        c.initial_chunk_count(1);
        c.max_chunk_count(20);
        c.encode_buf_min_free_space(1);
        let mut eb = EncodeBuffer::with_config(&c, &None);
        let mut be = eb.get_buffer_encoder().map_err(ser_err("encoder"))?;
        be.put_slice(v);
        be.get_chunk_lease().map_err(ser_err("lease"))
    };
    Ok(match repr {
        0 => NetMessage::with_box(id, src, dst, i.boxed()),
        1 => NetMessage::with_bytes(id, src, dst, v.freeze()),
        2 => NetMessage::with_chunk_lease(id, src, dst, lease(&v)?),
        _ => NetMessage::with_chunk_ref(id, src, dst, lease(&v)?.into_chunk_ref()),
    })
}

/// A message is offered to other deserialisers first, and is unchanged for its own.
fn offers(max: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let all = all_items();
        let own = ctx.pick_of(all);
        let repr = ctx.pick(4);
        let mut msg = as_message(&**own, repr)?;
        let session = kompact::prelude::SessionId::from_u128(77);
        msg.set_session(session);
        let n = ctx.pick(max + 1);
        for _ in 0..n {
            let other = ctx.pick_of(all);
            if other.id().1 == own.id().0 {
                return Ok(()); // covered below
            }
            msg = match other.take(msg) {
                Err(UnpackError::NoIdMatch(m)) => m,
                Ok(_) => return Err(Violation::new("foreign id accepted", format!("{} taken as {}", own.text(), other.text()))),
                Err(e) => return Err(Violation::new("foreign id", format!("{} as {}: {e:?}", own.text(), other.text()))),
            };
            ensure!(
                *msg.ser_id() == own.id().0 && msg.sender == few_paths()[0] && msg.receiver == few_paths()[1] && msg.session() == Some(session),
                "message changed",
                "{msg:?}"
            );
        }
        if ctx.pick(2) == 1 {
            msg = msg.try_clone().map_err(ser_err("clone"))?;
            ensure!(
                *msg.ser_id() == own.id().0 && msg.sender == few_paths()[0] && msg.receiver == few_paths()[1] && msg.session() == Some(session),
                "clone differs",
                "{msg:?}"
            );
        }
        ctx.state(&(own.text(), repr, n));
        match own.take(msg) {
            Ok(true) => Ok(()),
            Ok(false) => Err(Violation::new("value changed", own.text())),
            Err(e) => Err(Violation::new("not taken", format!("{} (representation {repr}): {e:?}", own.text()))),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
struct Twin(u64);
struct TwinA;
struct TwinB;
struct Fails;
const TWIN: SerId = 500;
const FAILS: SerId = 501;
impl Serialisable for Twin {
    fn ser_id(&self) -> SerId {
        TWIN
    }
    fn size_hint(&self) -> Option<usize> {
        Some(8)
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u64(self.0);
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}
impl Deserialiser<Twin> for TwinA {
    const SER_ID: SerId = TWIN;
    fn deserialise(buf: &mut dyn Buf) -> Result<Twin, SerError> {
        Ok(Twin(buf.get_u64() + 1000))
    }
}
impl Deserialiser<Twin> for TwinB {
    const SER_ID: SerId = TWIN;
    fn deserialise(buf: &mut dyn Buf) -> Result<Twin, SerError> {
        Ok(Twin(buf.get_u64() + 2000))
    }
}
impl Deserialiser<Twin> for Fails {
    const SER_ID: SerId = FAILS;
    fn deserialise(_buf: &mut dyn Buf) -> Result<Twin, SerError> {
        Err(SerError::invalid_data("planned"))
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy, Hash)]
enum Arm {
    Str(usize),
    Num(u64),
    Unit,
    TwinA(u64),
    TwinB(u64),
    Path(bool),
    Default(SerId),
    Err,
}

/// The arms of the matching macro: the first one with the id of the message is used.
#[allow(unreachable_patterns)]
fn arms(ctx: &Ctx) -> Outcome {
    let p = few_paths();
    // the message
    let kind = ctx.pick(8);
    let repr = ctx.pick(3);
    let ser: Box<dyn Serialisable> = match kind {
        0 => Box::new("four".to_string()),
        1 => Box::new(4u64),
        2 => Box::new(()),
        3 => Box::new(Twin(5)),
        4 => Box::new(p[1].clone()),
        5 => Box::new(SerialisableValue::new(W(3u16), Serde)),
        6 => Box::new(Twin(6)), // under the id of a failing deserialiser
        _ => Box::new(Blob { data: vec![1; 10], hint: Some(10), bytewise: false }),
    };
    let id = if kind == 6 { FAILS } else { ser.ser_id() };
    if kind == 6 && repr == 0 {
        return Ok(());
    }
    let mut v = Vec::new();
    ser.serialise(&mut v).map_err(ser_err("put"))?;
    let msg = match repr {
        0 => NetMessage::with_box(id, p[0].clone(), p[1].clone(), ser),
        1 => NetMessage::with_bytes(id, p[0].clone(), p[1].clone(), Bytes::from(v)),
        _ => ser_helpers::deserialise_bytes(Bytes::from(plain_bytes(&p[0], &p[1], id, &v)?)).map_err(ser_err("decode"))?,
    };
    let data_only = ctx.pick(2) == 1;
    macro_rules! with {
        ($m:expr) => {{
            let m = $m;
            let mid = *m.ser_id();
            let order = ctx.pick(3);
            let got = match order {
                0 => match_deser! {
                    m {
                        msg(s): String => Arm::Str(s.len()),
                        msg(n): u64 => Arm::Num(n),
                        msg(_u): () => Arm::Unit,
                        msg(t): Twin [using TwinA] => Arm::TwinA(t.0),
                        msg(t): Twin [using TwinB] => Arm::TwinB(t.0),
                        msg(q): ActorPath => Arm::Path(q == p[1]),
                        msg(_t): Twin [using Fails] => Arm::Default(1),
                        err(_e) => Arm::Err,
                        default(_) => Arm::Default(mid),
                    }
                },
                1 => match_deser! {
                    (m) {
                        msg(t): Twin [using Fails] => Arm::TwinB(t.0),
                        msg(q): ActorPath => Arm::Path(q == p[1]),
                        msg(t): Twin [using TwinB] => Arm::TwinB(t.0),
                        msg(t): Twin [using TwinA] => Arm::TwinA(t.0),
                        msg(_u): () => Arm::Unit,
                        msg(n): u64 => Arm::Num(n),
                        msg(s): String => Arm::Str(s.len()),
                        default(_) => Arm::Default(mid),
                        err(_e) => Arm::Err,
                    }
                },
                _ => match_deser! {
                    m {
                        msg(t): Twin [using TwinA] => Arm::TwinA(t.0),
                        msg(w): W<u16> [using Serde] => Arm::Num(w.0 as u64),
                        err(_e) => Arm::Err,
                        default(_) => Arm::Default(mid),
                    }
                },
            };
            // boxed values are not deserialised
            let (a, b) = if repr == 0 { (5, 5) } else { (1005, 2005) };
            let all = match kind {
                0 => Arm::Str(4),
                1 => Arm::Num(4),
                2 => Arm::Unit,
                3 if order == 0 => Arm::TwinA(a),
                3 => Arm::TwinB(b),
                4 => Arm::Path(true),
                6 => Arm::Err,
                _ => Arm::Default(mid),
            };
            let want = match (order, kind) {
                (2, 3) => Arm::TwinA(a),
                (2, 5) => Arm::Num(3),
                (2, _) => Arm::Default(mid),
                _ => all,
            };
            ctx.outcome(&got);
            ctx.state(&(kind, repr, order, data_only));
            ensure!(got == want, "wrong arm", "message {kind} in representation {repr} with order {order}: {got:?} instead of {want:?}");
        }};
    }
    if data_only {
        with!(msg.data)
    } else {
        with!(msg)
    }
    Ok(())
}

/// No two of the built-in serialisers share an id.
fn distinct_ids(ctx: &Ctx) -> Outcome {
    let ids: [(&str, SerId); 5] = [
        ("String", <String as Deserialiser<String>>::SER_ID),
        ("u64", <u64 as Deserialiser<u64>>::SER_ID),
        ("unit", <() as Deserialiser<()>>::SER_ID),
        ("ActorPath", <ActorPath as Deserialiser<ActorPath>>::SER_ID),
        ("SystemPath", <SystemPath as Deserialiser<SystemPath>>::SER_ID),
    ];
    let (a, b) = (ctx.pick(5), ctx.pick(5));
    ensure!(a == b || ids[a].1 != ids[b].1, "shared id", "{} and {} have id {}", ids[a].0, ids[b].0, ids[a].1);
    ctx.state(&(a, b));
    Ok(())
}

/// Owned conversion and conversion of heap values which do not fit.
fn into_deserialised(ctx: &Ctx) -> Outcome {
    let p = few_paths();
    let repr = ctx.pick(2);
    let id = *ctx.pick_of(&[<String as Deserialiser<String>>::SER_ID, <u64 as Deserialiser<u64>>::SER_ID]);
    let is_str = ctx.pick(2) == 0;
    let msg = |repr: usize| -> NetMessage {
        let ser: Box<dyn Serialisable> = if is_str { Box::new("text".to_string()) } else { Box::new(8u64) };
        let mut v = Vec::new();
        ser.serialise(&mut v).unwrap();
        if repr == 0 {
            NetMessage::with_box(id, p[0].clone(), p[1].clone(), ser)
        } else {
            NetMessage::with_data_bytes(id, &p, v)
        }
    };
    let str_id = <String as Deserialiser<String>>::SER_ID;
    let m = msg(repr);
    ctx.state(&(repr, id, is_str));
    match m.try_into_deserialised::<String, String>() {
        Ok(d) => {
            ensure!(id == str_id && is_str && d.content == "text" && d.sender == p[0] && d.receiver == p[1], "into", "{d:?}");
        }
        Err(UnpackError::NoIdMatch(m)) => {
            ensure!(id != str_id && *m.ser_id() == id && m.sender == p[0] && m.receiver == p[1], "into", "no match: {m:?}");
        }
        Err(UnpackError::NoCast(b)) => {
            ensure!(id == str_id && !is_str && repr == 0, "into", "no cast");
            ensure!(b.downcast_ref::<u64>() == Some(&8), "into", "value lost");
        }
        Err(UnpackError::DeserError(e)) => {
            ensure!(id == str_id && !is_str && repr == 1, "into", "{e}");
        }
    }
    Ok(())
}
trait WithData {
    fn with_data_bytes(id: SerId, p: &[ActorPath; 6], v: Vec<u8>) -> NetMessage;
}
impl WithData for NetMessage {
    fn with_data_bytes(id: SerId, p: &[ActorPath; 6], v: Vec<u8>) -> NetMessage {
        let mut m = NetMessage::with_bytes(0, p[0].clone(), p[1].clone(), Bytes::new());
        m.data = NetData::with(id, HeapOrSer::Serialised(Bytes::from(v)));
        m
    }
}

// ------------------------------------------------------------------ C23

macro_rules! fields {
    ($($name:ident at $pos:expr, $width:expr;)*) => {
        $(
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            struct $name(u8);
            impl BitField for $name {
                const POS: usize = $pos;
                const WIDTH: usize = $width;
            }
            #[allow(clippy::from_over_into)]
            impl Into<u8> for $name {
                fn into(self) -> u8 { self.0 }
            }
            impl TryFrom<u8> for $name {
                type Error = ();
                fn try_from(v: u8) -> Result<Self, ()> {
                    // the highest value is undefined
                    if $width > 1 && v as u32 == (1u32 << $width) - 1 { Err(()) } else { Ok($name(v)) }
                }
            }
        )*
        const LAYOUT: &[(&str, usize, usize)] = &[$((stringify!($name), $pos, $width)),*];
        fn store(k: usize, raw: &mut [u8], v: u8) -> Result<(), BitError> {
            let mut i = 0;
            $( if i == k { return raw.store($name(v)); } i += 1; )*
            let _ = i;
            unreachable!()
        }
        fn load(k: usize, raw: &[u8]) -> Result<u8, BitError> {
            let mut i = 0;
            $( if i == k { return raw.get_as::<$name>().map(|f| f.0); } i += 1; )*
            let _ = i;
            unreachable!()
        }
    };
}
fields! {
    A at 0, 3;
    B at 3, 1;
    C at 4, 4;
    D at 8, 8;
    E at 16, 2;
    F at 18, 7;
    G at 25, 6;
    H at 31, 1;
}

/// Stores in any order into a word with any previous content.
fn bit_stores(depth: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let mut raw = [*ctx.pick_of(&[0u8, 0xFF, 0xA5]); 4];
        let mut model: u32 = u32::from_le_bytes(raw);
        let n = 1 + ctx.pick(depth);
        for _ in 0..n {
            let k = ctx.pick(LAYOUT.len());
            let (name, pos, width) = LAYOUT[k];
            let max = (1u32 << width) - 1;
            let v = match ctx.pick(5) {
                0 => 0,
                1 => 1,
                2 => max,
                3 => max & 0x55,
                _ => max & !1,
            };
            let r = store(k, &mut raw, v as u8);
            ensure!(r.is_ok(), "store", "{name}: {r:?}");
            model = model & !(max << pos) | v << pos;
            ensure!(u32::from_le_bytes(raw) == model, "stored elsewhere", "{name} = {v}: {raw:02x?} instead of {:02x?}", model.to_le_bytes());
            for (j, (name, pos, width)) in LAYOUT.iter().enumerate() {
                let want = model >> pos & ((1u32 << width) - 1);
                let undefined = *width > 1 && want == (1u32 << width) - 1;
                let got = load(j, &raw);
                match got {
                    Ok(g) => ensure!(!undefined && g as u32 == want, "read back", "{name} is {g} instead of {want}"),
                    Err(BitError::TryFromErr) => ensure!(undefined, "read back", "{name} = {want} is rejected"),
                    Err(e) => return Err(Violation::new("read back", format!("{name}: {e:?}"))),
                }
            }
            ctx.state(&model);
        }
        Ok(())
    }
}

/// Fields beyond the end of the word are refused and change nothing.
fn bit_overflow(ctx: &Ctx) -> Outcome {
    let len = ctx.pick(5);
    let k = ctx.pick(LAYOUT.len());
    let v = ctx.pick(256) as u8;
    let fill = *ctx.pick_of(&[0u8, 0xFF]);
    let mut raw = vec![fill; len];
    let (name, pos, width) = LAYOUT[k];
    let fits = pos + width <= len * 8;
    let v = v & ((1u32 << width) - 1) as u8;
    let r = store(k, &mut raw, v);
    ensure!(r.is_ok() == fits, "overflow", "{name} in {len} bytes: {r:?}");
    if fits {
        let mut want = vec![fill; len];
        for i in 0..width {
            let (byte, bit) = ((pos + i) / 8, (pos + i) % 8);
            want[byte] = want[byte] & !(1 << bit) | ((v >> i & 1) << bit);
        }
        ensure!(raw == want, "stored elsewhere", "{name} = {v}: {raw:02x?} instead of {want:02x?}");
    } else {
        ensure!(raw.iter().all(|b| *b == fill), "overflow changed the word", "{name}: {raw:02x?}");
        ensure!(load(k, &raw) == Err(BitError::Overflow), "overflow", "{name} can be read from {len} bytes");
    }
    ctx.state(&(len, k, v, fill));
    Ok(())
}

/// The header of paths: all combinations of fields, and all raw headers.
fn headers(ctx: &Ctx) -> Outcome {
    let transports = [Transport::Local, Transport::Tcp, Transport::Udp];
    let mut seen: BTreeMap<u8, (bool, usize, bool)> = BTreeMap::new();
    for named in [false, true] {
        for (k, t) in transports.iter().enumerate() {
            for v6 in [false, true] {
                let addr = if v6 { "::1" } else { "127.0.0.1" }.parse().unwrap();
                let sys = SystemPath::new(*t, addr, 9);
                let p: ActorPath = if named {
                    NamedPath::with_system(sys.clone(), vec!["n".into()]).into()
                } else {
                    UniquePath::with_system(sys.clone(), Uuid::from_u128(3)).into()
                };
                let mut h = Vec::new();
                SystemPathHeader::from_path(&p).put_into(&mut h);
                let mut full = Vec::new();
                p.serialise(&mut full).map_err(ser_err("path"))?;
                ensure!(h.len() == 1 && full[0] == h[0], "header", "{p}: {h:?}");
                if let Some(old) = seen.insert(h[0], (named, k, v6)) {
                    return Err(Violation::new("same header", format!("{old:?} and {:?} have header {}", (named, k, v6), h[0])));
                }
                // without a path, the path kind is left out
                let mut s = Vec::new();
                SystemPathHeader::from_system(&sys).put_into(&mut s);
                let mut again = Vec::new();
                sys.serialise(&mut again).map_err(ser_err("system path"))?;
                ensure!(again[0] == s[0], "header", "{sys}");
            }
        }
    }
    let raw = ctx.pick(256) as u8;
    let header = SystemPathHeader::try_from(raw);
    ensure!(
        header.is_ok() == seen.contains_key(&raw),
        "raw header",
        "{raw:#04x} is {}, known {:?}",
        if header.is_ok() { "accepted" } else { "rejected" },
        seen.get(&raw)
    );
    if let Ok(h) = header {
        let mut v = Vec::new();
        h.put_into(&mut v);
        ensure!(v == [raw], "raw header", "{raw:#04x} is written as {v:?}");
    }
    // followed by enough bytes for anything
    let mut bytes = vec![raw];
    bytes.extend([0; 40]);
    let path = <ActorPath as Deserialiser<ActorPath>>::deserialise(&mut Bytes::from(bytes));
    match (path, seen.get(&raw)) {
        (Err(_), None) => {}
        (Ok(p), Some((named, t, v6))) => {
            let sys = kompact::prelude::SystemField::system(&p);
            ensure!(
                matches!(p, ActorPath::Named(_)) == *named && sys.protocol() == transports[*t] && sys.address().is_ipv6() == *v6,
                "raw header",
                "{raw:#04x} is read as {p}"
            );
        }
        (r, s) => return Err(Violation::new("raw header", format!("{raw:#04x}: {r:?}, known {s:?}"))),
    }
    ctx.state(&raw);
    ctx.outcome(&seen.contains_key(&raw));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C15",
            level: "model_checking",
            rule: "every combination of paths, payload sizes, size hints, ways of encoding, cloning, forwarding and decoding decodes to the same message; every truncation and one-byte change is rejected or decodes to what the bytes say",
            assumptions: vec!["paths and payload sizes are taken from fixed representative sets".into()],
            scenarios: Box::new(|t| {
                vec![
                    Scenario::new("paths", 0, path_roundtrip).same_thread(),
                    Scenario::new("messages", 0, messages(if t.thorough() { &[0, 1, 30, 128, 700] } else { &[0, 30, 300] }, t.or(2, 3))).same_thread().weight(3),
                    Scenario::new("failing messages", 0, failing_messages).same_thread(),
                    Scenario::new("corruption", 0, corruption).same_thread(),
                    Scenario::new("names of bytes", 0, names_of_bytes).same_thread(),
                ]
            }),
        },
        Check {
            id: "C16",
            level: "model_checking",
            rule: "every sequence of values up to the length reads back from one buffer, every truncation of a value is rejected, every message offered to every sequence of other deserialisers is unchanged for its own, the first matching arm is used",
            assumptions: vec!["values are taken from a fixed set which uses every part of the data model".into()],
            scenarios: Box::new(|t| {
                vec![
                    Scenario::new("sequences", 0, sequences(t.or(3, 4))).same_thread().weight(2),
                    Scenario::new("large values", 0, large_values).same_thread(),
                    Scenario::new("not text", 0, not_text).same_thread(),
                    Scenario::new("truncated values", 0, truncated_values).same_thread(),
                    Scenario::new("corrupted values", 0, corrupted_values).same_thread(),
                    Scenario::new("protobuf", 0, protobuf).same_thread(),
                    Scenario::new("offers", 0, offers(t.or(2, 3))).same_thread(),
                    Scenario::new("arms", 0, arms).same_thread(),
                    Scenario::new("ids", 0, distinct_ids).same_thread(),
                    Scenario::new("owned", 0, into_deserialised).same_thread(),
                ]
            }),
        },
        Check {
            id: "C23",
            level: "model_checking",
            rule: "every sequence of stores up to the depth into fields of a word, with every field read back after each; every raw header",
            assumptions: vec![],
            scenarios: Box::new(|t| {
                vec![
                    Scenario::new("stores", 0, bit_stores(t.or(4, 5))).same_thread(),
                    Scenario::new("overflow", 0, bit_overflow).same_thread(),
                    Scenario::new("headers", 0, headers).same_thread(),
                ]
            }),
        },
    ]
}
