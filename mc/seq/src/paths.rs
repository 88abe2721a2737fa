//! C14: textual actor paths.

use explore::{Check, Ctx, Outcome, Scenario, Violation, ensure};
use kompact::prelude::{
    ActorPath, NamedPath, PathParseError, SystemField, SystemPath, Transport, UniquePath,
};
use kompact::prelude_bench::{parse_path, validate_insert_path, validate_lookup_path};
use std::{
    convert::TryFrom,
    net::{IpAddr, SocketAddr},
    str::FromStr,
};
use uuid::Uuid;

pub const TRANSPORTS: [(Transport, &str); 3] =
    [(Transport::Local, "local"), (Transport::Tcp, "tcp"), (Transport::Udp, "udp")];
pub const ADDRS: [&str; 9] = [
    "127.0.0.1",
    "0.0.0.0",
    "255.254.1.2",
    "32.64.96.128",
    "::1",
    "::",
    "fe80::1:2",
    "::ffff:1.2.3.4",
    "1:203:4:506:7:809:a:ffff",
];
pub const PORTS: [u16; 5] = [0, 1, 80, 0x1234, 65535];
pub const UUIDS: [u128; 4] = [0, 1, 0x1e55_5f40_de1d_4aee_8202_64fd_c27e_dfa8, u128::MAX];

pub fn systems(ctx: &Ctx) -> (SystemPath, String) {
    let (t, ts) = *ctx.pick_of(&TRANSPORTS);
    let a: IpAddr = ctx.pick_of(&ADDRS).parse().unwrap();
    let port = *ctx.pick_of(&PORTS);
    let text = match a {
        IpAddr::V4(a) => format!("{ts}://{a}:{port}"),
        IpAddr::V6(a) => format!("{ts}://[{a}]:{port}"),
    };
    (SystemPath::new(t, a, port), text)
}

const CHARS: [&str; 9] = ["a", "*", "?", "/", "#", ":", ".", "é", " "];

fn segment_ok(s: &str, last: bool) -> bool {
    if s.is_empty() || s.contains('/') || s.contains('#') {
        return false;
    }
    if s == "*" || s == "?" {
        return last;
    }
    !s.contains('*') && !s.contains('?')
}
pub fn lookup_ok<S: AsRef<str>>(p: &[S]) -> bool {
    p.iter().enumerate().all(|(i, s)| segment_ok(s.as_ref(), i + 1 == p.len()))
}
pub fn insert_ok<S: AsRef<str>>(p: &[S]) -> bool {
    p.iter().all(|s| {
        let s = s.as_ref();
        !s.is_empty() && !s.contains(['/', '#', '*', '?'])
    })
}

fn same_system(a: &SystemPath, b: &SystemPath) -> bool {
    a.protocol() == b.protocol() && a.address() == b.address() && a.port() == b.port()
}

/// The text of a path parses to this path with every parsing entry point.
fn roundtrip(p: &ActorPath, text: &str) -> Outcome {
    ensure!(p.to_string() == text, "format", "{p:?} is formatted as {p}, not {text}");
    let back = ActorPath::from_str(text);
    ensure!(back.as_ref() == Ok(p), "roundtrip", "{text} is parsed as {back:?}");
    let back = ActorPath::try_from(text.to_string());
    ensure!(back.as_ref() == Ok(p), "roundtrip", "{text} is converted to {back:?}");
    match p {
        ActorPath::Unique(u) => {
            ensure!(UniquePath::from_str(text).as_ref() == Ok(u), "roundtrip-unique", "{text}");
            ensure!(UniquePath::try_from(text.to_string()).as_ref() == Ok(u), "roundtrip-unique", "{text}");
        }
        ActorPath::Named(n) => {
            ensure!(NamedPath::from_str(text).as_ref() == Ok(n), "roundtrip-named", "{text}");
            ensure!(NamedPath::try_from(text.to_string()).as_ref() == Ok(n), "roundtrip-named", "{text}");
        }
    }
    Ok(())
}

fn unique_paths(ctx: &Ctx) -> Outcome {
    let (sys, st) = systems(ctx);
    let id = Uuid::from_u128(*ctx.pick_of(&UUIDS));
    ensure!(sys.to_string() == st, "format-system", "{sys:?} is formatted as {sys}");
    let u = match ctx.pick(4) {
        0 => UniquePath::with_system(sys.clone(), id),
        1 => UniquePath::new(sys.protocol(), *sys.address(), sys.port(), id),
        2 => UniquePath::with_socket(sys.protocol(), SocketAddr::new(*sys.address(), sys.port()), id),
        _ => sys.clone().into_unique(id),
    };
    ensure!(u.id() == id && u.system() == &sys, "unique-parts", "{u:?}");
    let p: ActorPath = if ctx.pick(2) == 0 { u.into() } else { (sys.clone(), id).into() };
    ensure!(same_system(p.system(), &sys) && p.port() == sys.port(), "unique-parts", "{p:?}");
    ensure!(p.clone().named().is_none() && p.clone().unique().map(|u| u.id()) == Some(id), "unique-kind", "{p:?}");
    ctx.state(&p);
    let text = format!("{st}#{id}");
    roundtrip(&p, &text)?;
    // changing the protocol changes nothing else
    let mut q = p.clone();
    let (t, _) = *ctx.pick_of(&TRANSPORTS);
    set_protocol(ctx, &mut q, t);
    ensure!(
        q.protocol() == t && q.address() == sys.address() && q.port() == sys.port() && q.clone().unwrap_unique().id() == id,
        "set-protocol",
        "{p} became {q}"
    );
    Ok(())
}

fn set_protocol(ctx: &Ctx, q: &mut ActorPath, t: Transport) {
    if ctx.pick(2) == 0 {
        q.set_protocol(t)
    } else {
        match t {
            Transport::Local => q.via_local(),
            Transport::Tcp => q.via_tcp(),
            Transport::Udp => q.via_udp(),
        }
    }
}

fn gen_segments(ctx: &Ctx, segments: usize, chars: usize) -> Vec<String> {
    let n = ctx.pick(segments + 1);
    (0..n)
        .map(|_| {
            let len = ctx.pick(chars + 1);
            (0..len).map(|_| *ctx.pick_of(&CHARS)).collect::<String>()
        })
        .collect()
}

/// Exactly the valid names can be built, and these survive the text form.
fn named_paths(segments: usize, chars: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let segs = gen_segments(ctx, segments, chars);
        let sys = SystemPath::new(Transport::Tcp, "10.0.0.1".parse().unwrap(), 7);
        let ok = lookup_ok(&segs);
        ensure!(validate_lookup_path(&segs).is_ok() == ok, "validate-lookup", "{segs:?}: expected valid = {ok}");
        let ins = insert_ok(&segs);
        ensure!(validate_insert_path(&segs).is_ok() == ins, "validate-insert", "{segs:?}: expected valid = {ins}");
        let built = sys.clone().into_named_with_vec(segs.clone());
        ensure!(built.is_ok() == ok, "build-vec", "{segs:?}: {built:?}, expected valid = {ok}");
        let joined = segs.join("/");
        let parts: Vec<String> = joined.split('/').map(|s| s.to_string()).collect();
        ensure!(parse_path(&joined) == parts, "parse-path", "{joined}");
        let s_ok = lookup_ok(&parts);
        let from_str = sys.clone().into_named_with_string(&joined);
        ensure!(from_str.is_ok() == s_ok, "build-string", "{joined:?}: {from_str:?}, expected valid = {s_ok}");
        if let Ok(n) = from_str {
            ensure!(n.path_ref() == parts && n.system() == &sys, "build-string", "{joined:?}: {n:?}");
        }
        ctx.state(&(&segs, ok));
        if let Ok(n) = built {
            ensure!(n.path_ref() == segs && n.clone_path() == segs && n.clone().into_path() == segs, "named-parts", "{n:?}");
            let p: ActorPath = n.into();
            let text = format!("tcp://10.0.0.1:7{}", segs.iter().map(|s| format!("/{s}")).collect::<String>());
            roundtrip(&p, &text)?;
        }
        Ok(())
    }
}

fn named_systems(ctx: &Ctx) -> Outcome {
    let (sys, st) = systems(ctx);
    let names: [&[&str]; 5] = [&[], &["a"], &["a", "b:1", "*"], &["?"], &["[::1]", "tcp:", "é"]];
    let name: Vec<String> = ctx.pick_of(&names).iter().map(|s| s.to_string()).collect();
    let n = match ctx.pick(4) {
        0 => NamedPath::with_system(sys.clone(), name.clone()),
        1 => NamedPath::new(sys.protocol(), *sys.address(), sys.port(), name.clone()),
        2 => NamedPath::with_socket(sys.protocol(), SocketAddr::new(*sys.address(), sys.port()), name.clone()),
        _ => sys.clone().into_named_with_vec(name.clone()).map_err(|e| Violation::new("build", e.to_string()))?,
    };
    let p = ActorPath::from(n);
    ctx.state(&p);
    ensure!(same_system(p.system(), &sys), "named-parts", "{p:?}");
    ensure!(p.clone().unique().is_none() && p.clone().unwrap_named().path_ref() == name, "named-kind", "{p:?}");
    let text = format!("{st}{}", name.iter().map(|s| format!("/{s}")).collect::<String>());
    roundtrip(&p, &text)?;
    let mut q = p.clone();
    let (t, _) = *ctx.pick_of(&TRANSPORTS);
    set_protocol(ctx, &mut q, t);
    ensure!(
        q.protocol() == t && q.address() == sys.address() && q.port() == sys.port() && q.clone().unwrap_named().path_ref() == name,
        "set-protocol",
        "{p} became {q}"
    );
    Ok(())
}

/// The reference grammar of textual paths.
fn reference_parse(s: &str) -> Option<ActorPath> {
    let at = s.find("://")?;
    let (proto, rest) = (&s[..at], &s[at + 3..]);
    if rest.contains("://") {
        return None;
    }
    let proto = TRANSPORTS.iter().find(|t| t.1 == proto)?.0;
    if rest.contains('#') {
        let (sock, id) = rest.split_once('#')?;
        if id.contains('#') {
            return None;
        }
        let sock: SocketAddr = sock.parse().ok()?;
        Some(ActorPath::Unique(UniquePath::with_socket(proto, sock, id.parse().ok()?)))
    } else {
        let (sock, segs) = match rest.split_once('/') {
            None => (rest, vec![]),
            Some((sock, name)) => (sock, name.split('/').map(|s| s.to_string()).collect()),
        };
        let sock: SocketAddr = sock.parse().ok()?;
        if !lookup_ok(&segs) {
            return None;
        }
        Some(ActorPath::Named(NamedPath::with_socket(proto, sock, segs)))
    }
}

fn check_parse(ctx: &Ctx, s: &str) -> Outcome {
    let expected = reference_parse(s);
    let got = ActorPath::from_str(s);
    match (&expected, &got) {
        (Some(e), Ok(g)) => {
            ensure!(e == g, "parse-differs", "{s:?} is parsed as {g:?} instead of {e:?}");
            let again = ActorPath::from_str(&g.to_string());
            ensure!(again.as_ref() == Ok(g), "parse-roundtrip", "{s:?} → {g} → {again:?}");
        }
        (None, Err(e)) => {
            ensure!(!e.to_string().is_empty(), "parse-error", "error without text");
        }
        (Some(e), Err(g)) => {
            return Err(Violation::new("parse-rejects", format!("{s:?} is rejected ({g}) instead of parsed as {e}")));
        }
        (None, Ok(g)) => {
            return Err(Violation::new("parse-accepts", format!("{s:?} is accepted as {g:?}")));
        }
    }
    // the special parsers accept exactly their kind
    let u = UniquePath::from_str(s);
    let n = NamedPath::from_str(s);
    match expected {
        Some(ActorPath::Unique(e)) => {
            ensure!(u.as_ref() == Ok(&e), "parse-unique", "{s:?}: {u:?}");
            ensure!(n.is_err(), "parse-named", "{s:?} is accepted as named path {n:?}");
        }
        Some(ActorPath::Named(e)) => {
            ensure!(n.as_ref() == Ok(&e), "parse-named", "{s:?}: {n:?}");
            ensure!(u.is_err(), "parse-unique", "{s:?} is accepted as unique path {u:?}");
        }
        None => {
            ensure!(u.is_err(), "parse-unique", "{s:?} is accepted as unique path {u:?}");
            ensure!(n.is_err(), "parse-named", "{s:?} is accepted as named path {n:?}");
        }
    }
    ctx.state(&s);
    ctx.outcome(&got.is_ok());
    Ok(())
}

const TOKENS: [&str; 18] = [
    "tcp", "udp", "local", "TCP", "://", ":", "/", "#", "127.0.0.1", "[::1]", "::1", "80", "65536", "a", "*", "?",
    "1e555f40-de1d-4aee-8202-64fdc27edfa8", "é",
];

fn all_texts(len: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let n = ctx.pick(len + 1);
        let s: String = (0..n).map(|_| *ctx.pick_of(&TOKENS)).collect();
        check_parse(ctx, &s)
    }
}

/// Texts which differ from valid ones in a few tokens.
fn mutated_texts(edits: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let bases: [&[&str]; 6] = [
            &["tcp", "://", "127.0.0.1", ":", "80", "/", "a"],
            &["local", "://", "[::1]", ":", "80", "/", "a", "/", "*"],
            &["udp", "://", "127.0.0.1", ":", "80", "#", "1e555f40-de1d-4aee-8202-64fdc27edfa8"],
            &["tcp", "://", "[::1]", ":", "80", "#", "1e555f40-de1d-4aee-8202-64fdc27edfa8"],
            &["tcp", "://", "127.0.0.1", ":", "80"],
            &["tcp", "://", "127.0.0.1", ":", "80", "/", "a", "/", "a", "/", "a"],
        ];
        let mut t: Vec<&str> = ctx.pick_of(&bases).to_vec();
        for _ in 0..edits {
            match ctx.pick(4) {
                0 => {}
                1 if !t.is_empty() => {
                    t.remove(ctx.pick(t.len()));
                }
                2 if !t.is_empty() => {
                    let at = ctx.pick(t.len());
                    t[at] = *ctx.pick_of(&TOKENS);
                }
                _ => {
                    let at = ctx.pick(t.len() + 1);
                    let x = *ctx.pick_of(&TOKENS);
                    t.insert(at, x);
                }
            }
        }
        check_parse(ctx, &t.concat())
    }
}

/// Single character changes and truncations of valid texts.
fn damaged_texts(ctx: &Ctx) -> Outcome {
    let bases = [
        "tcp://127.0.0.1:80/a/*",
        "local://[fe80::1]:65535/name",
        "udp://10.0.0.1:1234#1e555f40-de1d-4aee-8202-64fdc27edfa8",
    ];
    let mut s: Vec<char> = ctx.pick_of(&bases).chars().collect();
    let at = ctx.pick(s.len());
    match ctx.pick(4) {
        0 => s.truncate(at),
        1 => {
            s.drain(..at);
        }
        2 => {
            let c = ctx.pick(132);
            s[at] = char::from_u32(c as u32 + if c > 128 { 0x100 } else { 0 }).unwrap();
        }
        _ => {
            let c = ctx.pick(132);
            s.insert(at, char::from_u32(c as u32 + if c > 128 { 0x2000 } else { 0 }).unwrap());
        }
    }
    let s: String = s.into_iter().collect();
    check_parse(ctx, &s)
}

/// Derived paths keep the system and the prefix; invalid ones are refused.
fn derived(depth: usize) -> impl Fn(&Ctx) -> Outcome {
    move |ctx| {
        let (sys, st) = systems_few(ctx);
        let mut p = NamedPath::with_system(sys.clone(), vec![]);
        let mut model: Vec<String> = vec![];
        let pieces = ["a", "b", "*", "?", "", "a/b", "a/*", "*/a", "/a", "a#", "a*", "é/?"];
        let n = ctx.pick(depth + 1);
        for _ in 0..n {
            let piece = *ctx.pick_of(&pieces);
            let (kind, parts): (usize, Vec<String>) = match ctx.pick(4) {
                0 => (0, vec![piece.to_string()]),
                1 => (1, piece.split('/').map(|s| s.to_string()).collect()),
                2 => (2, piece.split('/').map(|s| s.to_string()).collect()),
                _ => (3, vec![piece.chars().next().map(|c| c.to_string()).unwrap_or_default()]),
            };
            let mut next = model.clone();
            next.extend(parts.clone());
            let ok = lookup_ok(&next) && !parts.is_empty();
            let before = p.clone();
            ctx.log(|| format!("{kind} {piece:?} on {model:?}: expected valid = {ok}"));
            let res: Result<(), PathParseError> = match kind {
                0 => p.push(piece.to_string()),
                1 => p.clone().append(piece).map(|q| p = q),
                // the operators panic for invalid segments
                2 if ok => {
                    p = p / piece;
                    Ok(())
                }
                3 if ok => {
                    p = p / piece.chars().next().unwrap();
                    Ok(())
                }
                _ => continue,
            };
            ensure!(res.is_ok() == ok, "derive", "{model:?} + {piece:?} ({kind}): {res:?}, expected valid = {ok}");
            if ok {
                model = next;
            } else {
                ensure!(p == before, "derive-failed", "a refused segment changed {before:?} into {p:?}");
            }
            ensure!(p.path_ref() == model, "derive-path", "{:?} instead of {model:?}", p.path_ref());
            ensure!(p.system() == &sys, "derive-system", "{:?}", p.system());
        }
        ctx.state(&p);
        let text = format!("{st}{}", model.iter().map(|s| format!("/{s}")).collect::<String>());
        roundtrip(&p.into(), &text)
    }
}

fn systems_few(ctx: &Ctx) -> (SystemPath, String) {
    if ctx.pick(2) == 0 {
        (SystemPath::new(Transport::Tcp, "127.0.0.1".parse().unwrap(), 80), "tcp://127.0.0.1:80".into())
    } else {
        (SystemPath::with_socket(Transport::Udp, "[::1]:80".parse().unwrap()), "udp://[::1]:80".into())
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C14",
        level: "model_checking",
        rule: "formatting and parsing are inverse, exactly the valid texts and names are accepted, derived paths extend their base",
        assumptions: vec![
            "addresses, ports, ids, characters and tokens are taken from fixed representative sets".into(),
        ],
        scenarios: Box::new(|t| {
            vec![
                Scenario::new("unique paths", 0, unique_paths).same_thread(),
                Scenario::new("named paths", 0, named_paths(t.or(3, 4), 2)).same_thread().weight(2),
                Scenario::new("two segments", 0, named_paths(2, 3)).same_thread(),
                Scenario::new("long names", 0, named_paths(1, t.or(4, 6))).same_thread(),
                Scenario::new("named paths on systems", 0, named_systems).same_thread(),
                Scenario::new("all texts", 0, all_texts(t.or(5, 6))).same_thread(),
                Scenario::new("changed texts", 0, mutated_texts(2)).same_thread().weight(2),
                Scenario::new("damaged texts", 0, damaged_texts).same_thread(),
                Scenario::new("derived paths", 0, derived(t.or(4, 5))).same_thread().weight(2),
            ]
        }),
    }]
}
