//! C22: configuration sources, lookups and converters.
use crate::world::{World, poll_once};
use explore::{Check, Ctx, Outcome, Scenario, Tier, ensure};
use kompact::config::*;
use kompact::{kompact_config, prelude::*};
use std::{collections::BTreeMap, fmt::Debug, path::PathBuf, sync::LazyLock, task::Poll, time::Duration};

// ---- sources ------------------------------------------------------------
/// The reference configuration: a nested map.
#[derive(Clone, Debug, PartialEq)]
enum V {
    I(i64),
    S(&'static str),
    L(Vec<i64>),
    T(BTreeMap<String, V>),
}
type Tab = BTreeMap<String, V>;
fn merge(into: &mut Tab, from: Tab) {
    for (k, v) in from {
        let v = match (into.remove(&k), v) {
            (Some(V::T(mut a)), V::T(b)) => {
                merge(&mut a, b);
                V::T(a)
            }
            (_, v) => v,
        };
        into.insert(k, v);
    }
}
fn nest(path: &str, v: V) -> Tab {
    let (k, v) = match path.split_once('.') {
        None => (path, v),
        Some((k, rest)) => (k, V::T(nest(rest, v))),
    };
    Tab::from([(k.to_string(), v)])
}
fn find<'a>(t: &'a Tab, path: &str) -> Result<&'a V, bool> {
    match path.split_once('.') {
        None => t.get(path).ok_or(true),
        Some((k, rest)) => match t.get(k) {
            None => Err(true),
            Some(V::T(t)) => find(t, rest),
            Some(_) => Err(false),
        },
    }
}

kompact_config! { A, key = "a", type = IntegerValue, default = -7, doc = "d", version = "0" }
kompact_config! { AB, key = "a.b", type = IntegerValue, default = -8, doc = "d", version = "0" }
kompact_config! { ABC, key = "a.b.c", type = IntegerValue, default = -9, doc = "d", version = "0" }
kompact_config! { AX, key = "a.x", type = StringValue, doc = "d", version = "0" }
kompact_config! { LIST, key = "l", type = ArrayOfValues<IntegerValue>, doc = "d", version = "0" }
kompact_config! { LZ, key = "l.z", type = IntegerValue, default = -10, doc = "d", version = "0" }
kompact_config! { SMALL, key = "a.small", type = UsizeValue, default = 3, validate = |v| *v < 100, doc = "d", version = "0" }

/// Documents and the tables they denote.
fn docs() -> Vec<(&'static str, Tab)> {
    let t = |l: &[(&str, V)]| {
        let mut o = Tab::new();
        for (p, v) in l {
            merge(&mut o, nest(p, v.clone()));
        }
        o
    };
    vec![
        ("a = 1", t(&[("a", V::I(1))])),
        ("[a]\nb = 2", t(&[("a.b", V::I(2))])),
        ("a.b.c = 3", t(&[("a.b.c", V::I(3))])),
        ("[a.b]\nc = 4\nd = 5\n[a]\nx = \"s\"", t(&[("a.b.c", V::I(4)), ("a.b.d", V::I(5)), ("a.x", V::S("s"))])),
        ("[a]", Tab::from([("a".to_string(), V::T(Tab::new()))])),
        ("", Tab::new()),
        ("l = [1, 2, 3]", t(&[("l", V::L(vec![1, 2, 3]))])),
        ("l = []\na = { x = \"t\", small = 99 }", t(&[("l", V::L(vec![])), ("a.x", V::S("t")), ("a.small", V::I(99))])),
        ("\"a.b\" = 6\n[l]\nz = 7", {
            let mut x = t(&[("l.z", V::I(7))]);
            x.insert("a.b".into(), V::I(6));
            x
        }),
        ("a = { small = 100 }", t(&[("a.small", V::I(100))])),
        ("a = { small = -1, x = 8 }", t(&[("a.small", V::I(-1)), ("a.x", V::I(8))])),
    ]
}

/// Keys whose raw value is compared after every load.
const KEYS: [&str; 10] =
    ["a", "a.b", "a.b.c", "a.b.d", "a.x", "a.small", "l", "l.z", "nope", "a.b.c.d"];

fn same(v: &ConfigValue, want: &V) -> bool {
    match want {
        V::I(i) => v.as_i64() == Some(*i) && v.as_string().is_none() && v.as_array().is_none(),
        V::S(s) => v.as_string().as_deref() == Some(*s) && v.as_i64().is_none(),
        V::L(l) => v.as_array().is_some_and(|a| {
            a.len() == l.len() && a.iter().zip(l).all(|(a, l)| a.as_i64() == Some(*l))
        }),
        V::T(_) => {
            v.as_i64().is_none()
                && v.as_string().is_none()
                && v.as_array().is_none()
                && v.as_bool().is_none()
                && v.as_f64().is_none()
        }
    }
}

fn names(e: &ConfigError, path: &str) -> bool {
    e.to_string().contains(path)
}

/// Paths with empty segments: nothing can be set under them.
const MALFORMED: [&str; 8] = ["", ".", ".a", "..", "a.", "a..b", "a.b.", "l."];

fn lookups(conf: &Config, model: &Tab) -> Outcome {
    for k in MALFORMED {
        let got = conf.select(k).value();
        let Err(e) = got else {
            return Err(explore::Violation::new("malformed-path", format!("{k:?}: read {got:?}")));
        };
        ensure!(names(&e, k), "error-without-key", "{k:?}: error {e}");
        // malformed is not the same as missing
        let reached = k.is_empty() || k.starts_with('.') || matches!(find(model, &k[..1]), Ok(V::T(_))) && &k[1..] != ".b.";
        let missing = matches!(&e, kompact::config::ConfigError::PathError(p) if p.is_missing());
        ensure!(!reached || !missing, "malformed-path", "{k:?} counts as missing: {e}");
    }
    for k in KEYS {
        let got = conf.select(k).value();
        match (find(model, k), got) {
            (Ok(want), Ok(v)) => {
                ensure!(same(v, want), "wrong-value", "key {k}: read {v:?}, set to {want:?}");
                // the same value through the stepwise interface
                let l0 = conf.get(k.split('.').next().unwrap());
                let segs: Vec<&str> = k.split('.').skip(1).collect();
                let ok = match segs.as_slice() {
                    [] => l0.value() == Ok(v),
                    [x] => l0.get(x).value() == Ok(v),
                    [x, y] => l0.get(x).get(y).value() == Ok(v),
                    [x, y, z] => l0.get(x).get(y).get(z).value() == Ok(v),
                    _ => unreachable!(),
                };
                ensure!(ok, "stepwise-lookup", "key {k}: get and select disagree");
                if let V::L(l) = want {
                    let sel = conf.select(k);
                    for i in 0..l.len() + 2 {
                        let e = sel.get_index(i);
                        ensure!(
                            e.as_i64().ok() == l.get(i).copied(),
                            "wrong-element",
                            "{k}[{i}]: {:?} in {l:?}",
                            e.as_i64()
                        );
                        if i >= l.len() {
                            ensure!(
                                names(&e.as_i64().unwrap_err(), &format!("{k}[{i}]")),
                                "error-without-key",
                                "{k}[{i}]: {}",
                                e.as_i64().unwrap_err()
                            );
                        }
                    }
                    for (i, e) in sel.array_entries().unwrap() {
                        let err = e.as_string().err().map(|e| e.to_string()).unwrap_or_default();
                        ensure!(
                            err.contains(&format!("{k}[{i}]")),
                            "error-without-key",
                            "{k}[{i}]: {err}"
                        );
                    }
                    let all: Vec<(usize, i64)> = sel
                        .array_entries()
                        .unwrap()
                        .map(|(i, e)| (i, e.as_i64().unwrap()))
                        .collect();
                    let want: Vec<(usize, i64)> = l.iter().copied().enumerate().collect();
                    ensure!(all == want, "wrong-element", "{k}: entries {all:?}");
                }
            }
            (Err(_), Err(e)) => {
                ensure!(names(&e, k), "error-without-key", "key {k}: error {e}");
                // and stepwise
                let (first, rest) = k.split_once('.').unwrap_or((k, ""));
                let l0 = conf.get(first);
                let segs: Vec<&str> = rest.split('.').filter(|s| !s.is_empty()).collect();
                let step = match segs.as_slice() {
                    [] => l0.value().err(),
                    [x] => l0.get(x).value().err(),
                    [x, y] => l0.get(x).get(y).value().err(),
                    [x, y, z] => l0.get(x).get(y).get(z).value().err(),
                    _ => unreachable!(),
                };
                ensure!(
                    step.as_ref().is_some_and(|s| names(s, k)),
                    "stepwise-lookup",
                    "key {k}: select says {e}, get {step:?}"
                );
                let kind = |e: &ConfigError| matches!(e, ConfigError::PathError(p) if p.is_missing());
                ensure!(
                    step.as_ref().is_some_and(|s| kind(s) == kind(&e)),
                    "stepwise-lookup",
                    "key {k}: select says {e}, get {step:?}"
                );
            }
            (w, g) => {
                return Err(explore::Violation::new(
                    "wrong-value",
                    format!("key {k}: read {g:?}, set to {w:?}"),
                ));
            }
        }
    }
    Ok(())
}

fn entry<T: ConfigValueType>(
    conf: &Config,
    e: &ConfigEntry<T>,
    want: Result<T::Value, bool>,
) -> Outcome
where
    T::Value: PartialEq + Debug + Clone,
{
    let def = e.default.map(|d| d());
    for with_default in [false, true] {
        let got = if with_default { conf.read_or_default(e) } else { conf.read(e) };
        let sel = if with_default { e.read_or_default(conf) } else { e.read(conf) };
        ensure!(got == sel, "wrong-value", "{}: {got:?} and {sel:?}", e.key);
        match (&want, &def) {
            (Ok(v), _) => {
                ensure!(got.as_ref() == Ok(v), "wrong-value", "{}: read {got:?}, set to {v:?}", e.key)
            }
            (Err(true), Some(d)) if with_default => ensure!(
                got.as_ref() == Ok(d),
                "wrong-default",
                "{}: read {got:?}, not set, default {d:?}",
                e.key
            ),
            _ => match &got {
                Err(x) => ensure!(names(x, e.key), "error-without-key", "{}: error {x}", e.key),
                Ok(v) => {
                    return Err(explore::Violation::new(
                        "wrong-value",
                        format!("{}: read {v:?}, which nobody set", e.key),
                    ));
                }
            },
        }
    }
    Ok(())
}

fn entries(conf: &Config, m: &Tab) -> Outcome {
    // Err(true): missing; Err(false): present but not convertible
    let int = |p: &str| match find(m, p) {
        Ok(V::I(i)) => Ok(*i),
        Ok(_) => Err(false),
        Err(x) => Err(x),
    };
    entry(conf, &A, int("a"))?;
    entry(conf, &AB, int("a.b"))?;
    entry(conf, &ABC, int("a.b.c"))?;
    entry(conf, &LZ, int("l.z"))?;
    entry(
        conf,
        &AX,
        match find(m, "a.x") {
            Ok(V::S(s)) => Ok(s.to_string()),
            Ok(_) => Err(false),
            Err(x) => Err(x),
        },
    )?;
    entry(
        conf,
        &LIST,
        match find(m, "l") {
            Ok(V::L(l)) => Ok(l.clone()),
            Ok(_) => Err(false),
            Err(x) => Err(x),
        },
    )?;
    entry(
        conf,
        &SMALL,
        match find(m, "a.small") {
            Ok(V::I(i)) if (0..100).contains(i) => Ok(*i as usize),
            Ok(_) => Err(false),
            Err(x) => Err(x),
        },
    )
}

/// Documents 3 and 7 as files.
static FILES: LazyLock<[PathBuf; 2]> = LazyLock::new(|| {
    let root = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let dir = root.join(".build/mc-conf");
    std::fs::create_dir_all(&dir).unwrap();
    let docs = docs();
    [3, 7].map(|d| {
        let p = dir.join(format!("{d}.toml"));
        std::fs::write(&p, docs[d].0).unwrap();
        p
    })
});

/// Every sequence of sources (strings, files, values set in code).
fn sources(ctx: &Ctx, depth: usize) -> Outcome {
    let docs = docs();
    let codes = 6;
    let mut model = Tab::new();
    // what the harness itself sets
    let world = World::with(ctx, |c| {
        let n = ctx.pick(depth + 1);
        for _ in 0..n {
            let i = ctx.pick(docs.len() + codes + 2);
            if i < docs.len() {
                ctx.log(|| format!("load {:?}", docs[i].0));
                c.load_config_str(docs[i].0);
                merge(&mut model, docs[i].1.clone());
                continue;
            }
            match i - docs.len() {
                0 => {
                    c.set_config_value(&A, 11);
                    merge(&mut model, nest("a", V::I(11)));
                }
                1 => {
                    c.set_config_value(&AB, 12);
                    merge(&mut model, nest("a.b", V::I(12)));
                }
                2 => {
                    c.set_config_value(&ABC, 13);
                    merge(&mut model, nest("a.b.c", V::I(13)));
                }
                3 => {
                    c.set_config_value(&AX, "u".to_string());
                    merge(&mut model, nest("a.x", V::S("u")));
                }
                4 => {
                    c.set_config_value(&LIST, vec![9]);
                    merge(&mut model, nest("l", V::L(vec![9])));
                }
                5 => {
                    c.set_config_value(&SMALL, 42);
                    merge(&mut model, nest("a.small", V::I(42)));
                }
                k => {
                    // the same documents from a file
                    let d = if k == 6 { 3 } else { 7 };
                    c.load_config_file(FILES[k - 6].clone());
                    merge(&mut model, docs[d].1.clone());
                }
            }
            ctx.log(|| format!("source {i}"));
        }
    });
    let conf = world.sys.config();
    lookups(conf, &model)?;
    entries(conf, &model)?;
    // the runtime's own keys, set before, are unchanged
    ensure!(
        conf.read(&kompact::config_keys::system::LABEL) == Ok("mc".to_string())
            && conf.read(&kompact::config_keys::system::THREADS) == Ok(1)
            && conf.read(&kompact::config_keys::system::SCHEDULER) == Ok("custom".to_string()),
        "other-key-changed",
        "the runtime keys changed"
    );
    ctx.outcome(&format!("{model:?}"));
    Ok(())
}

/// Runtime keys with legal and illegal values: the last source wins, illegal
/// values make the system refuse to start.
fn runtime_keys(ctx: &Ctx) -> Outcome {
    #[derive(Clone, Copy)]
    enum K {
        Text(&'static str),
        Code(usize),
    }
    let cases: [(K, bool); 26] = [
        (K::Text("throughput = 1"), true),
        (K::Text("throughput = 0"), false),
        (K::Text("throughput = -1"), false),
        (K::Text("throughput = 9223372036854775807"), true),
        (K::Text("throughput = \"5\""), false),
        (K::Text("throughput = 5.0"), false),
        (K::Text("message-priority = 0.5"), true),
        (K::Text("message-priority = 0.0"), false),
        (K::Text("message-priority = 1.0"), false),
        (K::Text("message-priority = 1"), false),
        (K::Text("message-priority = nan"), false),
        (K::Text("message-priority = inf"), false),
        (K::Text("message-priority = -0.5"), false),
        (K::Text("message-priority = 0.001"), true),
        (K::Text("threads = 0"), false),
        (K::Text("threads = 3"), true),
        (K::Text("scheduler = \"custom\""), true),
        (K::Text("scheduler = \"Auto\""), false),
        (K::Text("scheduler = \"\""), false),
        (K::Text("scheduler = 1"), false),
        (K::Text("label = \"x\""), true),
        (K::Text("label = 4"), false),
        (K::Text("label = "), false),
        (K::Code(0), true),
        (K::Code(1), true),
        (K::Code(2), false),
    ];
    use kompact::config_keys::system as ks;
    let world = World::new(ctx); // supplies a spare executor environment
    drop(world);
    let mut conf = KompactConfig::default();
    let mut ok = true; // no document failed to parse
    let mut last: BTreeMap<&'static str, (usize, bool)> = BTreeMap::new();
    let n = 1 + ctx.pick(2);
    for _ in 0..n {
        let i = ctx.pick(cases.len());
        let (k, good) = cases[i];
        match k {
            K::Text(t) => {
                conf.load_config_str(format!("[kompact.runtime]\n{t}"));
                if t == "label = " {
                    ok = false;
                } else {
                    last.insert(t.split(" = ").next().unwrap(), (i, good));
                }
            }
            K::Code(0) => {
                conf.set_config_value(&ks::THROUGHPUT, 17);
                last.insert("throughput", (i, true));
            }
            K::Code(1) => {
                conf.set_config_value(&ks::MESSAGE_PRIORITY, 0.25);
                last.insert("message-priority", (i, true));
            }
            K::Code(_) => {
                conf.load_config_file("/nonexistent/kompact-mc.toml");
                ok = false;
            }
        }
    }
    let good = ok && last.values().all(|v| v.1);
    if good {
        // Legal documents start a system; reading back gives the last values.
        let world = World::with(ctx, |c| {
            for (i, _) in last.values() {
                match cases[*i].0 {
                    K::Text(t) => {
                        c.load_config_str(format!("[kompact.runtime]\n{t}"));
                    }
                    K::Code(0) => {
                        c.set_config_value(&ks::THROUGHPUT, 17);
                    }
                    K::Code(_) => {
                        c.set_config_value(&ks::MESSAGE_PRIORITY, 0.25);
                    }
                }
            }
        });
        let conf = world.sys.config();
        for (k, (i, _)) in &last {
            let K::Text(t) = cases[*i].0 else { continue };
            let text = t.split(" = ").nth(1).unwrap();
            let v = conf.select(&format!("kompact.runtime.{k}")).value().unwrap().to_toml_fragment();
            ensure!(v == text, "wrong-value", "{k} is {v}, set to {text}");
        }
        if !last.contains_key("throughput") {
            ensure!(
                conf.read_or_default(&ks::THROUGHPUT) == Ok(50),
                "wrong-default",
                "default throughput {:?}",
                conf.read_or_default(&ks::THROUGHPUT)
            );
        }
        let t = conf.read_or_default(&ks::THROUGHPUT).unwrap();
        ensure!(world.sys.throughput() == t, "wrong-value", "throughput in use {}, configured {t}", world.sys.throughput());
        let m = world.sys.max_messages();
        ensure!(m >= 1 && m <= t, "wrong-value", "at most {m} messages of {t}");
        ctx.outcome(&"started");
        return Ok(());
    }
    // must be refused before anything is started
    let mut b = conf.build();
    match poll_once(&mut b) {
        Poll::Ready(Err(e)) => {
            if ok {
                let bad: Vec<&str> =
                    last.iter().filter(|(_, v)| !v.1).map(|(k, _)| *k).collect();
                ensure!(
                    bad.iter().any(|k| e.to_string().contains(k) || format!("{e:?}").contains(k)),
                    "error-without-key",
                    "{bad:?} illegal, error {e:?}"
                );
            }
            ctx.outcome(&"refused");
            Ok(())
        }
        Poll::Ready(Ok(s)) => {
            let _ = s.shutdown();
            Err(explore::Violation::new("illegal-accepted", "a system with illegal configuration started".to_string()))
        }
        Poll::Pending => Err(explore::Violation::new(
            "illegal-accepted",
            "a system with illegal configuration is starting".to_string(),
        )),
    }
}

// ---- converters -----------------------------------------------------------
fn of<T: ConfigValueType>(text: &str) -> Result<T::Value, ConfigError> {
    let c = parse_config_str(&format!("v = {text}")).map_err(|e| ConfigError::ConversionError {
        path: None,
        description: e.to_string(),
    })?;
    T::from_conf(&c["v"])
}

fn round<T: ConfigValueType>(v: T::Value, eq: impl Fn(&T::Value, &T::Value) -> bool) -> Outcome
where
    T::Value: Clone + Debug,
{
    let direct = T::from_conf(&T::into_config_value(v.clone()));
    ensure!(
        direct.as_ref().is_ok_and(|d| eq(d, &v)),
        "round-trip",
        "{v:?} set in code reads {direct:?}"
    );
    let text = T::config_string(v.clone());
    let back = of::<T>(&text);
    ensure!(
        back.as_ref().is_ok_and(|d| eq(d, &v)),
        "round-trip",
        "{v:?} written as {text} reads {back:?}"
    );
    Ok(())
}

fn round_trips(ctx: &Ctx) -> Outcome {
    let ints = [
        0i64,
        1,
        -1,
        255,
        1 << 31,
        (1 << 53) + 1,
        i64::MAX,
        i64::MAX - 1,
        i64::MIN,
        i64::MIN + 1,
    ];
    let reals = [
        0.0f64,
        -0.0,
        1.0,
        0.1,
        1.0 / 3.0,
        1e300,
        -1e-300,
        f64::MAX,
        f64::MIN,
        f64::MIN_POSITIVE,
        5e-324,
        9007199254740993.0,
        1e16,
        1e17,
        123456789.125,
        f64::INFINITY,
        f64::NEG_INFINITY,
        f64::NAN,
    ];
    let floats = [
        0.0f32,
        -0.0,
        0.1,
        1.0 / 3.0,
        f32::MAX,
        f32::MIN,
        f32::MIN_POSITIVE,
        1e-45,
        16777217.0,
        f32::INFINITY,
        f32::NEG_INFINITY,
        f32::NAN,
    ];
    let chars = ["", "a", "\"", "\\", "\n", "\r", "\t", "\0", "\u{7f}", "é", "\u{1F600}", "'", "#", "=", "\u{8}", "\u{1b}", "'''", "\"\"\"", " "];
    let nanos = [0u32, 1, 999, 1000, 999_999, 1_000_000, 999_999_999, 500_000_000];
    let secs = [
        0u64,
        1,
        59,
        60,
        61,
        3599,
        3600,
        86399,
        86400,
        604800,
        2630015,
        2630016,
        2630017,
        31557599,
        31557600,
        31557601,
        u32::MAX as u64,
        i64::MAX as u64,
        u64::MAX - 1,
        u64::MAX,
    ];
    let sizes = [
        0u64,
        1,
        1023,
        1024,
        u32::MAX as u64 + 1,
        i64::MAX as u64,
        i64::MAX as u64 + 1,
        u64::MAX - 1,
        u64::MAX,
    ];
    match ctx.pick(9) {
        0 => round::<IntegerValue>(*ctx.pick_of(&ints), |a, b| a == b),
        1 => round::<RealValue>(*ctx.pick_of(&reals), |a, b| {
            (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
        }),
        2 => round::<F32Value>(*ctx.pick_of(&floats), |a, b| {
            (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
        }),
        3 => round::<BooleanValue>(ctx.pick(2) == 1, |a, b| a == b),
        4 => {
            let mut s = String::new();
            for _ in 0..3 {
                s.push_str(ctx.pick_of(&chars));
            }
            round::<StringValue>(s, |a, b| a == b)
        }
        5 => round::<DurationValue>(
            Duration::new(*ctx.pick_of(&secs), *ctx.pick_of(&nanos)),
            |a, b| a == b,
        ),
        6 => round::<BytesValue>(*ctx.pick_of(&sizes), |a, b| a == b),
        7 => {
            let n = ctx.pick(4);
            let v: Vec<i64> = (0..n).map(|_| *ctx.pick_of(&ints)).collect();
            round::<ArrayOfValues<IntegerValue>>(v, |a, b| a == b)
        }
        _ => round::<UsizeValue>(
            *ctx.pick_of(&[0usize, 1, 1 << 32, i64::MAX as usize]),
            |a, b| a == b,
        ),
    }
}

/// Values of every TOML type against every converter: exactly the matching
/// ones are accepted, with the exact value.
fn kinds(ctx: &Ctx) -> Outcome {
    let texts = [
        "0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
        "0xff", "0o17", "0b11", "1_000", "0x8000000000000000", "1.5", "-0.0", "1e3", "1e400",
        "-1e400", "3.5e38", "-3.5e38", "3.4e38", "1e-50", "inf", "-inf", "nan", "true", "false",
        "True", "\"\"", "\"true\"", "\"1\"", "'1.5'", "1979-05-27T07:32:00Z", "07:32:00", "[]",
        "[1]", "[1, 2.5]", "[[1]]", "{}", "{ a = 1 }", "01", "+5", "+0x5",
    ];
    let text = *ctx.pick_of(&texts);
    let int: Option<i64> = match text {
        "0" => Some(0),
        "1" => Some(1),
        "-1" => Some(-1),
        "9223372036854775807" => Some(i64::MAX),
        "-9223372036854775808" => Some(i64::MIN),
        "0xff" => Some(255),
        "0o17" => Some(15),
        "0b11" => Some(3),
        "1_000" => Some(1000),
        "+5" => Some(5),
        _ => None,
    };
    let float: Option<f64> = match text {
        "1.5" => Some(1.5),
        "-0.0" => Some(-0.0),
        "1e3" => Some(1000.0),
        "3.5e38" => Some(3.5e38),
        "-3.5e38" => Some(-3.5e38),
        "3.4e38" => Some(3.4e38),
        "1e-50" => Some(1e-50),
        "inf" => Some(f64::INFINITY),
        "-inf" => Some(f64::NEG_INFINITY),
        "nan" => Some(f64::NAN),
        _ => int.map(|i| i as f64),
    };
    let eqf = |a: f64, b: f64| (a.is_nan() && b.is_nan()) || a == b;
    let got = of::<IntegerValue>(text);
    ensure!(got.clone().ok() == int, "int", "{text} as an integer: {got:?}");
    let got = of::<UsizeValue>(text);
    ensure!(
        got.clone().ok() == int.filter(|i| *i >= 0).map(|i| i as usize),
        "usize",
        "{text} as a usize: {got:?}"
    );
    let got = of::<RealValue>(text);
    match (&got, float) {
        (Ok(a), Some(b)) => ensure!(eqf(*a, b), "real", "{text} as a real: {got:?}"),
        (Err(_), None) => (),
        _ => return Err(explore::Violation::new("real", format!("{text} as a real: {got:?}"))),
    }
    let got = of::<F32Value>(text);
    match (&got, float) {
        (Ok(a), Some(b)) => {
            ensure!(
                a.is_finite() == b.is_finite(),
                "f32-overflow",
                "{text} as a 32-bit real: {got:?}"
            );
            ensure!(eqf(*a as f64, (b as f32) as f64), "f32", "{text} as a 32-bit real: {got:?}")
        }
        (Err(_), None) => (),
        (Err(_), Some(b)) if b.is_finite() && b.abs() > f32::MAX as f64 => (),
        _ => return Err(explore::Violation::new("f32", format!("{text} as a 32-bit real: {got:?}"))),
    }
    let got = of::<BooleanValue>(text);
    let want = match text {
        "true" => Some(true),
        "false" => Some(false),
        _ => None,
    };
    ensure!(got.clone().ok() == want, "bool", "{text} as a boolean: {got:?}");
    let got = of::<StringValue>(text);
    let want = match text {
        "\"\"" => Some(""),
        "\"true\"" => Some("true"),
        "\"1\"" => Some("1"),
        "'1.5'" => Some("1.5"),
        _ => None,
    };
    ensure!(got.clone().ok().as_deref() == want, "string", "{text} as a string: {got:?}");
    let got = of::<ArrayOfValues<IntegerValue>>(text);
    let want: Option<Vec<i64>> = match text {
        "[]" => Some(vec![]),
        "[1]" => Some(vec![1]),
        _ => None,
    };
    ensure!(got.clone().ok() == want, "array", "{text} as a list of integers: {got:?}");
    let got = of::<DurationValue>(text);
    ensure!(got.is_err(), "duration", "{text} as a duration: {got:?}");
    let got = of::<BytesValue>(text);
    let want = match text {
        "\"1\"" => Some(1),
        "'1.5'" => Some(2),
        _ => int.filter(|i| *i >= 0).map(|i| i as u64),
    };
    ensure!(got.clone().ok() == want, "bytes", "{text} as a size: {got:?}");
    Ok(())
}

const NUMS: [&str; 20] = [
    "0", "1", "7", "00", "012", "1024", "4294967296", "9223372036854775807",
    "9223372036854775808", "18446744073709551615", "18446744073709551616", "0.5", "1.25",
    "2.000", "0.001", "17179869183", "17179869184", "99999999999999999999999999999999",
    "79228162514264337593543950335", "79228162514264337593543950335.9",
];
/// numerator and power of ten of the denominator
fn num(t: &str) -> Option<(u128, u32)> {
    let (i, f) = t.split_once('.').unwrap_or((t, ""));
    format!("{i}{f}").parse().ok().map(|n| (n, f.len() as u32))
}

/// Sizes: number, spaces, unit.  Fractions of a byte are rounded up.
fn sizes(ctx: &Ctx) -> Outcome {
    let units: [(&str, u128); 26] = [
        ("", 1),
        ("B", 1),
        ("b", 1),
        ("K", 1000),
        ("k", 1000),
        ("KB", 1000),
        ("kb", 1000),
        ("KiB", 1 << 10),
        ("kib", 1 << 10),
        ("Ki", 1 << 10),
        ("MB", 1_000_000),
        ("MiB", 1 << 20),
        ("mib", 1 << 20),
        ("GB", 1_000_000_000),
        ("GiB", 1 << 30),
        ("TB", 1_000_000_000_000),
        ("TiB", 1 << 40),
        ("PB", 1_000_000_000_000_000),
        ("PiB", 1 << 50),
        ("EB", 1_000_000_000_000_000_000),
        ("EiB", 1 << 60),
        ("eib", 1 << 60),
        ("M", 1_000_000),
        ("G", 1_000_000_000),
        ("T", 1_000_000_000_000),
        ("E", 1_000_000_000_000_000_000),
    ];
    let n = *ctx.pick_of(&NUMS);
    let sp = *ctx.pick_of(&["", " ", "  "]);
    let (u, size) = *ctx.pick_of(&units);
    let lead = *ctx.pick_of(&["", " "]);
    let text = format!("{lead}{n}{sp}{u}");
    let (m, d) = num(n).unwrap();
    let want = m
        .checked_mul(size)
        .map(|x| x.div_ceil(10u128.pow(d)))
        .and_then(|x| u64::try_from(x).ok());
    let sig = if m > 1u128 << 96 { "size-huge" } else { "size" };
    let got = std::panic::catch_unwind(|| of::<BytesValue>(&format!("{text:?}")));
    ensure!(got.is_ok(), format!("panic:{sig}"), "{text:?} as a size panics");
    let got = got.unwrap();
    ensure!(got.clone().ok() == want, sig, "{text:?} as a size: {got:?}, exactly {want:?}");
    Ok(())
}

/// Texts that are no sizes or durations.
fn junk(ctx: &Ctx, len: usize) -> Outcome {
    let pieces =
        ["", "1", "B", "-", ".", "+", "e", " ", "s", "KiB", "ms", "é", ",", "0x", "µ", "١"];
    let mut t = String::new();
    for _ in 0..len {
        t.push_str(ctx.pick_of(&pieces));
    }
    let text = format!("{t:?}");
    let size = of::<BytesValue>(&text);
    let dur = of::<DurationValue>(&text);
    // accepted texts are a number and a unit
    let s: String = t.split_whitespace().collect::<Vec<_>>().join(" ");
    if let Ok(v) = size {
        let digits: String = s.chars().take_while(|c| c.is_ascii_digit() || *c == '.').collect();
        let unit: String = s[digits.len()..].trim().to_string();
        let ok = num(&digits).is_some_and(|(n, d)| {
            let k = match unit.to_lowercase().as_str() {
                "" | "b" => 1,
                "kib" => 1024,
                "e" | "eb" => 10u128.pow(18),
                _ => return false,
            };
            !digits.starts_with('.') && (n * k).div_ceil(10u128.pow(d)) == v as u128
        });
        ensure!(ok, "junk-size", "{t:?} as a size is {v}");
    }
    if let Ok(v) = dur {
        let plain = !s.is_empty()
            && s.chars().all(|c| "1. msµ".contains(c))
            && s.starts_with('1')
            && s.ends_with(['s', 'm']);
        ensure!(plain, "junk-duration", "{t:?} as a duration is {v:?}");
    }
    Ok(())
}

/// Durations: one or two terms.
fn durations(ctx: &Ctx, two: bool) -> Outcome {
    let units: [(&str, u128); 22] = [
        ("ns", 1),
        ("nsec", 1),
        ("us", 1000),
        ("usec", 1000),
        ("ms", 1_000_000),
        ("msec", 1_000_000),
        ("s", 1_000_000_000),
        ("sec", 1_000_000_000),
        ("seconds", 1_000_000_000),
        ("m", 60_000_000_000),
        ("min", 60_000_000_000),
        ("minutes", 60_000_000_000),
        ("h", 3_600_000_000_000),
        ("hr", 3_600_000_000_000),
        ("hours", 3_600_000_000_000),
        ("d", 86_400_000_000_000),
        ("days", 86_400_000_000_000),
        ("weeks", 604_800_000_000_000),
        ("M", 2_630_016_000_000_000),
        ("months", 2_630_016_000_000_000),
        ("y", 31_557_600_000_000_000),
        ("years", 31_557_600_000_000_000),
    ];
    let nums = [
        "0", "1", "1000", "1000000000", "999999999", "2.5", "0.25", "18446744073709551615",
        "18446744073709551616", "584542046090", "584542046091", "307445734561825860",
    ];
    let mut text = String::new();
    let mut total: Option<u128> = Some(0);
    let mut must = true; // has to be accepted if it fits
    for i in 0..if two { 2 } else { 1 } {
        let n = *ctx.pick_of(&nums);
        let (u, ns) = *ctx.pick_of(&units);
        let sp = if i == 0 && !two { *ctx.pick_of(&["", " "]) } else { "" };
        if i == 1 {
            text.push_str(ctx.pick_of(&["", " "]));
        }
        text.push_str(&format!("{n}{sp}{u}"));
        let (m, d) = num(n).unwrap();
        let den = 10u128.pow(d);
        let x = m.checked_mul(ns);
        total = match (total, x) {
            (Some(t), Some(x)) if x % den == 0 => t.checked_add(x / den),
            _ => None,
        };
        if ns < 1_000_000_000 && (m * ns / den) > u64::MAX as u128 / 4 {
            must = false;
        }
        if d > 0 && ns >= 31_557_600_000_000_000 {
            must = false;
        }
    }
    let fits = total.filter(|t| *t / 1_000_000_000 <= u64::MAX as u128);
    let sig = "duration";
    let got = std::panic::catch_unwind(|| of::<DurationValue>(&format!("{text:?}")));
    // one nanosecond beyond the largest duration, from a whole second of nanoseconds
    let carry = total == Some((u64::MAX as u128 + 1) * 1_000_000_000);
    let psig = if carry { "panic:duration-carry" } else { "panic:duration" };
    ensure!(got.is_ok(), psig, "{text:?} as a duration panics");
    match (got.unwrap(), fits) {
        (Ok(d), Some(t)) => {
            ensure!(d.as_nanos() == t, sig, "{text:?} as a duration is {d:?}, exactly {t} ns")
        }
        (Ok(d), None) => {
            return Err(explore::Violation::new(sig, format!("{text:?} as a duration is {d:?}, but does not fit")));
        }
        (Err(_), None) => (),
        (Err(e), Some(t)) => {
            let sub = text.contains('.') && (t % 1_000_000_000 != 0 || t < 1_000_000_000);
            ensure!(!must || sub, sig, "{text:?} ({t} ns) is rejected: {e}")
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        level: "model_checking",
        rule: "one execution is one sequence of configuration sources, or one text given to one converter",
        assumptions: vec![
            "the TOML syntax itself is parsed by the toml crate; documents are fixed".into(),
            "reals are rounded to the nearest representable value, sizes up to whole bytes".into(),
        ],
        scenarios: Box::new(|t: Tier| {
            vec![
                Scenario::new("sources-then-reads", 0, move |c: &Ctx| sources(c, t.or(4, 5)))
                    .weight(4),
                Scenario::new("runtime-keys", 0, runtime_keys).weight(2),
                Scenario::new("round-trips", 0, round_trips).same_thread(),
                Scenario::new("toml-kinds-by-converter", 0, kinds).same_thread(),
                Scenario::new("sizes", 0, sizes).same_thread(),
                Scenario::new("durations-one-term", 0, |c: &Ctx| durations(c, false)).same_thread(),
                Scenario::new("durations-two-terms", 0, |c: &Ctx| durations(c, true)).same_thread(),
                Scenario::new("malformed-texts", 0, move |c: &Ctx| junk(c, t.or(4, 5))).same_thread(),
            ]
        }),
    }]
}
