//! Typed messages round-trip in every format and bad ones are refused.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;
use crate::sut::call;
use pkstl::{IncomingMessage, MessageFormat, SecureLayer, SecureLayerConfig};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::BufWriter;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum F {
    Json,
    Cbor,
    Bincode,
}
const FORMATS: [F; 3] = [F::Json, F::Cbor, F::Bincode];
impl F {
    fn api(self) -> MessageFormat {
        match self {
            F::Json => MessageFormat::Utf8Json,
            F::Cbor => MessageFormat::Cbor,
            F::Bincode => MessageFormat::Bincode,
        }
    }
    fn tag(self) -> [u8; 4] {
        [0, 0, 0, match self {
            F::Json => 2,
            F::Cbor => 3,
            F::Bincode => 4,
        }]
    }
    fn of(tag: &[u8]) -> Option<F> {
        FORMATS.iter().find(|f| f.tag() == tag[..]).cloned()
    }
    fn encode<T: Serialize>(self, t: &T) -> Option<Vec<u8>> {
        match self {
            F::Json => serde_json::to_vec(t).ok(),
            F::Cbor => serde_cbor::to_vec(t).ok(),
            F::Bincode => bincode::serialize(t).ok(),
        }
    }
    fn decode<T: DeserializeOwned>(self, b: &[u8]) -> Option<T> {
        match self {
            F::Json => serde_json::from_slice(b).ok(),
            F::Cbor => serde_cbor::from_slice(b).ok(),
            F::Bincode => bincode::deserialize(b).ok(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Ch {
    Connect,
    Ack,
    User,
    /// a user message that arrives before the ACK
    Held,
}
const CHANNELS: [Ch; 4] = [Ch::Connect, Ch::Ack, Ch::User, Ch::Held];

/// A delivered typed event: its kind and the value's text, if any
type TEv = (Ch, Option<String>);

fn typed_read<T: Debug + DeserializeOwned>(sl: &mut SecureLayer, b: &[u8]) -> Res<Vec<TEv>> {
    match call(|| sl.read::<T>(b)) {
        Err(p) => Err(Fault::Panic(p)),
        Ok(Err(e)) => Err(Fault::Err(format!("{:?}", e))),
        Ok(Ok(v)) => Ok(v
            .into_iter()
            .map(|m| match m {
                IncomingMessage::Connect { custom_data, .. } => (Ch::Connect, custom_data.map(|x| format!("{:?}", x))),
                IncomingMessage::Ack { custom_data } => (Ch::Ack, custom_data.map(|x| format!("{:?}", x))),
                IncomingMessage::Message { data } => (Ch::User, data.map(|x| format!("{:?}", x))),
            })
            .collect()),
    }
}
fn typed_write<T: Serialize>(sl: &mut SecureLayer, ch: Ch, t: &T) -> WOut {
    wout(|w: &mut BufWriter<Vec<u8>>| match ch {
        Ch::Connect => sl.write_connect_msg(Some(t), w),
        Ch::Ack => sl.write_ack_msg(Some(t), w),
        _ => sl.write(t, w),
    })
}

/// A value of some type, the type erased
trait Value: Send + Sync {
    fn text(&self) -> String;
    fn ty(&self) -> &'static str;
    fn write(&self, sl: &mut SecureLayer, ch: Ch) -> WOut;
    fn read(&self, sl: &mut SecureLayer, b: &[u8]) -> Res<Vec<TEv>>;
    fn encode(&self, f: F) -> Option<Vec<u8>>;
    /// what the codec itself makes of the bytes
    fn decode(&self, f: F, b: &[u8]) -> Option<String>;
}
struct Of<T>(T);
impl<T: Serialize + DeserializeOwned + Debug + Send + Sync> Value for Of<T> {
    fn text(&self) -> String {
        format!("{:?}", self.0)
    }
    fn ty(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn write(&self, sl: &mut SecureLayer, ch: Ch) -> WOut {
        typed_write(sl, ch, &self.0)
    }
    fn read(&self, sl: &mut SecureLayer, b: &[u8]) -> Res<Vec<TEv>> {
        typed_read::<T>(sl, b)
    }
    fn encode(&self, f: F) -> Option<Vec<u8>> {
        f.encode(&self.0)
    }
    fn decode(&self, f: F, b: &[u8]) -> Option<String> {
        f.decode::<T>(b).map(|t| format!("{:?}", t))
    }
}
type V = Arc<dyn Value>;
fn v<T: Serialize + DeserializeOwned + Debug + Send + Sync + 'static>(t: T) -> V {
    Arc::new(Of(t))
}
/// The format can represent the value: only those are sent.
fn representable(x: &V, f: F) -> bool {
    x.encode(f).map_or(false, |b| x.decode(f, &b) == Some(x.text()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unit;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct New(u16);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tup(i8, String, Option<bool>);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rec {
    id: u64,
    name: String,
    tags: Vec<String>,
    inner: Option<Box<Rec>>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tree {
    Nil,
    Int(i64),
    Text(String),
    Bytes(Vec<u8>),
    Two(Box<Tree>, Box<Tree>),
    List(Vec<Tree>),
    Opt { a: Option<Box<Tree>>, b: bool },
    Map(BTreeMap<String, Tree>),
}

fn leaves() -> Vec<Tree> {
    vec![Tree::Nil, Tree::Int(0), Tree::Int(-1), Tree::Text("".into()), Tree::Text("é\"\\\u{0}\n".into()), Tree::Bytes(vec![]), Tree::Bytes(vec![0, 255, 2])]
}
/// All trees one level above `below`
fn above(below: &[Tree]) -> Vec<Tree> {
    let mut o = vec![Tree::List(vec![]), Tree::Opt { a: None, b: true }, Tree::Map(BTreeMap::new())];
    for a in below {
        o.push(Tree::List(vec![a.clone()]));
        o.push(Tree::Opt { a: Some(Box::new(a.clone())), b: false });
        let mut m = BTreeMap::new();
        m.insert("k".to_string(), a.clone());
        o.push(Tree::Map(m));
        for b in below {
            o.push(Tree::Two(Box::new(a.clone()), Box::new(b.clone())));
            o.push(Tree::List(vec![a.clone(), b.clone()]));
            let mut m = BTreeMap::new();
            m.insert("".to_string(), a.clone());
            m.insert("key 2".to_string(), b.clone());
            o.push(Tree::Map(m));
        }
    }
    o
}
fn values() -> Vec<V> {
    let mut o: Vec<V> = vec![];
    for x in 0..=255u8 {
        o.push(v(x));
    }
    for s in 0..64 {
        o.push(v(1u64 << s));
        o.push(v((1u64 << s).wrapping_sub(1)));
        o.push(v((1i64 << s).wrapping_neg()));
        if s < 32 {
            o.push(v(1u32 << s));
        }
    }
    o.extend(vec![v(i8::min_value()), v(i16::max_value()), v(i32::min_value()), v(u16::max_value()), v(i64::max_value())]);
    o.extend(vec![v(true), v(false), v('a'), v('\u{0}'), v('€'), v('\u{10FFFF}')]);
    o.extend(vec![v(0.0f64), v(1.5f64), v(-2.25f32), v(1e10f64)]);
    for s in &["", "a", "null", "\"", "\\", "\u{0}", "\u{7f}", "line\nbreak\ttab", "é€😀", "{}", "[1]", "\0\0\0\u{2}"] {
        o.push(v(s.to_string()));
        o.push(v(Some(s.to_string())));
    }
    o.extend(vec![v(()), v((1u8, "x".to_string(), false)), v([1u32, 2, 3]), v(None::<u32>), v(Some(0u32))]);
    o.extend(vec![v(Vec::<u8>::new()), v(vec![0u8]), v((0..=255u8).collect::<Vec<u8>>()), v(vec![vec![1u16], vec![], vec![2, 3]]), v(vec![None, Some(5i32)])]);
    o.extend(vec![v(Unit), v(New(0)), v(New(9)), v(Tup(-1, "t".into(), None)), v(Tup(5, "".into(), Some(true)))]);
    let r = Rec { id: 7, name: "n".into(), tags: vec!["".into(), "t".into()], inner: None };
    o.push(v(r.clone()));
    o.push(v(Rec { id: u64::max_value(), name: "".into(), tags: vec![], inner: Some(Box::new(r)) }));
    let mut m = BTreeMap::new();
    o.push(v(m.clone()));
    m.insert("b".to_string(), 2u8);
    m.insert("".to_string(), 1);
    o.push(v(m));
    let mut m = BTreeMap::new();
    m.insert(300u32, "x".to_string());
    o.push(v(m));
    o
}
/// Lengths of texts around everything that has a size: short, the serialiser's buffer, the compression limit
fn lengths() -> Vec<usize> {
    let mut o: Vec<usize> = (0..70).collect();
    for &m in &[128, 255, 1000, 1024, 1025, 2048, 4096, 8192, 16_384, 65_536] {
        o.extend(m - 14..m + 4);
    }
    o.push(300_000);
    o.sort_unstable();
    o.dedup();
    o
}

fn configs() -> Vec<(&'static str, SecureLayerConfig)> {
    let mut o = vec![];
    for &(n, f) in &[
        ("raw", MessageFormat::RawBinary),
        ("plain", MessageFormat::Utf8PlainText),
        ("json", MessageFormat::Utf8Json),
        ("cbor", MessageFormat::Cbor),
        ("bincode", MessageFormat::Bincode),
    ] {
        let mut c = config(0);
        c.message_format = f;
        o.push((n, c));
    }
    let mut c = config(1);
    c.message_format = MessageFormat::Utf8Json;
    o.push(("json, everything compressed", c));
    let mut c = config(2);
    c.message_format = MessageFormat::Cbor;
    o.push(("cbor, nothing compressed", c));
    o
}
fn sender(f: F, packed: u8) -> SecureLayerConfig {
    let mut c = config(packed);
    c.message_format = f.api();
    c
}

fn sl(e: &mut Ep) -> &mut SecureLayer {
    match &mut e.inner {
        Inner::Cmp(c) => c,
        _ => unreachable!(),
    }
}

/// Two endpoints under test.
struct Pair {
    a: EpSpec,
    b: EpSpec,
    key: SessionKey,
}
impl Pair {
    fn new() -> Pair {
        let (ia, ib) = (Id::new(seed(201)), Id::new(seed(202)));
        let a = EpSpec::new(Mode::Cmp, &ia, seed(1), None);
        let b = EpSpec::new(Mode::Cmp, &ib, seed(2), Some(ia.pk.clone()));
        let key = session_key(seed(1), &epk_of(seed(2))).unwrap();
        Pair { a, b, key }
    }
}
fn must(cx: &mut Ctx, what: &str, o: WOut) -> R<Vec<u8>> {
    match o.res {
        Ok(()) => Ok(o.bytes),
        Err(Fault::Panic(p)) => {
            cx.report("panic", || format!("{} panics: {}", what, p))?;
            Ok(vec![])
        }
        Err(e) => {
            cx.report("write-refused", || format!("{} is refused: {:?}", what, e))?;
            Ok(vec![])
        }
    }
}
fn events(cx: &mut Ctx, what: &dyn Fn() -> String, got: Res<Vec<TEv>>, want: &[TEv]) -> R {
    cx.step();
    cx.log(|| format!("{} -> {:?}", what(), got).chars().take(200).collect());
    cx.observe(&format!("{:?}", got.as_ref().map(|v| v.len()).ok()));
    match got {
        Err(Fault::Panic(p)) => cx.report("panic", || format!("{} panics: {}", what(), p)),
        Ok(ref g) if g[..] == *want => Ok(()),
        g => cx.report("not-delivered", || {
            let t: String = format!("{:?}", g).chars().take(300).collect();
            let w: String = format!("{:?}", want).chars().take(300).collect();
            format!("{}: {} instead of {}", what(), t, w)
        }),
    }
}

/// One value through one channel between two endpoints under test, then one message in each direction.
fn exchange(cx: &mut Ctx, pair: &Pair, x: &V, f: F, packed: u8, rc: &(&'static str, SecureLayerConfig), ch: Ch) -> R {
    let mut sa = pair.a.clone();
    sa.config = sender(f, packed);
    let mut sb = pair.b.clone();
    sb.config = rc.1;
    let (mut a, mut b) = (sa.build(), sb.build());
    let name = || -> String { format!("{:?} of {} in {:?} as {:?} to a receiver configured for {}", x.text().chars().take(40).collect::<String>(), x.ty(), f, ch, rc.0) };
    let none = |k: Ch| vec![(k, None)];
    let val = |k: Ch| vec![(k, Some(x.text()))];
    // B's CONNECT and ACK carry nothing
    let bc = must(cx, "writing CONNECT", b.connect(None))?;
    let ac = match ch {
        Ch::Connect => must(cx, &name(), x.write(sl(&mut a), ch))?,
        _ => must(cx, "writing CONNECT", a.connect(None))?,
    };
    let r = x.read(sl(&mut b), &ac);
    events(cx, &name, r, &if ch == Ch::Connect { val(Ch::Connect) } else { none(Ch::Connect) })?;
    let r = x.read(sl(&mut a), &bc);
    events(cx, &|| "reading CONNECT without data".into(), r, &none(Ch::Connect))?;
    let aa = match ch {
        Ch::Ack => must(cx, &name(), x.write(sl(&mut a), ch))?,
        _ => must(cx, "writing ACK", a.ack(None))?,
    };
    let ba = must(cx, "writing ACK", b.ack(None))?;
    let r = x.read(sl(&mut a), &ba);
    events(cx, &|| "reading ACK without data".into(), r, &none(Ch::Ack))?;
    let m = match ch {
        Ch::User | Ch::Held => must(cx, &name(), x.write(sl(&mut a), Ch::User))?,
        _ => vec![],
    };
    if ch == Ch::Held {
        let r = x.read(sl(&mut b), &m);
        events(cx, &|| "a message before the ACK".into(), r, &[])?;
    }
    let mut want = match ch {
        Ch::Ack => val(Ch::Ack),
        _ => none(Ch::Ack),
    };
    if ch == Ch::Held {
        want.extend(val(Ch::User));
    }
    let r = x.read(sl(&mut b), &aa);
    events(cx, &name, r, &want)?;
    if ch == Ch::User {
        let r = x.read(sl(&mut b), &m);
        events(cx, &name, r, &val(Ch::User))?;
    }
    // what travelled: the tag, then what the codec reads as the value
    if ch == Ch::User || ch == Ch::Held {
        let body = pair.key.open(&m).and_then(|c| match parse(&c) {
            Ok(Parsed::User { body, hash_ok: true, .. }) => inflate(&body),
            _ => None,
        });
        let ok = body.as_ref().map_or(false, |b| b.len() >= 4 && b[..4] == f.tag() && x.decode(f, &b[4..]) == Some(x.text()));
        cx.check(ok, "wrong-encoding", || format!("{} travels as {:?}", name(), body.map(|b| short(&b))))?;
    }
    // both directions still work
    let m = must(cx, "writing a message", x.write(sl(&mut a), Ch::User))?;
    let r = x.read(sl(&mut b), &m);
    events(cx, &|| "the next message".into(), r, &val(Ch::User))?;
    let m = must(cx, "writing a binary message", b.user(b"\0\0\0\x02 1"))?;
    let r = typed_read::<u32>(sl(&mut a), &m);
    events(cx, &|| "a message in the other direction".into(), r, &[(Ch::User, Some("1".into()))])
}

fn roundtrip(name: &str, vals: Vec<V>, packed: Vec<u8>, chans: Vec<Ch>, receivers: Vec<usize>) -> Scenario {
    let pair = Pair::new();
    let cs: Vec<_> = receivers.iter().map(|&i| configs()[i]).collect();
    scenario(
        &format!("round trip, {}", name),
        0,
        &format!("{} values x 3 formats x {} sender compressions x {} receiver configurations x {:?}", vals.len(), packed.len(), cs.len(), chans),
        move |cx| {
            let f = *cx.pick_from(&FORMATS);
            let p = *cx.pick_from(&packed);
            let k = cx.choose((vals.len() + 99) / 100) * 100;
            let x = &vals[k + cx.choose((vals.len() - k).min(100))];
            if !representable(x, f) {
                cx.count("not representable in the format");
                return Ok(());
            }
            let c = *cx.pick_from(&cs);
            let ch = *cx.pick_from(&chans);
            cx.count("values exchanged");
            exchange(cx, &pair, x, f, p, &c, ch)
        },
    )
}

/// What a receiver asking for the type of `x` must make of a payload: None = an error.
/// `Err(())`: left to the codec's leniency
fn judge(x: &V, payload: &[u8]) -> Option<String> {
    if payload.len() < 4 {
        return None;
    }
    F::of(&payload[..4]).and_then(|f| x.decode(f, &payload[4..]))
}

/// One payload of the authenticated reference peer through one channel, then good messages in both directions.
fn peer_sends(cx: &mut Ctx, w: &World, rc: &(&'static str, SecureLayerConfig), ch: Ch, x: &V, n: &dyn Fn() -> String, body: &[u8], want: Option<Option<String>>) -> R {
    let mut s = w.spec.clone();
    s.config = rc.1;
    let mut e = s.build();
    let name = || format!("{} read as {} in {:?}", n(), x.ty(), ch);
    let target = |cx: &mut Ctx, k: Ch, r: Res<Vec<TEv>>| -> R {
        cx.step();
        cx.log(|| format!("{} -> {:?}", name(), r).chars().take(200).collect());
        cx.observe(&r.is_ok());
        match (&r, &want) {
            (Err(Fault::Panic(p)), _) => cx.report("panic", || format!("{} panics: {}", name(), p)),
            (Err(_), None) => Ok(()),
            (Ok(v), Some(t)) if v.last() == Some(&(k, t.clone())) => Ok(()),
            (Ok(v), None) => cx.report("accepted", || format!("{}: delivers {:?} instead of an error", name(), v)),
            (r, Some(t)) => cx.report("refused", || format!("{}: {:?} instead of {:?}", name(), r, t)),
        }
    };
    must(cx, "writing CONNECT", e.connect(None))?;
    if ch == Ch::Connect {
        let r = x.read(sl(&mut e), &w.p.connect(body));
        target(cx, Ch::Connect, r)?;
    } else {
        let r = x.read(sl(&mut e), &w.p.connect(&[]));
        events(cx, &|| "CONNECT without data".into(), r, &[(Ch::Connect, None)])?;
    }
    must(cx, "writing ACK", e.ack(None))?;
    let mut num = 0;
    if ch == Ch::Held {
        let r = x.read(sl(&mut e), &w.key.user(0, body));
        events(cx, &|| "a message before the ACK".into(), r, &[])?;
        num = 1;
    }
    if ch == Ch::Ack {
        let r = x.read(sl(&mut e), &w.p.ack(&w.epk, body));
        target(cx, Ch::Ack, r)?;
    } else {
        let r = x.read(sl(&mut e), &w.p.ack(&w.epk, &[]));
        if ch == Ch::Held {
            target(cx, Ch::User, r)?;
        } else {
            events(cx, &|| "ACK without data".into(), r, &[(Ch::Ack, None)])?;
        }
    }
    if ch == Ch::User {
        let r = x.read(sl(&mut e), &w.key.user(0, body));
        target(cx, Ch::User, r)?;
        num = 1;
    }
    // the connection is usable
    for (i, f) in FORMATS.iter().enumerate() {
        let mut b = f.tag().to_vec();
        b.extend(f.encode(&(77u32 + i as u32)).unwrap());
        let r = typed_read::<u32>(sl(&mut e), &w.key.user(num + i as u64, &deflate(&b)));
        events(cx, &|| format!("a following message after {}", name()), r, &[(Ch::User, Some(format!("{}", 77 + i)))])?;
    }
    let o = must(cx, "writing a message afterwards", e.user(b"back"))?;
    match w.key.open(&o).as_ref().map(|c| parse(c)) {
        Some(Ok(Parsed::User { nonce: 0, body, hash_ok: true })) if inflate(&body).as_ref().map(|b| &b[..]) == Some(b"back") => Ok(()),
        o => cx.report("bad-emission", || format!("after {} a wrong message is written: {:?}", name(), o)),
    }
}

fn probes() -> Vec<V> {
    vec![
        v(7u8),
        v(70_000u32),
        v("text".to_string()),
        v(Some(3u16)),
        v(vec![1u8, 2, 3]),
        v(vec!["a".to_string(), "".to_string()]),
        v(Tup(1, "x".into(), Some(false))),
        v(Rec { id: 1, name: "r".into(), tags: vec!["t".into()], inner: None }),
        v(Tree::Two(Box::new(Tree::Nil), Box::new(Tree::Int(4)))),
        v(true),
        v(()),
        v({
            let mut m = BTreeMap::new();
            m.insert("k".to_string(), 1u32);
            m
        }),
    ]
}
/// Every representable probe with a tag and its encoding
fn encoded() -> Vec<(V, F, Vec<u8>)> {
    let mut o = vec![];
    for x in probes() {
        for &f in &FORMATS {
            if representable(&x, f) {
                let mut b = f.tag().to_vec();
                b.extend(x.encode(f).unwrap());
                o.push((x.clone(), f, b));
            }
        }
    }
    o
}

fn bad(name: &str, chans: Vec<Ch>, list: Vec<(String, V, Vec<u8>)>, receivers: Vec<usize>) -> Scenario {
    let w = World::std(Mode::Cmp, false, true);
    let cs: Vec<_> = receivers.iter().map(|&i| configs()[i]).collect();
    scenario(&format!("payloads: {}", name), 0, &format!("{} payloads in {:?}, {} receiver configurations", list.len(), chans, cs.len()), move |cx| {
        let k = cx.choose((list.len() + 255) / 256) * 256;
        let (n, x, b) = &list[k + cx.choose((list.len() - k).min(256))];
        let c = *cx.pick_from(&cs);
        let ch = *cx.pick_from(&chans);
        let want = judge(x, b).map(Some);
        cx.count(if want.is_some() { "valid payloads" } else { "invalid payloads" });
        peer_sends(cx, &w, &c, ch, x, &|| n.clone(), &deflate(b), want)
    })
}
fn tags(all: bool) -> Vec<(String, V, Vec<u8>)> {
    let mut o = vec![];
    for (x, f, b) in encoded().into_iter().filter(|(x, _, _)| x.ty() == "u8" || x.ty() == "()" || x.ty() == "bool") {
        let u = x.ty() == "u8";
        if !u && !all {
            continue;
        }
        let mut set = |t: [u8; 4]| {
            let mut g = t.to_vec();
            g.extend_from_slice(&b[4..]);
            o.push((format!("{:?} data with tag {:?}", f, t), x.clone(), g));
        };
        let own = f.tag();
        for i in 0..4 {
            for y in 0..=255u8 {
                let mut t = own;
                t[i] = y;
                set(t);
            }
        }
        let step = if all && u { 1 } else { 257 };
        for y in (0..=0xffffu32).step_by(step) {
            let y = (y as u16).to_be_bytes();
            set([0, 0, y[0], y[1]]);
            set([y[0], y[1], 0, own[3]]);
        }
        for i in 0..32 {
            set((1u32 << i).to_be_bytes());
            set((u32::from_be_bytes(own) ^ (1 << i)).to_be_bytes());
            set((u32::from_be_bytes(own) | (1 << i) | 1 << 31).to_be_bytes());
            set(u32::from_be_bytes(own).rotate_left(i).to_be_bytes());
        }
        // the value's own text behind the raw and plain tags
        for &t in &[0u8, 1] {
            o.push((format!("the plain text with tag {}", t), x.clone(), [&[0, 0, 0, t][..], x.text().as_bytes()].concat()));
        }
    }
    o
}
fn shorts() -> Vec<(String, V, Vec<u8>)> {
    let mut o = vec![];
    for x in probes() {
        let mut add = |b: Vec<u8>| o.push((format!("the payload {:?}", b), x.clone(), b));
        add(vec![]);
        for a in 0..=255 {
            add(vec![a]);
        }
        for a in 0..5 {
            for b in 0..8 {
                add(vec![a, b]);
                for c in 0..8 {
                    add(vec![a, b, c]);
                    if a + b == 0 {
                        add(vec![0, 0, 0, c]);
                        add(vec![0, 0, 0, c, 0]);
                        add(vec![0, 0, 0, c, b'1']);
                        add(vec![0, 0, 0, c, 0xff]);
                    }
                }
            }
        }
    }
    o
}
fn cuts() -> Vec<(String, V, Vec<u8>)> {
    let mut o = vec![];
    for (x, f, b) in encoded() {
        for n in 0..b.len() {
            o.push((format!("{:?} {} cut to {} bytes", f, x.text(), n), x.clone(), b[..n].to_vec()));
            o.push((format!("{:?} {} without its first {} bytes", f, x.text(), n + 1), x.clone(), b[n + 1..].to_vec()));
        }
        // what follows a Bincode value is for the codec to accept or not
        if f != F::Bincode {
            for t in &[&b"x"[..], b"\0", b"1", b"}", b" 2", b"\xff", b"\"\""] {
                let g = [&b[..], t].concat();
                o.push((format!("{:?} {} followed by {:?}", f, x.text(), t), x.clone(), g));
            }
        }
    }
    o
}
fn mistyped() -> Vec<(String, V, Vec<u8>)> {
    let mut o = vec![];
    for (x, f, b) in encoded() {
        for y in probes() {
            // Bincode does not describe what it carries: it is judged only where the lengths tell
            o.push((format!("{:?} {} of type {}", f, x.text(), x.ty()), y.clone(), b.clone()));
        }
        for g in FORMATS.iter().filter(|g| **g != f) {
            let mut c = g.tag().to_vec();
            c.extend_from_slice(&b[4..]);
            o.push((format!("{:?} {} tagged {:?}", f, x.text(), g), x.clone(), c));
        }
    }
    o
}
fn flips() -> Vec<(String, V, Vec<u8>)> {
    let mut o = vec![];
    for (x, f, b) in encoded() {
        for i in 4..b.len() {
            for y in 0..8 {
                let mut g = b.clone();
                g[i] ^= 1 << y;
                o.push((format!("{:?} {} with bit {} of byte {} changed", f, x.text(), y, i), x.clone(), g));
            }
        }
    }
    // an enormous announced length is a Bincode matter: the codec would try to allocate it
    o.retain(|(_, _, b)| b[3] != 4 || b.len() < 12 || b[4..].chunks(8).all(|c| c.len() < 8 || c[2..].iter().all(|z| *z == 0)));
    o
}

/// Bodies that are not compressed data at all
fn undecodable() -> Scenario {
    let w = World::std(Mode::Cmp, false, true);
    let mut list: Vec<Vec<u8>> = vec![vec![0xff; 5], vec![0x07], vec![1, 0, 0, 0, 0], b"\0\0\0\x02\"text\"".to_vec(), vec![6, 0], vec![0x66; 100]];
    for a in 0..=255u8 {
        list.push(vec![a, 0xff, 0x13, 0x37, a, 0x55, 0xaa, 0xff, 0xff]);
    }
    list.retain(|b| inflate(b).is_none());
    let rs = configs();
    scenario("payloads: not decompressible", 0, &format!("{} bodies in every channel, {} receiver configurations", list.len(), rs.len()), move |cx| {
        let b = cx.pick_from(&list).clone();
        let c = *cx.pick_from(&rs);
        let ch = *cx.pick_from(&CHANNELS);
        let x = v("text".to_string());
        peer_sends(cx, &w, &c, ch, &x, &|| format!("the body {:?}", b), &b, None)
    })
}
fn empty() -> Scenario {
    let w = World::std(Mode::Cmp, false, true);
    let rs = configs();
    scenario("payloads: none at all", 0, "an empty body is delivered as a message without data in every channel", move |cx| {
        let c = *cx.pick_from(&rs);
        let ch = *cx.pick_from(&CHANNELS);
        let x = v("text".to_string());
        peer_sends(cx, &w, &c, ch, &x, &|| "an empty body".into(), &[], Some(None))
    })
}

/// Every sequence of good and bad messages, local writes and format changes.
fn histories(depth: usize) -> Scenario {
    let w = World::std(Mode::Cmp, true, false);
    const OPS: [&str; 10] = ["json", "cbor", "bincode", "bad tag", "raw tag", "wrong type", "short", "garbage body", "write", "next format"];
    scenario(
        &format!("histories of {} operations", depth),
        0,
        &format!("all sequences over {:?} after the negotiation, one message number each", OPS),
        move |cx| {
            let mut e = w.spec.build();
            must(cx, "CONNECT", e.connect(None))?;
            let r = typed_read::<u32>(sl(&mut e), &w.p.connect(&[]));
            events(cx, &|| "CONNECT".into(), r, &[(Ch::Connect, None)])?;
            must(cx, "ACK", e.ack(None))?;
            let r = typed_read::<u32>(sl(&mut e), &w.p.ack(&w.epk, &[]));
            events(cx, &|| "ACK".into(), r, &[(Ch::Ack, None)])?;
            let (mut n, mut sent, mut fmt) = (0u64, 0u64, 0usize);
            for i in 0..depth {
                let k = cx.choose(OPS.len());
                let val = 1000 + i as u32;
                let enc = |f: F| {
                    let mut b = f.tag().to_vec();
                    b.extend(f.encode(&val).unwrap());
                    b
                };
                let body = match k {
                    0 | 1 | 2 => enc(FORMATS[k]),
                    3 => {
                        let mut b = enc(F::Json);
                        b[3] = 9;
                        b
                    }
                    4 => {
                        let mut b = enc(F::Json);
                        b[3] = (i % 2) as u8;
                        b
                    }
                    5 => b"\0\0\0\x02\"text\"".to_vec(),
                    6 => vec![0; i % 4],
                    _ => vec![],
                };
                match k {
                    8 => {
                        let o = typed_write(sl(&mut e), Ch::User, &val);
                        cx.step();
                        // the first configuration is the default: raw
                        if fmt == 0 {
                            cx.check(o.res.is_err() && o.bytes.is_empty(), "emitted", || "a typed write with the raw format is not refused".into())?;
                        } else {
                            let b = must(cx, "typed write", o)?;
                            let f = FORMATS[fmt - 1];
                            let ok = match w.key.open(&b).as_ref().map(|c| parse(c)) {
                                Some(Ok(Parsed::User { nonce, body, hash_ok: true })) if nonce == sent => inflate(&body)
                                    .map_or(false, |p| p.len() > 4 && p[..4] == f.tag() && f.decode::<u32>(&p[4..]) == Some(val)),
                                _ => false,
                            };
                            cx.check(ok, "bad-emission", || format!("typed write {} in {:?} emits something else", sent, f))?;
                            sent += 1;
                        }
                        cx.log(|| format!("write {}", val));
                    }
                    9 => {
                        fmt = (fmt + 1) % 4;
                        let mut c = config((i % 3) as u8);
                        if fmt > 0 {
                            c.message_format = FORMATS[fmt - 1].api();
                        }
                        cx.step();
                        let r = e.set_config(c);
                        cx.log(|| format!("change to format {} -> {:?}", fmt, r));
                        cx.check(r.is_ok(), "config-refused", || format!("{:?}", r))?;
                    }
                    _ => {
                        let z = if k == 7 { vec![7, 1, 2] } else { deflate(&body) };
                        let r = typed_read::<u32>(sl(&mut e), &w.key.user(n, &z));
                        n += 1;
                        if k < 3 {
                            events(cx, &|| format!("message {} in {}", n - 1, OPS[k]), r, &[(Ch::User, Some(format!("{}", val)))])?;
                        } else {
                            cx.step();
                            cx.log(|| format!("message {} with {} -> {:?}", n - 1, OPS[k], r));
                            if let Err(Fault::Panic(p)) = &r {
                                return cx.report("panic", || format!("{} panics: {}", OPS[k], p));
                            }
                            cx.check(r.is_err(), "accepted", || format!("a message with {} is accepted: {:?}", OPS[k], r))?;
                        }
                    }
                }
                cx.state(&(n, sent, fmt, i));
            }
            Ok(())
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C17",
        level: "exploration",
        rule: "Round trips: every value of bounded domains of many types (integers, texts of all lengths around every buffer and compression limit, collections, options, structures, enumerations, all trees up to a depth) x every sender format x every receiver configuration x every channel (CONNECT, ACK, user message, user message held back), between two endpoints under test; the value delivered must be equal and what travels must be the tag and the codec's encoding. Bad payloads from an authenticated reference peer: all tags, all short bodies, all truncations, single bit changes, other types; the codec called directly is the oracle: a value exactly when it decodes, else an error; afterwards messages in all formats are delivered and can be written. All histories of good and bad messages, writes and format changes up to a depth.",
        assumptions: &[
            "Values a codec itself cannot represent are not sent",
            "The codecs (serde_json, serde_cbor, bincode) are correct; bytes after a complete Bincode value are the codec's affair",
        ],
        single_thread: false,
        scenarios: |thorough| {
            let l = leaves();
            let t1: Vec<Tree> = above(&l);
            let trees = |t: &[Tree]| t.iter().map(|x| v(x.clone())).collect::<Vec<_>>();
            let texts: Vec<V> = lengths().into_iter().map(|n| v("txtü".chars().cycle().take(n).collect::<String>())).collect();
            let all: Vec<usize> = (0..configs().len()).collect();
            let few = vec![0, 2, 5];
            let mut o = vec![
                roundtrip("scalars and collections", values(), vec![0], CHANNELS.to_vec(), if thorough { all.clone() } else { few.clone() }),
                roundtrip("one of each type", probes(), vec![0, 1, 2], CHANNELS.to_vec(), all.clone()),
                roundtrip("trees of depth 2", trees(&t1), vec![0], CHANNELS.to_vec(), if thorough { all.clone() } else { vec![0, 4] }),
                roundtrip("texts of all lengths", texts, vec![0, 1, 2], if thorough { CHANNELS.to_vec() } else { vec![Ch::User, Ch::Connect] }, if thorough { few.clone() } else { vec![0] }),
                bad("tags", vec![Ch::User], tags(thorough), vec![0]),
                bad("short", CHANNELS.to_vec(), shorts(), vec![0]),
                bad("truncated", CHANNELS.to_vec(), cuts(), if thorough { all.clone() } else { vec![2] }),
                bad("other types", CHANNELS.to_vec(), mistyped(), all.clone()),
                bad("changed bits", CHANNELS.to_vec(), flips(), if thorough { all } else { vec![0] }),
                bad("tags of one byte in every channel", CHANNELS.to_vec(), tags(false).into_iter().filter(|(_, _, b)| b[..3] == [0, 0, 0]).collect(), few),
                undecodable(),
                empty(),
                histories(if thorough { 6 } else { 5 }),
            ];
            if thorough {
                let l2: Vec<Tree> = t1.iter().cloned().step_by(5).collect();
                o.push(roundtrip("trees of depth 3", trees(&above(&l2)), vec![0], vec![Ch::User], vec![0]));
            }
            o
        },
    }
}
