//! Confidentiality of everything emitted, freshness of keys.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;
use crate::sut::{call, drawn};
use pkstl::{MinimalSecureLayer, SecureLayer, SecureLayerConfig, Seed32};
use std::collections::{HashMap, HashSet};
use std::io::{self, BufWriter, Write};

const WIN: usize = 8;
/// Bytes that must never be seen on the wire.
struct Guard {
    windows: HashMap<[u8; WIN], String>,
}
impl Guard {
    fn new() -> Guard {
        Guard { windows: HashMap::new() }
    }
    fn add(&mut self, name: &str, d: &[u8]) {
        for w in d.windows(WIN) {
            let mut k = [0; WIN];
            k.copy_from_slice(w);
            self.windows.insert(k, name.to_string());
        }
    }
    fn check(&self, cx: &mut Ctx, what: &str, out: &[u8]) -> R {
        cx.count("emissions scanned");
        cx.count_n("bytes scanned", out.len() as u64);
        for w in out.windows(WIN) {
            let mut k = [0; WIN];
            k.copy_from_slice(w);
            if let Some(n) = self.windows.get(&k) {
                return cx.report("leak", || format!("{} contains {}", what, n));
            }
        }
        Ok(())
    }
}
fn entropy(id: u64, n: usize) -> Vec<u8> {
    let mut x = id.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 56) as u8
        })
        .collect()
}
fn raw() -> SecureLayerConfig {
    config(2)
}
fn guard(w: &World) -> Guard {
    let mut g = Guard::new();
    g.add("the session key", &w.key.0);
    g.add("the private signature key", &w.spec.id.seed);
    g.add("the ephemeral private key", &w.spec.eph);
    if let Some(s) = dh_secret(w.spec.eph, &w.p.epk) {
        g.add("the shared secret", &s);
    }
    g
}

fn world(mode: Mode, known: bool) -> World {
    let mut w = World::std(mode, known, true);
    w.spec.config = raw();
    w
}

/// Every emission of every history.
fn histories(mode: Mode, known: bool, dev: u32, size: usize) -> Scenario {
    let w = world(mode, known);
    let mut honest = Honest::new(&w, 2, 2, true);
    let mut g = guard(&w);
    for i in 0..2 {
        let d = entropy(10 + i as u64, size);
        g.add("the content of a received user message", &d);
        honest.users[i] = msg(["USER 0", "USER 1"][i], w.user(i as u64, &d));
        let d = entropy(20 + i as u64, size);
        g.add("the content of a written user message", &d);
        honest.outs[i] = Op::User(d);
    }
    let early = entropy(30, size);
    g.add("the content of a user message written too early", &early);
    let stranger = Peer::new(&Id::new(seed(91)), seed(92));
    let odd: Vec<Op> = vec![
        Op::User(early),
        Op::Connect(Some(b"again".to_vec())),
        Op::Ack(Some(b"again".to_vec())),
        msg("garbage", vec![3; 90]),
        msg("CONNECT of a stranger", stranger.connect(&[])),
        msg("ACK of a stranger", stranger.ack(&w.epk, &[])),
        msg("CONNECT", w.connect(None)),
        msg("ACK", w.ack(None)),
        msg("USER 0", w.user(0, b"other")),
        Op::CloneSwap,
        Op::CloneDrop,
    ];
    scenario(
        &format!("all emissions, messages of {} bytes, {}", size, w.name),
        dev,
        &format!("every honest order with up to {} insertions out of {} local misuses and foreign messages; every byte emitted is scanned for user data and keys", dev, odd.len()),
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            let mut seen = 0;
            loop {
                loop {
                    let k = cx.deviate(odd.len() + 1);
                    if k == 0 {
                        break;
                    }
                    emit(cx, &mut d, &odd[k - 1], &g)?;
                }
                let m = honest.menu(&d.m, &p);
                if m.is_empty() {
                    break;
                }
                let h = m[cx.choose(m.len())];
                if d.m.failed {
                    // everything left is tried once
                    for h in m {
                        honest.apply(cx, &mut d, &mut p, h)?;
                    }
                    emit(cx, &mut d, &odd[0], &g)?;
                    break;
                }
                honest.apply(cx, &mut d, &mut p, h)?;
                while seen < d.emitted.len() {
                    g.check(cx, "a message", &d.emitted[seen])?;
                    seen += 1;
                }
            }
            Ok(())
        },
    )
}
/// A call that may be refused: whatever it emits is scanned.
fn emit(cx: &mut Ctx, d: &mut Drv, op: &Op, g: &Guard) -> R {
    match op {
        Op::Connect(x) => {
            cx.step();
            let ok = d.m.connect();
            let o = d.ep.connect(x.as_ref().map(|x| &x[..]));
            let _ = ok;
            g.check(cx, "a refused CONNECT", &o.bytes)
        }
        Op::Ack(x) => {
            cx.step();
            d.m.ack();
            let o = d.ep.ack(x.as_ref().map(|x| &x[..]));
            g.check(cx, "a refused ACK", &o.bytes)
        }
        Op::User(x) => {
            cx.step();
            let k = d.m.key.clone();
            let ok = d.m.user();
            let o = d.ep.user(x);
            cx.log(|| format!("write USER -> {:?}, {} bytes", o.res, o.bytes.len()));
            g.check(cx, "a user message", &o.bytes)?;
            if let (true, Some(k)) = (ok, k) {
                cx.check(k.open(&o.bytes).is_some(), "not-encrypted", || "a user message is not encrypted".into())?;
            }
            Ok(())
        }
        _ => d.op(cx, op),
    }
}

/// Outputs that fail or take only a part, every message size.
struct Limited {
    out: Vec<u8>,
    limit: usize,
}
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.limit - self.out.len()).min(50);
        if n == 0 && !b.is_empty() {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn partial(mode: Mode, sizes: Vec<usize>) -> Scenario {
    let w = world(mode, true);
    let honest = Honest::new(&w, 0, 0, false);
    scenario(
        &format!("sizes and failing outputs, {:?}", mode),
        0,
        &format!("{} sizes, buffers of 0, 16, 8192 bytes, outputs that fail after none, some or all bytes; output and buffer scanned", sizes.len()),
        move |cx| {
            let n = *cx.pick_from(&sizes);
            let cap = *cx.pick_from(&[0, 16, 8192]);
            let limit = [usize::max_value(), 0, 1, n / 3, n / 2 + 20, n + 40][cx.choose(6)];
            let mut g = guard(&w);
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
            let mut wr = BufWriter::with_capacity(cap, Limited { out: vec![], limit });
            for i in 0..3 {
                let data = entropy(50 + i, n);
                g.add("the content of a user message", &data);
                cx.step();
                let ok = match &mut d.ep.inner {
                    Inner::Min(m) => call(|| m.write_message(&data, &mut wr).is_ok()),
                    Inner::Cmp(m) => call(|| m.write_bin(&data, &mut wr).is_ok()),
                };
                let b = wr.buffer().to_vec();
                g.check(cx, "the output buffer", &b)?;
                let o = wr.get_ref().out.clone();
                g.check(cx, "the output", &o)?;
                cx.observe(&ok.unwrap_or(false));
            }
            wr.get_mut().limit = usize::max_value();
            let _ = wr.flush();
            let o = wr.get_ref().out.clone();
            g.check(cx, "the output", &o)
        },
    )
}

/// Which bits of the randomness decide the keys.
fn bits(mode: Mode) -> Scenario {
    let id = Id::new(seed(201));
    scenario(
        &format!("every random bit counts, {:?}", mode),
        0,
        "each of the 251 bits of the randomness an X25519 key depends on is flipped alone: the ephemeral key must change, and with it the session key",
        move |cx| {
            let base = seed(60);
            let mut keys: HashSet<Vec<u8>> = HashSet::new();
            let mut get = |cx: &mut Ctx, s: [u8; 32]| -> R<Vec<u8>> {
                cx.step();
                let spec = EpSpec::new(mode, &id, s, None);
                let mut e = spec.build();
                let o = e.connect(None);
                match parse(&o.bytes) {
                    Ok(Parsed::Connect { epk, .. }) => Ok(epk.to_vec()),
                    _ => {
                        cx.report("bad-emission", || "not a CONNECT message".into())?;
                        Ok(vec![])
                    }
                }
            };
            let b = get(cx, base)?;
            keys.insert(b);
            for i in 0..256 {
                // clamped by X25519
                if i < 3 || i >= 254 {
                    continue;
                }
                let mut s = base;
                s[i / 8] ^= 1 << (i % 8);
                let k = get(cx, s)?;
                cx.check(keys.insert(k), "keys-repeat", || format!("bit {} of the randomness has no influence on the ephemeral key", i))?;
            }
            Ok(())
        },
    )
}

fn sig_pk(c: &mut SecureLayer) -> Option<Vec<u8>> {
    match parse(&wout(|w| c.write_connect_msg_bin(None, w)).bytes) {
        Ok(Parsed::Connect { pk, epk, .. }) => Some([pk, epk.to_vec()].concat()),
        _ => None,
    }
}

/// Real randomness: amount and distinctness.
fn fresh(n: usize) -> Scenario {
    scenario("fresh keys", 0, &format!("{} endpoints of each mode and {} seeds with the real random number generator: at least 32 bytes drawn for each key, all keys distinct, also when everything else is equal; repeated calls draw again", n, n), move |cx| {
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let kind = cx.choose(5);
        let id = Id::new(seed(3));
        for i in 0..n {
            cx.step();
            let before = drawn();
            let (k, need) = match kind {
                0 => {
                    let mut m = match call(|| MinimalSecureLayer::create(SecureLayerConfig::default(), None)) {
                        Ok(Ok(m)) => m,
                        _ => return cx.report("create-fails", || "create fails".into()),
                    };
                    let b = id.signed(call(|| m.create_connect_message(&id.pk, None)).ok().and_then(|r| r.ok()).unwrap_or_default());
                    (match parse(&b) { Ok(Parsed::Connect { epk, .. }) => Some(epk.to_vec()), _ => None }, 32)
                }
                1 | 2 | 3 => {
                    let given = kind != 2;
                    let exp = if kind == 3 { Some(id.pk.clone()) } else { None };
                    let mut c = match call(|| SecureLayer::create(SecureLayerConfig::default(), if given { Some(Seed32::new(id.seed)) } else { None }, exp)) {
                        Ok(Ok(c)) => c,
                        _ => return cx.report("create-fails", || "create fails".into()),
                    };
                    (sig_pk(&mut c), if given { 32 } else { 64 })
                }
                _ => (call(Seed32::random).ok().map(|s| s.as_ref().to_vec()), 32),
            };
            let used = drawn() - before;
            cx.check(used >= need, "not-random", || format!("only {} random bytes drawn for kind {}", used, kind))?;
            let k = match k {
                Some(k) => k,
                None => return cx.report("bad-emission", || "not a CONNECT message".into()),
            };
            // both keys of an endpoint must be new
            if kind == 2 {
                cx.check(seen.insert(k[..32].to_vec()), "keys-repeat", || format!("the signature key of endpoint {} repeats", i))?;
                cx.check(seen.insert(k[32..].to_vec()), "keys-repeat", || format!("the ephemeral key of endpoint {} repeats", i))?;
            } else {
                cx.check(seen.insert(k), "keys-repeat", || format!("the key of endpoint {} repeats", i))?;
            }
        }
        Ok(())
    })
}

/// Sessions with any other ephemeral key at either end use another key; within one, keystreams are compared.
fn sessions(mode: Mode) -> Scenario {
    let id = Id::new(seed(201));
    let pid = Id::new(seed(202));
    scenario(
        &format!("session keys, {:?}", mode),
        0,
        "all sessions among 4 x 4 ephemeral keys of the same two identities: what is written in one can be opened with the key of no other",
        move |cx| {
            let mut all: Vec<(usize, usize, Vec<u8>, SessionKey)> = vec![];
            for a in 0..4 {
                for b in 0..4 {
                    let spec = EpSpec { mode, id: id.clone(), eph: seed(100 + a as u8), expected: None, config: raw() };
                    let p = Peer::new(&pid, seed(110 + b as u8));
                    let mut d = Drv::new(&spec, &Default::default());
                    let own = d.m.own_epk;
                    d.op(cx, &Op::Connect(None))?;
                    d.op(cx, &msg("CONNECT", p.connect(&[])))?;
                    d.op(cx, &Op::Ack(None))?;
                    d.op(cx, &msg("ACK", p.ack(&own, &[])))?;
                    d.op(cx, &Op::User(entropy(1, 60)))?;
                    let m = d.emitted.last().unwrap().clone();
                    all.push((a, b, m, p.key(&own)));
                }
            }
            for x in &all {
                for y in &all {
                    if (x.0, x.1) != (y.0, y.1) {
                        cx.check(x.2 != y.2, "session-key-reuse", || format!("sessions {}/{} and {}/{} emit the same ciphertext", x.0, x.1, y.0, y.1))?;
                        cx.check(y.3.open(&x.2).is_none(), "session-key-reuse", || {
                            format!("a message of session {}/{} opens with the key of session {}/{}", x.0, x.1, y.0, y.1)
                        })?;
                    }
                }
            }
            Ok(())
        },
    )
}

fn keystreams(mode: Mode) -> Scenario {
    let w = world(mode, true);
    let honest = Honest::new(&w, 0, 0, false);
    scenario(&format!("keystreams, {:?}", mode), 0, "8 different messages written in one session, in every position: ciphertext XOR clear text of every pair is compared", move |cx| {
        let mut d = w.drv();
        let mut p = honest.prog();
        honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
        let n = 40 + cx.choose(3) * 100;
        let mut streams: Vec<Vec<u8>> = vec![];
        for i in 0..8 {
            d.op(cx, &Op::User(entropy(70 + i, n)))?;
            let c = d.emitted.last().unwrap().clone();
            if let Some(clear) = w.key.open(&c) {
                // the 16 bytes the ciphertext is longer are the tag, at either end
                for off in [0usize, c.len() - clear.len()] {
                    let s: Vec<u8> = clear.iter().zip(&c[off..]).map(|(a, b)| a ^ b).take(32).collect();
                    let dup = streams.contains(&s);
                    streams.push(s);
                    if dup {
                        return cx.report("keystream-reuse", || format!("message {} is encrypted with the keystream of an earlier message", i));
                    }
                }
            }
        }
        Ok(())
    })
}

pub fn check() -> Check {
    Check {
        id: "C14",
        level: "model_checking",
        rule: "Every byte emitted in every history (honest orders with local misuse, foreign messages, cloning and failures inserted; failing outputs; many sizes) is scanned for any 8 consecutive bytes of user data, session key, shared secret or private keys, with compression off and high-entropy data so that nothing can hide. Every bit of the randomness is shown to influence the ephemeral key, keys made with the real generator are distinct, and messages of one session open with the key of no other.",
        assumptions: &["Randomness of the operating system", "CONNECT and ACK custom data is documented to travel in clear", "with_seed fixes the randomness ring draws from the kernel"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                for &k in &[false, true] {
                    v.push(histories(m, k, if k { 1 } else { 2 }, 40));
                    if thorough {
                        v.push(histories(m, k, if k { 2 } else { 3 }, 40));
                    }
                }
                v.push(histories(m, false, 1, 9000));
                let mut s: Vec<usize> = (8..70).collect();
                s.extend(&[100, 255, 256, 1000, 4096, 8191, 8192, 8193, 20_000, 65_535, 65_536, 70_000]);
                v.push(partial(m, s));
                v.push(bits(m));
                v.push(sessions(m));
                v.push(keystreams(m));
            }
            v.push(fresh(if thorough { 20_000 } else { 1500 }));
            v
        },
    }
}
