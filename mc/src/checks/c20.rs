//! The configuration in force decides how messages are written.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::{inflate, parse, Parsed};
use flate2::write::DeflateEncoder;
use pkstl::{MessageFormat, SecureLayer, SecureLayerConfig};
use crate::sut::call;
use std::io::{BufWriter, Write};

/// Text of which every level makes something of another length.
fn text(n: usize) -> Vec<u8> {
    let words: Vec<Vec<u8>> = (0..400u64)
        .map(|i| {
            let h = (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            (0..3 + h % 7).map(|k| b'a' + (h >> (5 * k + 3)) as u8 % 26).collect()
        })
        .collect();
    let mut v = vec![];
    let mut x = 12_345u64;
    while v.len() < n {
        x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        v.extend_from_slice(&words[((x >> 40) * (x >> 40) % 160_000 / 400) as usize]);
        v.push(b' ');
    }
    v.truncate(n);
    v
}

/// The deflate stream consists of stored blocks only.
fn stored(z: &[u8]) -> Option<bool> {
    let mut i = 0;
    loop {
        let h = *z.get(i)?;
        if h >> 1 & 3 != 0 {
            return Some(false);
        }
        let l = u16::from_le_bytes([*z.get(i + 1)?, *z.get(i + 2)?]) as usize;
        i += 5 + l;
        if h & 1 == 1 {
            return Some(true);
        }
    }
}
fn reference(level: u32, d: &[u8]) -> usize {
    let mut e = DeflateEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(d).unwrap();
    e.finish().unwrap().len()
}
const LEVELS: [u32; 4] = [0, 1, 6, 9];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Conf {
    level: u32,
    min: usize,
    format: MessageFormat2,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum MessageFormat2 {
    Raw,
    Json,
    Cbor,
    Bincode,
}
impl Conf {
    fn config(&self) -> SecureLayerConfig {
        let mut c = SecureLayerConfig::default();
        c.compression = flate2::Compression::new(self.level);
        c.compression_min_size = self.min;
        c.message_format = match self.format {
            MessageFormat2::Raw => MessageFormat::RawBinary,
            MessageFormat2::Json => MessageFormat::Utf8Json,
            MessageFormat2::Cbor => MessageFormat::Cbor,
            MessageFormat2::Bincode => MessageFormat::Bincode,
        };
        c
    }
    /// What a typed message carries
    fn encode(&self, t: &str) -> Option<Vec<u8>> {
        let (tag, b) = match self.format {
            MessageFormat2::Raw => return None,
            MessageFormat2::Json => (2, serde_json::to_vec(t).unwrap()),
            MessageFormat2::Cbor => (3, serde_cbor::to_vec(&t).unwrap()),
            MessageFormat2::Bincode => (4, bincode::serialize(t).unwrap()),
        };
        let mut v = vec![0, 0, 0, tag];
        v.extend(b);
        Some(v)
    }
}

/// How the payload `d` must travel under configuration `c`.
fn judge(c: &Conf, d: &[u8], z: &[u8], lens: &[usize]) -> Result<(), String> {
    match inflate(z) {
        Some(ref x) if x == d => (),
        _ => return Err("does not carry the payload".into()),
    }
    let s = stored(z).ok_or("is not a complete deflate stream")?;
    if d.len() < c.min || c.level == 0 {
        return if s { Ok(()) } else { Err(format!("{} bytes are compressed", d.len())) };
    }
    // what is worth compressing must be compressed, with the level asked for
    if d.len() < 200 {
        return Ok(());
    }
    if s {
        return Err(format!("{} bytes are not compressed", d.len()));
    }
    // nearest of the lengths which the levels produce
    let near = (0..lens.len()).min_by_key(|&i| (lens[i] as i64 - z.len() as i64).abs()).unwrap();
    let own = LEVELS.iter().position(|&l| l == c.level).unwrap();
    if lens[near] != lens[own] {
        return Err(format!("compressed to {} bytes; the levels {:?} give {:?}", z.len(), LEVELS, lens));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Step {
    Connect,
    Ack,
    User,
}
fn body(w: &World, b: &[u8], step: Step) -> Result<Vec<u8>, String> {
    let clear = match step {
        Step::User => w.key.open(b).ok_or("the emission cannot be decrypted")?,
        _ => b.to_vec(),
    };
    match (parse(&clear), step) {
        (Ok(Parsed::Connect { body, .. }), Step::Connect) => Ok(body),
        (Ok(Parsed::Ack { body, .. }), Step::Ack) => Ok(body),
        (Ok(Parsed::User { body, .. }), Step::User) => Ok(body),
        (x, _) => Err(format!("the emission is {:?}", x)),
    }
}
fn sl(e: &mut Ep) -> &mut SecureLayer {
    match &mut e.inner {
        Inner::Cmp(s) => s,
        _ => unreachable!(),
    }
}

struct Run {
    w: World,
    /// the peer has another configuration, which must not matter
    n: usize,
    text: String,
    lens: Vec<(Vec<u8>, Vec<usize>)>,
}
impl Run {
    fn new(n: usize) -> Run {
        let d = text(n);
        let t = String::from_utf8(d.clone()).unwrap();
        let mut payloads = vec![d];
        for &f in &[MessageFormat2::Json, MessageFormat2::Cbor, MessageFormat2::Bincode] {
            payloads.push(Conf { level: 0, min: 0, format: f }.encode(&t).unwrap());
        }
        let lens = payloads
            .into_iter()
            .map(|p| {
                let l = LEVELS.iter().map(|&l| reference(l, &p)).collect();
                (p, l)
            })
            .collect();
        Run { w: World::std(Mode::Cmp, false, false), n, text: t, lens }
    }
    fn write(&self, cx: &mut Ctx, e: &mut Ep, c: &Conf, step: Step, typed: bool, who: &str) -> R {
        cx.step();
        let want = if typed { c.encode(&self.text) } else { Some(self.text.as_bytes().to_vec()) };
        let o = if typed {
            let s = sl(e);
            wout(|w: &mut BufWriter<Vec<u8>>| match step {
                Step::Connect => s.write_connect_msg(Some(&self.text), w),
                Step::Ack => s.write_ack_msg(Some(&self.text), w),
                Step::User => s.write(&self.text, w),
            })
        } else {
            let d = self.text.as_bytes();
            match step {
                Step::Connect => e.connect(Some(d)),
                Step::Ack => e.ack(Some(d)),
                Step::User => e.user(d),
            }
        };
        cx.log(|| format!("{} writes {:?}, typed {}, under {:?} -> {:?}, {} bytes", who, step, typed, c, o.res, o.bytes.len()));
        let want = match want {
            None => {
                return cx.check(o.res.is_err() && o.bytes.is_empty(), "format-ignored", || {
                    "a typed write in a configuration without a format is not refused".into()
                })
            }
            Some(w) => w,
        };
        cx.check(o.res.is_ok(), "refused", || format!("{:?} is refused: {:?}", step, o.res))?;
        let lens = &self.lens.iter().find(|x| x.0 == want).expect("payload").1;
        let r = body(&self.w, &o.bytes, step).and_then(|z| {
            cx.observe(&(step, z.len()).1);
            judge(c, &want, &z, lens)
        });
        cx.check(r.is_ok(), "configuration-ignored", || format!("{:?} of {} bytes written under {:?}: {}", step, self.n, c, r.unwrap_err()))
    }
}

fn confs(n: usize, formats: &[MessageFormat2]) -> Vec<Conf> {
    let mut v = vec![];
    for &format in formats {
        for &level in &LEVELS {
            for &min in &[0, n, n + 1, usize::max_value()] {
                v.push(Conf { level, min, format });
            }
        }
    }
    v
}

/// The configuration changed before any of the writes of a session. The messages of the peer are binary
/// or, with `answers`, typed ones in each of the formats, read with the typed function.
fn changes(n: usize, typed: bool, answers: bool, dev: u32) -> Scenario {
    let run = Run::new(n);
    let formats: &[MessageFormat2] = if typed {
        &[MessageFormat2::Json, MessageFormat2::Cbor, MessageFormat2::Bincode, MessageFormat2::Raw]
    } else {
        &[MessageFormat2::Raw]
    };
    // the payloads of the three formats have other lengths than the text
    let mut all = confs(n, formats);
    if typed {
        all.retain(|c| (c.level == 0 || c.level == 9) && (c.min == 0 || c.min == usize::max_value()));
    }
    scenario(
        &format!("configuration changed, {} bytes, {}{}", n, if typed { "typed" } else { "binary" }, if answers { ", the peer writes typed messages" } else { "" }),
        dev,
        &format!("{} configurations (levels 0, 1, 6, 9; thresholds 0, n, n+1, max; formats), changed to any other before each write and after each read of a session, and by a clone; each emission decrypted and its compression and format compared with the configuration in force", all.len()),
        move |cx| {
            let w = &run.w;
            let mut conf = *cx.pick_from(&all);
            let mut spec = w.spec.clone();
            spec.config = conf.config();
            let mut e = spec.build();
            let change = |cx: &mut Ctx, e: &mut Ep, conf: &mut Conf| -> R {
                let k = cx.deviate(all.len() + 1);
                if k > 0 {
                    cx.step();
                    let r = e.set_config(all[k - 1].config());
                    cx.log(|| format!("configuration {:?} -> {:?}", all[k - 1], r));
                    cx.check(r.is_ok(), "refused", || format!("a configuration change is refused: {:?}", r))?;
                    *conf = all[k - 1];
                }
                Ok(())
            };
            let peer = if answers {
                let format = *cx.pick_from(&[MessageFormat2::Json, MessageFormat2::Cbor, MessageFormat2::Bincode]);
                let long = cx.flag();
                let t = if long { run.text.as_str() } else { "x" };
                Conf { level: 0, min: 0, format }.encode(t)
            } else {
                None
            };
            let recv = |cx: &mut Ctx, e: &mut Ep, b: &[u8]| -> R {
                cx.step();
                if answers {
                    let s = sl(e);
                    let g = call(|| s.read::<String>(b));
                    let ok = match g { Ok(Ok(ref m)) => m.len() == 1, _ => false };
                    return cx.check(ok, "refused", || format!("a genuine message is refused: {:?}", g));
                }
                let g = e.recv(b);
                cx.check(g.is_ok(), "refused", || format!("a genuine message is refused: {:?}", g))
            };
            let data = peer.as_ref().map(|p| &p[..]);
            change(cx, &mut e, &mut conf)?;
            let raw = |c: &Conf| typed && c.format == MessageFormat2::Raw;
            run.write(cx, &mut e, &conf, Step::Connect, typed, "endpoint")?;
            if raw(&conf) {
                let _ = e.connect(None);
            }
            recv(cx, &mut e, &w.connect(data))?;
            change(cx, &mut e, &mut conf)?;
            run.write(cx, &mut e, &conf, Step::Ack, typed, "endpoint")?;
            if raw(&conf) {
                let _ = e.ack(None);
            }
            recv(cx, &mut e, &w.ack(data))?;
            for i in 0..2 {
                change(cx, &mut e, &mut conf)?;
                run.write(cx, &mut e, &conf, Step::User, typed, "endpoint")?;
                recv(cx, &mut e, &w.user(i, data.unwrap_or(b"x")))?;
            }
            change(cx, &mut e, &mut conf)?;
            let mut k = match e.try_clone() {
                Ok(k) => k,
                Err(f) => return cx.report("refused", || format!("the clone is refused: {:?}", f)),
            };
            // from now on nothing can be changed, in either handle
            for h in vec![&mut e, &mut k] {
                let other = all[(all.iter().position(|c| *c == conf).unwrap_or(0) + 1) % all.len()];
                let r = h.set_config(other.config());
                cx.check(r.is_err(), "changed-after-clone", || "the configuration is changed after cloning".into())?;
                run.write(cx, h, &conf, Step::User, typed, "handle")?;
            }
            Ok(())
        },
    )
}

/// Thresholds around the size, all levels, all messages.
fn thresholds(sizes: Vec<usize>) -> Scenario {
    let runs: Vec<Run> = sizes.iter().map(|&n| Run::new(n)).collect();
    scenario(
        "thresholds around the size",
        0,
        &format!("{} sizes x levels 0, 1, 6, 9 x thresholds from 0 to beyond the size, n-2..n+2 included, x CONNECT, ACK, first and later user messages", sizes.len()),
        move |cx| {
            let run = cx.pick_from(&runs);
            let n = run.n;
            let level = *cx.pick_from(&LEVELS);
            let mut mins = vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 2, 2 * n, 8_192, usize::max_value()];
            mins.sort_unstable();
            mins.dedup();
            let conf = Conf { level, min: *cx.pick_from(&mins), format: MessageFormat2::Raw };
            let w = &run.w;
            let mut spec = w.spec.clone();
            spec.config = conf.config();
            let mut e = spec.build();
            run.write(cx, &mut e, &conf, Step::Connect, false, "endpoint")?;
            let _ = e.recv(&w.connect(None));
            run.write(cx, &mut e, &conf, Step::Ack, false, "endpoint")?;
            let _ = e.recv(&w.ack(None));
            for _ in 0..3 {
                run.write(cx, &mut e, &conf, Step::User, false, "endpoint")?;
            }
            Ok(())
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C20",
        level: "exploration",
        rule: "Every combination of level, threshold, size and kind of message, and every session in which the configuration is changed (up to the bound) before any of its writes, by the endpoint and after cloning; each emission is decrypted with the reference implementation and its deflate blocks and format tag are compared with what the configuration in force asks for.",
        assumptions: &["Which level was used is concluded from the length of the compressed text: the level of the reference compressor with the nearest length"],
        single_thread: false,
        scenarios: |thorough| {
            let sizes = if thorough {
                vec![0, 1, 2, 100, 199, 200, 600, 1_000, 4_096, 8_191, 8_192, 8_193, 20_000, 65_535, 65_536, 200_000, 1_100_000]
            } else {
                vec![0, 1, 100, 600, 8_191, 8_192, 8_193, 40_000, 65_535, 65_536, 150_000]
            };
            vec![
                thresholds(sizes),
                changes(900, false, false, if thorough { 3 } else { 2 }),
                changes(900, true, false, if thorough { 3 } else { 2 }),
                changes(900, true, true, if thorough { 2 } else { 1 }),
                changes(9_000, true, true, if thorough { 2 } else { 1 }),
            ]
        },
    }
}
