//! Binary payloads through two real endpoints of the complete mode.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::{deflate, frame, Id, T_USER};
use pkstl::SecureLayerConfig;

const KINDS: usize = 8;
fn content(kind: usize, n: usize) -> Vec<u8> {
    let rnd = |i: usize| (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left((i % 61) as u32) as u8;
    match kind {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(rnd).collect(),
        3 => b"All work and no play makes Jack a dull boy. ".iter().cycle().take(n).cloned().collect(),
        // already compressed data
        4 => {
            let mut d = deflate(&(0..n).map(|i| (i / 3) as u8).collect::<Vec<_>>());
            d.resize(n, 0x5a);
            d
        }
        // looks like a message of the protocol
        5 => {
            let mut d = frame(T_USER, &[0; 8], &[7; 40]);
            d.resize(n, 1);
            d
        }
        // long distances
        6 => (0..n).map(|i| rnd(i % 32_769)).collect(),
        _ => (0..n).map(|i| i as u8).collect(),
    }
}
fn cfg(level: u32, min: usize) -> SecureLayerConfig {
    let mut c = SecureLayerConfig::default();
    c.compression = flate2::Compression::new(level);
    c.compression_min_size = min;
    c
}

/// Two endpoints and what was sent.
struct Pair {
    e: [Ep; 2],
}
impl Pair {
    fn new(a: SecureLayerConfig, b: SecureLayerConfig, eph: usize) -> Pair {
        let ids = [Id::new(seed(31)), Id::new(seed(32))];
        let mk = |i: usize, c: SecureLayerConfig| {
            let mut s = EpSpec::new(Mode::Cmp, &ids[i], seed(if i == eph { 1 } else { 2 }), None);
            s.config = c;
            s.build()
        };
        Pair { e: [mk(0, a), mk(1, b)] }
    }
    fn recv(&mut self, cx: &mut Ctx, to: usize, bytes: &[u8], want: &[Ev]) -> R {
        cx.step();
        let g = self.e[to].recv(bytes);
        cx.log(|| format!("endpoint {} receives {} bytes -> {:?}", to, bytes.len(), g.as_ref().map(|v| show(v))));
        match g {
            Ok(v) => {
                cx.observe(&v);
                cx.check(v == want, "changed", || format!("sent {}, delivered {}", show(want), show(&v)))
            }
            Err(Fault::Panic(p)) => cx.report("panic", || format!("receiving panics: {}", p)),
            Err(Fault::Err(e)) => cx.report("refused", || format!("{} is refused by the peer: {}", show(want), e)),
        }
    }
    fn out(&mut self, cx: &mut Ctx, what: &str, o: WOut) -> R<Vec<u8>> {
        cx.step();
        cx.log(|| format!("{} -> {:?}, {} bytes", what, o.res, o.bytes.len()));
        match o.res {
            Ok(()) => Ok(o.bytes),
            Err(e) => {
                cx.report("write-refused", || format!("{} is refused: {:?}", what, e))?;
                Err(crate::engine::Stop::Prune)
            }
        }
    }
    fn connect(&mut self, cx: &mut Ctx, from: usize, d: Option<&[u8]>) -> R<(Vec<u8>, Ev)> {
        let o = self.e[from].connect(d);
        let b = self.out(cx, "CONNECT", o)?;
        let key = self.e[from].id.pk.clone();
        Ok((b, Ev::Connect { key, data: d.map(|d| d.to_vec()) }))
    }
    fn ack(&mut self, cx: &mut Ctx, from: usize, d: Option<&[u8]>) -> R<(Vec<u8>, Ev)> {
        let o = self.e[from].ack(d);
        let b = self.out(cx, "ACK", o)?;
        Ok((b, Ev::Ack { data: d.map(|d| d.to_vec()) }))
    }
    fn user(&mut self, cx: &mut Ctx, from: usize, d: &[u8]) -> R<(Vec<u8>, Ev)> {
        let o = self.e[from].user(d);
        let b = self.out(cx, "USER", o)?;
        Ok((b, Ev::User { data: d.to_vec() }))
    }
    /// Negotiation in the plain order.
    fn negotiate(&mut self, cx: &mut Ctx, d: [Option<&[u8]>; 4]) -> R {
        let (c0, e0) = self.connect(cx, 0, d[0])?;
        let (c1, e1) = self.connect(cx, 1, d[1])?;
        self.recv(cx, 1, &c0, &[e0])?;
        self.recv(cx, 0, &c1, &[e1])?;
        let (a0, e0) = self.ack(cx, 0, d[2])?;
        let (a1, e1) = self.ack(cx, 1, d[3])?;
        self.recv(cx, 1, &a0, &[e0])?;
        self.recv(cx, 0, &a1, &[e1])
    }
    fn send(&mut self, cx: &mut Ctx, from: usize, d: &[u8]) -> R {
        let (b, e) = self.user(cx, from, d)?;
        self.recv(cx, 1 - from, &b, &[e])
    }
}

fn mins(n: usize) -> [usize; 6] {
    [0, 1, n.saturating_sub(1), n, n + 1, usize::max_value()]
}

fn product(sizes: Vec<usize>, what: &str) -> Scenario {
    scenario(
        &format!("every level, threshold, content, {}", what),
        0,
        &format!("levels 0-9 x thresholds 0, 1, n-1, n, n+1, max x {} contents x {} sizes, as CONNECT, ACK and user data, in both directions", KINDS, sizes.len()),
        move |cx| {
            let n = *cx.pick_from(&sizes);
            let level = cx.choose(10) as u32;
            let min = *cx.pick_from(&mins(n));
            let kind = cx.choose(KINDS);
            let d = content(kind, n);
            cx.log(|| format!("{} bytes of kind {}, level {}, threshold {}", n, kind, level, min));
            let mut p = Pair::new(cfg(level, min), SecureLayerConfig::default(), 0);
            p.negotiate(cx, [Some(&d), None, Some(&d), None])?;
            p.send(cx, 0, &d)?;
            p.send(cx, 1, &d)?;
            p.send(cx, 0, b"")?;
            p.send(cx, 0, &d)
        },
    )
}

/// Sizes far beyond any buffer, contents that compress extremely well or not at all.
fn huge(sizes: Vec<usize>) -> Scenario {
    scenario(
        "huge payloads",
        0,
        &format!("sizes {:?}, levels 0, 1, 6, 9, compressed or not, {} contents, as CONNECT, ACK, held back and later user data", sizes, KINDS),
        move |cx| {
            let n = *cx.pick_from(&sizes);
            let kind = cx.choose(KINDS);
            let (level, min) = *cx.pick_from(&[(0, 0), (1, 0), (6, 0), (9, 0), (6, usize::max_value())]);
            let what = cx.choose(4);
            let d = content(kind, n);
            cx.log(|| format!("{} bytes of kind {}, level {}, threshold {}", n, kind, level, min));
            let mut p = Pair::new(cfg(level, min), SecureLayerConfig::default(), 0);
            match what {
                0 => p.negotiate(cx, [Some(&d), None, None, None])?,
                1 => p.negotiate(cx, [None, None, Some(&d), None])?,
                2 => {
                    p.negotiate(cx, [None; 4])?;
                    p.send(cx, 0, &d)?;
                }
                _ => {
                    let (c0, e0) = p.connect(cx, 0, None)?;
                    let (c1, e1) = p.connect(cx, 1, None)?;
                    p.recv(cx, 1, &c0, &[e0])?;
                    p.recv(cx, 0, &c1, &[e1])?;
                    let (a0, e0) = p.ack(cx, 0, None)?;
                    let (a1, e1) = p.ack(cx, 1, None)?;
                    p.recv(cx, 0, &a1, &[e1])?;
                    let (u, eu) = p.user(cx, 0, &d)?;
                    p.recv(cx, 1, &u, &[])?;
                    p.recv(cx, 1, &a0, &[e0, eu])?;
                }
            }
            p.send(cx, 0, b"after")?;
            p.send(cx, 1, b"after")
        },
    )
}

fn config_list() -> Vec<SecureLayerConfig> {
    let mut v = vec![];
    for &l in &[0, 1, 6, 9] {
        for &m in &[0, 100, 8192, usize::max_value()] {
            v.push(cfg(l, m));
        }
    }
    v
}
fn pairs() -> Scenario {
    let cs = config_list();
    scenario("every pair of configurations", 0, "levels 0, 1, 6, 9 x thresholds 0, 100, 8192, max for each endpoint, which side has the larger ephemeral key, sizes and contents around the thresholds in one session", move |cx| {
        let a = *cx.pick_from(&cs);
        let b = *cx.pick_from(&cs);
        let eph = cx.choose(2);
        let mut p = Pair::new(a, b, eph);
        let kind = cx.choose(4) + 2;
        let big = content(kind, 9000);
        let small = content(kind, 99);
        p.negotiate(cx, [Some(&small), Some(&big), Some(&big), Some(&small)])?;
        for &n in &[0, 1, 2, 99, 100, 101, 8191, 8192, 8193] {
            let d = content(kind, n);
            p.send(cx, 0, &d)?;
            p.send(cx, 1, &d)?;
        }
        Ok(())
    })
}

fn absent() -> Scenario {
    scenario("absent, empty and present custom data", 0, "each of the 4 negotiation messages with absent, empty, 1-byte and larger data, all negotiation orders", move |cx| {
        let big = content(3, 300);
        let opt = |i: usize| -> Option<&[u8]> {
            match i {
                0 => None,
                1 => Some(b""),
                2 => Some(b"\0"),
                _ => Some(&big),
            }
        };
        let d: Vec<Option<&[u8]>> = (0..4).map(|_| opt(cx.choose(4))).collect();
        let mut p = Pair::new(SecureLayerConfig::default(), cfg(9, 0), 0);
        match cx.choose(3) {
            0 => p.negotiate(cx, [d[0], d[1], d[2], d[3]])?,
            1 => {
                // endpoint 1 answers before it opens; its ACK arrives before its CONNECT
                let (c0, e0) = p.connect(cx, 0, d[0])?;
                p.recv(cx, 1, &c0, &[e0])?;
                let (a1, ea1) = p.ack(cx, 1, d[3])?;
                p.recv(cx, 0, &a1, &[])?;
                let (c1, e1) = p.connect(cx, 1, d[1])?;
                p.recv(cx, 0, &c1, &[e1, ea1])?;
                let (a0, ea0) = p.ack(cx, 0, d[2])?;
                p.recv(cx, 1, &a0, &[ea0])?;
            }
            _ => {
                // user messages held back until the ACK arrives
                let (c0, e0) = p.connect(cx, 0, d[0])?;
                let (c1, e1) = p.connect(cx, 1, d[1])?;
                p.recv(cx, 1, &c0, &[e0])?;
                p.recv(cx, 0, &c1, &[e1])?;
                let (a0, ea0) = p.ack(cx, 0, d[2])?;
                let (a1, ea1) = p.ack(cx, 1, d[3])?;
                p.recv(cx, 1, &a0, &[ea0])?;
                let (u0, eu0) = p.user(cx, 1, d[0].unwrap_or(b"absent"))?;
                let (u1, eu1) = p.user(cx, 1, d[1].unwrap_or(b"absent"))?;
                let (u2, eu2) = p.user(cx, 1, b"")?;
                p.recv(cx, 0, &u1, &[])?;
                p.recv(cx, 0, &u0, &[])?;
                p.recv(cx, 0, &u2, &[])?;
                p.recv(cx, 0, &a1, &[ea1, eu1, eu0, eu2])?;
            }
        }
        for i in 0..4 {
            let x = d[i].unwrap_or(b"x");
            p.send(cx, i % 2, x)?;
            p.send(cx, (i + 1) % 2, x)?;
        }
        Ok(())
    })
}

/// Configuration changes at every point.
fn changes(dev: u32, large: usize) -> Scenario {
    let cs = [cfg(0, 0), cfg(9, 0), cfg(1, 200), cfg(6, usize::max_value())];
    scenario(
        &format!("configuration changes at every point, messages up to {} bytes", large),
        dev,
        &format!("4 configurations, up to {} changes at either endpoint before any call of a session with messages in both directions and a reordered pair", dev),
        move |cx| {
            let start = cx.choose(4);
            let mut p = Pair::new(cs[start], cs[(start + 1) % 4], 1);
            fn poke(cx: &mut Ctx, p: &mut Pair, cs: &[SecureLayerConfig; 4]) -> R {
                loop {
                    let k = cx.deviate(9);
                    if k == 0 {
                        return Ok(());
                    }
                    let (who, c) = ((k - 1) / 4, (k - 1) % 4);
                    cx.step();
                    cx.log(|| format!("endpoint {} changes to configuration {}", who, c));
                    let r = p.e[who].set_config(cs[c]);
                    cx.check(r.is_ok(), "config-refused", || format!("change_config refused: {:?}", r))?;
                }
            }
            let s = content(3, 199);
            let l = content(6, large);
            poke(cx, &mut p, &cs)?;
            let (c0, e0) = p.connect(cx, 0, Some(&l))?;
            let (c1, e1) = p.connect(cx, 1, Some(&s))?;
            poke(cx, &mut p, &cs)?;
            p.recv(cx, 1, &c0, &[e0])?;
            p.recv(cx, 0, &c1, &[e1])?;
            poke(cx, &mut p, &cs)?;
            let (a0, e0) = p.ack(cx, 0, Some(&s))?;
            let (a1, e1) = p.ack(cx, 1, Some(&l))?;
            poke(cx, &mut p, &cs)?;
            p.recv(cx, 1, &a0, &[e0])?;
            let (u0, eu0) = p.user(cx, 1, &l)?;
            poke(cx, &mut p, &cs)?;
            p.recv(cx, 0, &u0, &[])?;
            poke(cx, &mut p, &cs)?;
            p.recv(cx, 0, &a1, &[e1, eu0])?;
            let (u0, eu0) = p.user(cx, 0, &s)?;
            poke(cx, &mut p, &cs)?;
            let (u1, eu1) = p.user(cx, 0, &l)?;
            poke(cx, &mut p, &cs)?;
            p.recv(cx, 1, &u1, &[eu1])?;
            p.recv(cx, 1, &u0, &[eu0])?;
            poke(cx, &mut p, &cs)?;
            p.send(cx, 1, &s)?;
            p.send(cx, 0, &l)
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C12",
        level: "exploration",
        rule: "Two real endpoints of the complete mode: the full product of compression levels, thresholds around the size, contents and sizes; every pair of configurations; every combination of absent, empty and present custom data in three negotiation orders; and configuration changes inserted before every call of a session. Everything delivered must equal what was sent.",
        assumptions: &["Sizes beyond 40 MiB are not covered"],
        single_thread: false,
        scenarios: |thorough| {
            let mut small: Vec<usize> = (0..if thorough { 300 } else { 130 }).collect();
            small.extend(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 259, 1023, 1024, 1025, 4095, 4096, 4097]);
            small.sort_unstable();
            small.dedup();
            let mut large = vec![8191, 8192, 8193, 16_384, 32_767, 32_768, 32_769, 40_000, 50_000, 65_534, 65_535, 65_536, 65_537];
            if thorough {
                large.extend(&[131_071, 131_072, 131_073, 200_000, 262_144, 1 << 20, (1 << 20) + 1]);
            }
            let mut v = vec![product(small, "small sizes"), product(large, "large sizes"), pairs(), absent()];
            v.push(huge(if thorough {
                vec![131_073, (1 << 20) + 3, 5 << 20, (1 << 24) + 1, 40 << 20]
            } else {
                vec![131_073, (1 << 20) + 3, (1 << 24) + 1]
            }));
            v.push(changes(if thorough { 3 } else { 2 }, 700));
            v.push(changes(if thorough { 2 } else { 1 }, 20_000));
            v
        },
    }
}
