//! Memory retained by an endpoint does not depend on how much it has seen.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;
use crate::sut::{live_bytes, peak_bytes};

/// Growth below this is no growth: the capacity of a buffer that settles, a node of a tree.
const SLACK: i64 = 1_024;
/// of messages received ahead of others
const ROUNDS: u64 = 12;
/// What an endpoint may need for each message number received ahead of a missing one.
const PER_NUMBER: i64 = 96;
/// Overhead of a message held back beyond its data.
const PER_HELD: i64 = 400;
const SIZE: usize = 400;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    Next,
    Pair,
    ReplayOld,
    ReplayLast,
    BadHash,
    Tampered,
    OtherSession,
    OwnReflected,
    ForgedConnect,
    StrangerConnect,
    PeerConnect,
    WrongChallenge,
    StrangerAck,
    ForgedAck,
    PeerAck,
    Garbage,
    Write,
    OwnConnect,
    OwnAck,
    CloneDrop,
    Config,
    TakeAck,
    Drain,
}
use Act::*;
const ACTS: &[Act] = &[
    Next, Pair, ReplayOld, ReplayLast, BadHash, Tampered, OtherSession, OwnReflected, ForgedConnect, StrangerConnect,
    PeerConnect, WrongChallenge, StrangerAck, ForgedAck, PeerAck, Garbage, Write, OwnConnect, OwnAck, CloneDrop, Config, TakeAck,
    Drain,
];

/// Fixed messages, made once.
struct Stock {
    w: World,
    own: Vec<u8>,
    forged_c: Vec<u8>,
    stranger_c: Vec<u8>,
    peer_c: Vec<u8>,
    wrong_a: Vec<u8>,
    stranger_a: Vec<u8>,
    peer_a: Vec<u8>,
    other: Vec<u8>,
    data: Vec<u8>,
}
impl Stock {
    fn new(w: World) -> Stock {
        let data: Vec<u8> = (0..SIZE).map(|i| (i * i % 251) as u8).collect();
        let stranger = Peer::new(&Id::new(seed(66)), seed(67));
        let mut forged_c = w.connect(Some(&data));
        let l = forged_c.len();
        forged_c[l - 1] ^= 1;
        let own = {
            let mut e = w.spec.build();
            let mut b = e.connect(Some(&data)).bytes;
            if w.mode == Mode::Min {
                // the user of minimal mode signs
                let n = b.len();
                if parse(&b).is_err() {
                    b = w.spec.id.signed(b[..n].to_vec());
                }
            }
            b
        };
        let other = Peer::new(&w.p.id, seed(68)).key(&w.epk).user(3, &w.wrap(Some(&data)));
        Stock {
            own,
            forged_c,
            stranger_c: stranger.connect(&w.wrap(Some(&data))),
            peer_c: w.connect(Some(&data)),
            wrong_a: w.p.ack(&w.p.epk, &w.wrap(Some(&data))),
            stranger_a: stranger.ack(&w.epk, &w.wrap(Some(&data))),
            peer_a: w.ack(Some(&data)),
            other,
            data,
            w,
        }
    }
}
/// What is done to the endpoint; everything returned is dropped at once.
struct Run<'a> {
    s: &'a Stock,
    e: Ep,
    next: u64,
    fresh: i64,
    /// every refused message differs from those before
    serial: u64,
}
impl<'a> Run<'a> {
    /// The message with 8 bytes changed, `back` bytes before its end.
    fn varied(&mut self, b: &[u8], back: usize) -> Vec<u8> {
        self.serial += 1;
        let mut v = b.to_vec();
        let l = v.len();
        for (i, x) in self.serial.to_be_bytes().iter().enumerate() {
            v[l - back + i] ^= x;
        }
        v
    }
    fn user(&self, n: u64) -> Vec<u8> {
        self.s.w.user(n, &self.s.data)
    }
    fn recv(&mut self, b: &[u8]) -> Result<(), String> {
        match self.e.recv(b) {
            Err(Fault::Panic(p)) => Err(p),
            _ => Ok(()),
        }
    }
    fn act(&mut self, a: Act) -> Result<(), String> {
        let s = self.s;
        let panics = |r: Res<()>| match r {
            Err(Fault::Panic(p)) => Err(p),
            _ => Ok(()),
        };
        match a {
            Next => {
                let m = self.user(self.next);
                self.next += 1;
                self.fresh += 1;
                self.recv(&m)
            }
            Pair => {
                let (m, n) = (self.user(self.next), self.user(self.next + 1));
                self.next += 2;
                self.fresh += 2;
                self.recv(&n)?;
                self.recv(&m)
            }
            ReplayOld => {
                let m = self.user(0);
                self.recv(&m)
            }
            ReplayLast => {
                let m = self.user(self.next.saturating_sub(1));
                self.recv(&m)
            }
            BadHash => {
                let mut c = user_clear(self.next, &s.w.wrap(Some(&s.data)));
                c = self.varied(&c, 8);
                let m = s.w.key.seal(&c);
                self.recv(&m)
            }
            Tampered => {
                let m = self.user(self.next);
                let m = self.varied(&m, 40);
                self.recv(&m)
            }
            OtherSession => self.recv(&s.other),
            OwnReflected => {
                let m = self.varied(&s.own, 60);
                self.recv(&m)
            }
            ForgedConnect => {
                let m = self.varied(&s.forged_c, 30);
                self.recv(&m)
            }
            StrangerConnect => self.recv(&s.stranger_c),
            PeerConnect => self.recv(&s.peer_c),
            WrongChallenge => {
                let l = s.wrong_a.len();
                let m = self.varied(&s.wrong_a, l - 22);
                self.recv(&m)
            }
            StrangerAck => self.recv(&s.stranger_a),
            ForgedAck => {
                let m = self.varied(&s.peer_a, 30);
                self.recv(&m)
            }
            PeerAck => self.recv(&s.peer_a),
            Garbage => {
                let m = self.varied(&s.data, 30);
                self.recv(&m)
            }
            Write => panics(self.e.user(&s.data).res),
            OwnConnect => panics(self.e.connect(Some(&s.data)).res),
            OwnAck => panics(self.e.ack(Some(&s.data)).res),
            CloneDrop => panics(self.e.try_clone().map(|_| ())),
            Config => panics(self.e.set_config(config(0))),
            TakeAck => panics(self.e.take_ack().map(|_| ())),
            Drain => panics(self.e.drain().map(|_| ())),
        }
    }
}

fn start<'a>(s: &'a Stock, stage: &Stage) -> Run<'a> {
    let mut r = Run { s, e: s.w.spec.build(), next: 0, fresh: 0, serial: 0 };
    for h in stage.steps {
        let _ = match h {
            H::OwnC => r.act(OwnConnect),
            H::OwnA => r.act(OwnAck),
            H::C => r.act(PeerConnect),
            H::A => r.act(PeerAck),
            H::Out => r.act(Write),
            // message 1 follows message 2
            H::U(0) => r.act(Next),
            _ => r.act(Pair),
        };
    }
    r
}

/// Every cycle of a few steps, repeated again and again.
fn cycles(w: World, len: usize) -> Scenario {
    let (warm, reps) = (16, 128);
    let acts: Vec<Act> =
        ACTS.iter().cloned().filter(|a| w.mode == Mode::Min || (*a != TakeAck && *a != Drain)).collect();
    let name = w.name.clone();
    let s = Stock::new(w);
    scenario(
        &format!("cycles of {} steps, {}", len, name),
        0,
        &format!("{} stages x every sequence of {} out of {} steps, repeated {} times and then {} times more: the memory retained after both, and after the endpoint is dropped", STAGES.len(), len, acts.len(), warm, reps),
        move |cx| {
            let stage = cx.pick_from(STAGES);
            let seq: Vec<Act> = (0..len).map(|_| *cx.pick_from(&acts)).collect();
            cx.log(|| format!("stage {}, then {:?} again and again", stage.name, seq));
            let zero = live_bytes();
            let mut r = start(&s, stage);
            let completed = stage.steps.contains(&H::OwnC)
                && stage.steps.contains(&H::OwnA)
                && stage.steps.contains(&H::C)
                && stage.steps.contains(&H::A);
            let mut go = |r: &mut Run, n: usize| -> Result<i64, String> {
                for _ in 0..n {
                    for &a in &seq {
                        r.act(a)?;
                    }
                }
                Ok(live_bytes())
            };
            let res = go(&mut r, warm).and_then(|a| {
                r.fresh = 0;
                go(&mut r, reps).map(|b| (a, b))
            });
            // messages held back before the ACK are waited for
            let held = if completed { 0 } else { r.fresh * (SIZE as i64 + PER_HELD) };
            drop(r);
            let end = live_bytes() - zero;
            for _ in 0..seq.len() {
                cx.step();
            }
            let (a, b) = match res {
                Err(p) => return cx.report("panic", || format!("panics: {}", p)),
                Ok(x) => x,
            };
            cx.observe(&(b > a + SLACK));
            cx.check(b - a <= held + SLACK, "memory-grows", || {
                format!("stage {}: {} repetitions of {:?} leave {} bytes behind", stage.name, reps, seq, b - a)
            })?;
            cx.check(end <= SLACK, "memory-lost", || {
                format!("stage {}: after {} repetitions of {:?} and dropping the endpoint {} bytes are not released", stage.name, warm + reps, seq, end)
            })
        },
    )
}

/// Messages ahead of missing ones: only their numbers are remembered, and only while something is missing.
fn windows(w: World, counts: Vec<usize>) -> Scenario {
    let name = w.name.clone();
    let s = Stock::new(w);
    scenario(
        &format!("messages received ahead, {}", name),
        0,
        &format!("{:?} messages of {} bytes ahead of one or two missing ones (consecutive, every second one), before or after the completion, then the missing ones in both orders; 12 rounds: memory while they are missing and after each round", counts, SIZE),
        move |cx| {
            let k = *cx.pick_from(&counts);
            let stride = 1 + cx.choose(2) as u64;
            let held = cx.flag();
            let clone = cx.flag();
            let zero = live_bytes();
            let mut r = start(&s, &STAGES[if held { 7 } else { 9 }]);
            let base = live_bytes();
            let mut after = vec![];
            let mut ahead = vec![];
            let mut panic = None;
            for round in 0..ROUNDS {
                let first = r.next;
                // `first` and, with a stride of 2, every second one is missing
                let mut missing = vec![first];
                let mut n = first;
                for i in 0..k as u64 {
                    n = first + 1 + i * stride;
                    if stride == 2 && i > 0 {
                        missing.push(n - 1);
                    }
                    let m = r.user(n);
                    panic = panic.or(r.recv(&m).err());
                }
                r.next = n + 1;
                if round == 0 && held {
                    panic = panic.or(r.act(PeerAck).err());
                    panic = panic.or(r.act(Drain).err());
                }
                ahead.push(live_bytes());
                if round == 1 && clone {
                    panic = panic.or(r.act(CloneDrop).err());
                }
                if round % 2 == 1 && k * stride as usize <= 10_000 {
                    missing.reverse();
                }
                for n in missing {
                    let m = r.user(n);
                    panic = panic.or(r.recv(&m).err());
                }
                after.push(live_bytes());
                cx.step();
            }
            drop(r);
            let end = live_bytes() - zero;
            let v: Vec<i64> = after.iter().map(|x| x - base).collect();
            let u: Vec<i64> = ahead.iter().map(|x| x - base).collect();
            cx.log(|| format!("{} messages ahead, stride {}, held back {}: {:?} bytes while something is missing, {:?} after each round", k, stride, held, u, v));
            if let Some(p) = panic {
                return cx.report("panic", || format!("panics: {}", p));
            }
            // what is held back is given out with the ACK; a buffer may remain
            let list = if held { 200 * k as i64 } else { 0 };
            for &x in &u {
                cx.check(x <= PER_NUMBER * k as i64 + list + 64 * SLACK, "content-retained", || {
                    format!("{} messages of {} bytes received and given out ahead of a missing one retain {} bytes", k, SIZE, x)
                })?;
            }
            // a container may keep its capacity, and double it once more; a leak grows in every round
            for i in 1..ROUNDS as usize {
                cx.check(v[i].max(u[i]) <= 2 * u[1] + 4 * SLACK, "memory-grows", || {
                    format!("{} bytes are retained while something is missing in round 2; in round {} it is {}, and {} after all messages came", u[1], i + 1, u[i], v[i])
                })?;
            }
            cx.check(end <= SLACK, "memory-lost", || format!("{} bytes are not released when the endpoint is dropped", end))
        },
    )
}

/// Reading allocates in proportion to what is read.
fn peaks(w: World, sizes: Vec<usize>) -> Scenario {
    let name = w.name.clone();
    let s = Stock::new(w);
    let mut claims: Vec<u64> = (0..64).map(|k| 1u64 << k).collect();
    claims.extend_from_slice(&[0, 3, 255, 65_535, u64::max_value(), u64::max_value() / 2, 1_000_000_007]);
    // sizes between 2^27 and 2^33 would do real harm if they were believed; bigger ones abort
    scenario(
        &format!("memory while reading, {}", name),
        0,
        &format!("{} stages x {} sizes x 7 kinds of data x its real or one of {} claimed lengths: the most memory in use during the call", STAGES.len(), sizes.len(), claims.len()),
        move |cx| {
            let stage = cx.pick_from(STAGES);
            let n = *cx.pick_from(&sizes);
            let kind = cx.choose(7);
            let lie = cx.choose(claims.len() + 1);
            let w = &s.w;
            let body: Vec<u8> = (0..n).map(|i| ((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8).collect();
            let body = if kind == 6 { body } else { w.wrap(Some(&body)) };
            let stranger = Peer::new(&Id::new(seed(66)), seed(67));
            let (ty, head) = match kind {
                0 | 1 => (T_CONNECT, connect_headers(&stranger.epk, &SIG_ALGO, &stranger.id.pk)),
                2 | 3 => (T_ACK, sha256(&w.epk).to_vec()),
                _ => (T_USER, 0u64.to_be_bytes().to_vec()),
            };
            let f = if lie == 0 { frame(ty, &head, &body) } else { frame_len(ty, &head, &body, claims[lie - 1]) };
            let b = match kind {
                0 | 2 => stranger.id.signed(f),
                1 | 3 => f,
                4 => w.key.seal(&hashed(f)),
                5 => hashed(f),
                _ => body,
            };
            let mut r = start(&s, stage);
            cx.step();
            let (x, peak) = peak_bytes(|| r.recv(&b));
            cx.log(|| format!("stage {}, {} bytes of kind {}, length field {:?}: up to {} bytes in use", stage.name, b.len(), kind, lie, peak));
            if let Err(p) = x {
                return cx.report("panic", || format!("panics: {}", p));
            }
            cx.check(peak <= 24 * b.len() as i64 + (256 << 10), "memory-out-of-proportion", || {
                format!("reading {} bytes takes {} bytes of memory", b.len(), peak)
            })
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C21",
        level: "exploration",
        rule: "In every stage every short cycle of steps (genuine, refused and failing messages, writes, refused calls, clones) is repeated; the memory retained after many repetitions is compared with that after a few. Numbers received ahead are counted while something is missing and afterwards. The most memory used by a call is measured for data of all kinds, sizes and claimed lengths. The allocator of the harness counts every byte of the thread.",
        assumptions: &["Growth of less than 1,024 bytes over 128 repetitions is taken for the capacity of buffers", "Decompression of genuine messages may need more memory than the message has; data that does not compress is used"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &mode in &MODES {
                for &pinned in &[false, true] {
                    let w = || World::std(mode, pinned, true);
                    v.push(cycles(w(), 1));
                    v.push(cycles(w(), 2));
                    if thorough {
                        v.push(cycles(w(), 3));
                    }
                    if !pinned || thorough {
                        v.push(windows(w(), if thorough { vec![1, 2, 10, 100, 1_000, 5_000, 9_999, 10_000] } else { vec![1, 10, 1_000, 9_999] }));
                    }
                    v.push(peaks(w(), if thorough { vec![0, 1, 40, 1_000, 8_192, 70_000, 1 << 20, 10 << 20] } else { vec![0, 40, 1_000, 70_000] }));
                }
            }
            v
        },
    }
}
