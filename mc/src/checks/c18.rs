//! Sessions in one process do not influence each other.
use super::*;
use crate::engine::{scenario, Stop};
use crate::ep::*;
use crate::refp::*;
use std::collections::BTreeMap;
use std::sync::Arc;

/// One step of a session's script, on one of its two handles (the second one is a clone).
#[derive(Clone)]
enum S {
    New,
    Do(usize, Op),
    Fork,
    Drop(usize),
}
type Kind = (&'static str, fn(&World) -> Vec<S>);

fn r(name: &'static str, b: Vec<u8>) -> S {
    S::Do(0, msg(name, b))
}
fn bad(mut b: Vec<u8>, at: usize) -> Vec<u8> {
    let i = if at == 0 { b.len() - 1 } else { at };
    b[i] ^= 1;
    b
}
fn c() -> S {
    S::Do(0, Op::Connect(Some(b"own".to_vec())))
}
fn a() -> S {
    S::Do(0, Op::Ack(Some(b"own".to_vec())))
}
fn u(d: &[u8]) -> S {
    S::Do(0, Op::User(d.to_vec()))
}
fn rc(w: &World) -> S {
    r("CONNECT", w.connect(Some(b"peer")))
}
fn ra(w: &World) -> S {
    r("ACK", w.ack(Some(b"peer")))
}
fn ru(w: &World, n: u64) -> S {
    r("USER", w.user(n, format!("user {}", n).as_bytes()))
}

const KINDS: &[Kind] = &[
    ("plain", |w| vec![S::New, c(), rc(w), a(), ra(w), u(b"x"), ru(w, 0), u(b"y")]),
    ("messages held back", |w| {
        let mut v = vec![S::New, c(), rc(w), a(), ru(w, 1), ra(w)];
        if w.mode == Mode::Min {
            v.push(S::Do(0, Op::Drain));
        }
        v.extend(vec![u(b"x"), ru(w, 0)]);
        v
    }),
    ("early ACK", |w| {
        let mut v = vec![S::New, c(), ra(w), rc(w)];
        if w.mode == Mode::Min {
            v.push(S::Do(0, Op::TakeAck));
        }
        v.extend(vec![a(), ru(w, 2), u(b"x")]);
        v
    }),
    ("failing", |w| vec![S::New, c(), rc(w), r("garbage", vec![9; 80]), a(), u(b"x"), ra(w), S::Drop(0)]),
    ("forged CONNECT", |w| vec![S::New, r("CONNECT with a wrong signature", bad(w.connect(Some(b"peer")), 0)), c(), rc(w), a(), ra(w), u(b"x")]),
    ("forged ACK", |w| vec![S::New, c(), rc(w), r("ACK with a wrong signature", bad(w.ack(Some(b"peer")), 0)), a(), ra(w), ru(w, 0)]),
    ("repeated messages", |w| vec![S::New, c(), rc(w), a(), ra(w), ru(w, 0), ru(w, 0), ru(w, 1)]),
    ("forged message", |w| vec![S::New, c(), rc(w), a(), ra(w), ru(w, 0), r("USER with a changed byte", bad(w.user(1, b"user 1"), 20)), u(b"x")]),
    ("cloned", |w| {
        vec![S::New, c(), rc(w), a(), ra(w), S::Fork, u(b"x"), S::Do(1, Op::User(b"y".to_vec())), S::Drop(0), S::Do(1, msg("USER", w.user(0, b"user 0")))]
    }),
    ("dropped early", |w| vec![S::New, c(), rc(w), S::Drop(0), S::New, c(), rc(w), a(), ra(w), u(b"x")]),
    ("output error", |w| vec![S::New, c(), rc(w), a(), ra(w), u(b"x"), S::Do(0, Op::Broken('U', 0)), u(b"y"), ru(w, 0)]),
    ("output error in the middle of a message", |w| {
        let mut v = vec![S::New, c(), rc(w)];
        if w.mode == Mode::Min {
            v.extend(vec![a(), ra(w), S::Do(0, Op::Broken('U', 40)), S::Drop(0)]);
        } else {
            v.extend(vec![S::Do(0, Op::Broken('A', 40)), ra(w), u(b"x"), S::Drop(0)]);
        }
        v
    }),
    ("other configuration", |w| vec![S::New, S::Do(0, Op::Config(1)), c(), rc(w), a(), S::Do(0, Op::Config(2)), ra(w), u(b"xxxxxxxxxxxxxxxxxxxxxxxx"), ru(w, 0)]),
];

/// What two sessions have in common.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Common {
    Nothing,
    /// both endpoints belong to one application identity, both peers to one other
    Identities,
    /// the same peer session: one peer CONNECT message goes to both endpoints
    Peer,
    /// the same ephemeral and signature key on this side
    Own,
    /// everything: two instances of one session
    Everything,
    /// each is the other one's identity
    Crossed,
}
const COMMON: [Common; 6] = [Common::Nothing, Common::Identities, Common::Peer, Common::Own, Common::Everything, Common::Crossed];

fn world(mode: Mode, known: bool, eph: (u8, u8), id: (u8, u8)) -> World {
    let e_id = Id::new(seed(id.0));
    let p_id = Id::new(seed(id.1));
    let p = Peer::new(&p_id, seed(eph.1));
    let spec = EpSpec::new(mode, &e_id, seed(eph.0), if known { Some(p_id.pk.clone()) } else { None });
    let epk = epk_of(seed(eph.0));
    let key = p.key(&epk);
    let mut keys = BTreeMap::new();
    keys.insert(p.epk, key.clone());
    World { name: format!("{:?}", mode), spec, mode, epk, p, key, keys: Arc::new(keys) }
}
/// The worlds of up to three sessions
fn worlds(m: [Mode; 3], k: [bool; 3], com: Common) -> Vec<World> {
    let (e, i): ([(u8, u8); 3], [(u8, u8); 3]) = match com {
        Common::Nothing => ([(1, 2), (3, 4), (5, 6)], [(201, 202), (203, 204), (205, 206)]),
        Common::Identities => ([(1, 2), (3, 4), (5, 6)], [(201, 202); 3]),
        Common::Peer => ([(1, 2), (3, 2), (5, 2)], [(201, 202), (203, 202), (201, 202)]),
        Common::Own => ([(1, 2), (1, 4), (1, 6)], [(201, 202), (201, 204), (201, 202)]),
        Common::Everything => ([(1, 2); 3], [(201, 202); 3]),
        Common::Crossed => ([(1, 2), (2, 1), (1, 2)], [(201, 202), (202, 201), (201, 202)]),
    };
    (0..3).map(|n| world(m[n], k[n], e[n], i[n])).collect()
}

struct Script {
    w: World,
    name: String,
    steps: Vec<S>,
}
struct Live {
    h: [Option<Drv>; 2],
    at: usize,
}
/// Endpoints are handed from thread to thread, one at a time.
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}

fn run(cx: &mut Ctx, n: usize, s: &Script, l: &mut Live) -> R {
    let i = l.at;
    l.at += 1;
    cx.log(|| format!("session {} ({}), step {}", n + 1, s.name, i));
    match &s.steps[i] {
        S::New => {
            l.h = [Some(s.w.drv()), None];
            cx.step();
            Ok(())
        }
        S::Do(h, op) => match &mut l.h[*h] {
            Some(d) => d.op(cx, op),
            None => Ok(()),
        },
        S::Fork => {
            let d = l.h[0].as_mut().unwrap();
            l.h[1] = d.fork(cx)?;
            Ok(())
        }
        S::Drop(h) => {
            l.h[*h] = None;
            cx.step();
            Ok(())
        }
    }
}
fn run_on(cx: &mut Ctx, fresh: bool, n: usize, s: &Script, l: &mut Live) -> R {
    if !fresh {
        return run(cx, n, s, l);
    }
    cx.log(|| "in another thread:".into());
    let m = Moved((cx, l));
    let o = std::thread::scope(|sc| {
        sc.spawn(move || {
            let m = m;
            let Moved((cx, l)) = m;
            Moved(run(cx, n, s, l))
        })
        .join()
        .map(|m| m.0)
    });
    o.unwrap_or(Err(Stop::Prune))
}

/// All interleavings (`switches`: with at most so many changes from an unfinished session to another).
fn interleave(name: String, note: &str, groups: Vec<Vec<Script>>, switches: Option<u32>, threads: bool) -> Scenario {
    let note = format!(
        "{} combinations of sessions, {}{}",
        groups.len(),
        match switches {
            None => "all interleavings".into(),
            Some(k) => format!("all interleavings with at most {} changes away from an unfinished session", k),
        },
        note
    );
    let dev = if threads { 2 } else { switches.unwrap_or(0) };
    scenario(&name, dev, &note, move |cx| {
        let k = cx.choose((groups.len() + 99) / 100) * 100;
        let g = &groups[k + cx.choose((groups.len() - k).min(100))];
        let mut l: Vec<Live> = g.iter().map(|_| Live { h: [None, None], at: 0 }).collect();
        let mut cur = usize::max_value();
        loop {
            let open: Vec<usize> = (0..g.len()).filter(|&i| l[i].at < g[i].steps.len()).collect();
            if open.is_empty() {
                return Ok(());
            }
            cur = if switches.is_none() {
                open[cx.choose(open.len())]
            } else if threads {
                // round robin; the deviations are the threads
                *open.iter().find(|&&i| i > cur || cur == usize::max_value()).unwrap_or(&open[0])
            } else if open.contains(&cur) {
                let others: Vec<usize> = open.iter().cloned().filter(|&i| i != cur).collect();
                match cx.deviate(others.len() + 1) {
                    0 => cur,
                    j => others[j - 1],
                }
            } else {
                open[cx.choose(open.len())]
            };
            let fresh = threads && cx.deviate(2) == 1;
            run_on(cx, fresh, cur, &g[cur], &mut l[cur])?;
            let at: Vec<usize> = l.iter().map(|x| x.at).collect();
            cx.state(&(k, at));
        }
    })
}

fn script(k: usize, w: &World) -> Script {
    Script { name: format!("{}, {:?}", KINDS[k].0, w.mode), steps: (KINDS[k].1)(w), w: World { name: w.name.clone(), spec: w.spec.clone(), mode: w.mode, epk: w.epk, p: w.p.clone(), key: w.key.clone(), keys: w.keys.clone() } }
}
fn group(ks: &[usize], m: [Mode; 3], known: [bool; 3], com: Common) -> Vec<Script> {
    let w = worlds(m, known, com);
    ks.iter().enumerate().map(|(i, &k)| script(k, &w[i])).collect()
}
use Mode::*;
const MM: [[Mode; 3]; 4] = [[Min, Min, Cmp], [Cmp, Cmp, Min], [Min, Cmp, Cmp], [Cmp, Min, Min]];

/// Two endpoints under test talk to each other beside another such pair.
fn pairs(switches: u32, com: Common) -> Scenario {
    scenario(
        &format!("two pairs of endpoints, {:?} in common", com),
        switches,
        &format!("two sessions between two endpoints under test each (all modes), all interleavings with at most {} changes", switches),
        move |cx| {
            let modes = [*cx.pick_from(&MODES), *cx.pick_from(&MODES)];
            struct P {
                e: Vec<Ep>,
                wire: Vec<Vec<u8>>,
                at: usize,
            }
            let mut l: Vec<P> = (0..2).map(|_| P { e: vec![], wire: vec![], at: 0 }).collect();
            let ids: Vec<_> = (0..4).map(|i| Id::new(seed(201 + if com == Common::Nothing { i } else { i % 2 }))).collect();
            let eph = |p: usize, i: usize| match com {
                Common::Nothing => seed((1 + 2 * p + i) as u8),
                Common::Crossed => seed((1 + (p + i) % 2) as u8),
                _ => seed((1 + i) as u8),
            };
            let mut cur = usize::max_value();
            loop {
                let open: Vec<usize> = (0..2).filter(|&i| l[i].at < 14).collect();
                if open.is_empty() {
                    return Ok(());
                }
                cur = if open.contains(&cur) {
                    match (open.len(), if open.len() > 1 { cx.deviate(2) } else { 0 }) {
                        (2, 1) => 1 - cur,
                        _ => cur,
                    }
                } else {
                    open[cx.choose(open.len())]
                };
                let n = cur;
                let s = &mut l[n];
                let at = s.at;
                s.at += 1;
                cx.step();
                cx.log(|| format!("pair {}, step {}", n + 1, at));
                // 0,1 create; 2,3 CONNECT; 4,5 read; 6,7 ACK; 8,9 read; 10,11 write; 12,13 read
                let (who, what) = (at % 2, at / 2);
                let data = format!("data {} of pair {} endpoint {}", what, n, who).into_bytes();
                match what {
                    0 => {
                        let id = &ids[(2 * n + who) % 4];
                        s.e.push(EpSpec::new(modes[n], id, eph(n, who), None).build());
                    }
                    1 | 3 | 5 => {
                        let o = match what {
                            1 => s.e[who].connect(Some(&data)),
                            3 => s.e[who].ack(Some(&data)),
                            _ => s.e[who].user(&data),
                        };
                        cx.check(o.res.is_ok(), "local-refused", || format!("pair {} step {}: {:?}", n + 1, at, o.res))?;
                        s.wire.push(o.bytes);
                    }
                    _ => {
                        let b = s.wire[s.wire.len() - 1 - if at % 2 == 0 { 0 } else { 1 }].clone();
                        let from = 1 - who;
                        let want = format!("data {} of pair {} endpoint {}", what - 1, n, from).into_bytes();
                        let key = ids[(2 * n + from) % 4].pk.clone();
                        let g = s.e[who].recv(&b);
                        let w = match what {
                            2 => Ev::Connect { key, data: Some(want) },
                            4 => Ev::Ack { data: Some(want) },
                            _ => Ev::User { data: want },
                        };
                        cx.check(g.as_ref().map_or(false, |g| g[..] == [w.clone()]), "wrong-delivery", || {
                            format!("pair {} step {}: {:?} instead of {}", n + 1, at, g, w.show())
                        })?;
                    }
                }
                let at: Vec<usize> = l.iter().map(|x| x.at).collect();
                cx.state(&at);
            }
        },
    )
}

/// Trouble of one kind, repeated on other endpoints before a session begins or in the middle of it.
fn trouble(w: &World) -> Vec<(&'static str, Vec<S>)> {
    let signed_c = |mut b: Vec<u8>, at: usize, x: u8| {
        b[at] ^= x;
        let n = b.len() - 64;
        b.truncate(n);
        w.p.id.signed(b)
    };
    let (c0, a0) = (w.connect(None), w.ack(None));
    let low = {
        let mut b = c0.clone();
        b[18..50].iter_mut().for_each(|x| *x = 0);
        signed_c(b, 0, 0)
    };
    let sealed = |mut b: Vec<u8>, at: usize| {
        b[at] ^= 1;
        w.key.seal(&b)
    };
    let clear = crate::refp::user_clear(0, &w.wrap(Some(b"x")));
    let done = |o: Vec<S>| {
        let mut v = vec![S::New, c(), rc(w), a(), ra(w)];
        v.extend(o);
        v
    };
    vec![
        ("created and dropped", vec![S::New]),
        ("CONNECT only", vec![S::New, c()]),
        ("half a negotiation", vec![S::New, c(), rc(w), a()]),
        ("whole sessions", done(vec![u(b"x"), ru(w, 0)])),
        ("garbage before the key", vec![S::New, r("garbage", vec![7; 60])]),
        ("garbage after the key", done(vec![r("garbage", vec![7; 60])])),
        ("empty data", vec![S::New, r("nothing", vec![])]),
        ("cut message", vec![S::New, r("cut CONNECT", c0[..40].to_vec())]),
        ("wrong version", vec![S::New, r("CONNECT of another version", signed_c(c0.clone(), 7, 2))]),
        ("unknown type", vec![S::New, r("unknown type", signed_c(c0.clone(), 17, 8))]),
        ("wrong length", vec![S::New, r("CONNECT with a wrong length", signed_c(c0.clone(), 15, 64))]),
        ("unknown signature algorithm", vec![S::New, r("CONNECT with another algorithm", signed_c(c0.clone(), 53, 1))]),
        ("wrong CONNECT signature", vec![S::New, r("CONNECT, wrong signature", bad(c0.clone(), 0))]),
        ("unusable ephemeral key", vec![S::New, c(), r("CONNECT with a null ephemeral key", low)]),
        ("second CONNECT", vec![S::New, c(), rc(w), rc(w)]),
        ("wrong challenge", vec![S::New, c(), rc(w), r("ACK with a wrong challenge", signed_c(a0.clone(), 30, 1))]),
        ("wrong ACK signature", vec![S::New, c(), rc(w), r("ACK, wrong signature", bad(a0.clone(), 0))]),
        ("two early ACKs", vec![S::New, c(), ra(w), ra(w)]),
        ("second ACK", done(vec![ra(w)])),
        ("user message in clear", done(vec![r("clear USER", clear.clone())])),
        ("wrong hash", done(vec![r("USER, wrong hash", sealed(clear.clone(), clear.len() - 1))])),
        ("repeated message", done(vec![ru(w, 0), ru(w, 0)])),
        ("changed message", done(vec![r("USER, changed", bad(w.user(0, b"x"), 0))])),
        ("far message", done(vec![r("USER 2^64-1", w.user(u64::max_value(), b"x"))])),
        ("early user message", vec![S::New, c(), rc(w), ru(w, 0)]),
        ("user message written too early", vec![S::New, c(), u(b"x")]),
        ("refused local calls", vec![S::New, c(), c(), a(), S::Do(0, Op::CloneDrop)]),
        ("clones", done(vec![S::Fork, u(b"x"), S::Drop(1)])),
        ("output errors", done(vec![S::Do(0, Op::Broken('U', 3))])),
        ("configurations", vec![S::New, S::Do(0, Op::Config(1)), S::Do(0, Op::Config(2))]),
    ]
}
fn many(mode: Mode, counts: Vec<usize>, com: Common) -> Scenario {
    let ws = worlds([mode; 3], [false; 3], com);
    let t: Vec<Script> = trouble(&ws[1]).into_iter().map(|(name, steps)| Script { name: name.into(), steps, ..script(0, &ws[1]) }).collect();
    let main: Vec<Script> = [0usize, 1, 2, 8].iter().map(|&k| script(k, &ws[0])).collect();
    scenario(
        &format!("many endpoints in trouble beside a session, {:?}, {:?} in common", mode, com),
        0,
        &format!("{} kinds of trouble, each on {:?} other endpoints of the process, before a session or at any point of it; 4 kinds of sessions", t.len(), counts),
        move |cx| {
            let s = cx.pick_from(&main);
            let x = cx.pick_from(&t);
            let n = *cx.pick_from(&counts);
            let at = cx.choose(s.steps.len());
            let mut l = Live { h: [None, None], at: 0 };
            while l.at < s.steps.len() {
                if l.at == at {
                    for _ in 0..n {
                        let mut o = Live { h: [None, None], at: 0 };
                        while o.at < x.steps.len() {
                            run(cx, 1, x, &mut o)?;
                        }
                    }
                }
                run(cx, 0, s, &mut l)?;
            }
            Ok(())
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C18",
        level: "exploration",
        rule: "Two or three sessions in one process, each a script of operations (normal, failing, attacked, cloned, dropped, reconfigured, with held back messages), with nothing, identities, ephemeral keys or everything in common. All interleavings of their operations (or all with a bounded number of changes), and every placement of up to two operations in another thread; each endpoint runs in lock step with its own reference model, which knows nothing of the other sessions: every difference is a violation. All executions follow each other in one process, so that anything one session leaves behind meets all later ones.",
        assumptions: &["Single operations are atomic: the code has no shared state on which two operations could overlap (safe Rust, operations take &mut self)"],
        single_thread: true,
        scenarios: |thorough| {
            let mut o = vec![];
            let none = [false; 3];
            let n = KINDS.len();
            // every pair of kinds, everything possible in common
            for &com in &COMMON {
                let mut g = vec![];
                for i in 0..n {
                    for j in 0..n {
                        for (x, m) in MM.iter().enumerate() {
                            if thorough || (i + j + x) % 4 == 0 {
                                g.push(group(&[i, j], *m, if (i + j) % 2 == 0 { none } else { [true, false, true] }, com));
                            }
                        }
                    }
                }
                o.push(interleave(format!("pairs of sessions, {:?} in common", com), "", g, Some(if thorough { 2 } else { 1 }), false));
            }
            // all interleavings of some
            let full: &[(usize, usize, Common)] = &[(0, 0, Common::Everything), (0, 3, Common::Peer), (5, 1, Common::Own), (4, 6, Common::Everything), (2, 8, Common::Identities)];
            for (x, &(i, j, com)) in full.iter().enumerate() {
                let cut = |mut g: Vec<Script>| {
                    if !thorough {
                        for s in &mut g {
                            s.steps.truncate(7);
                        }
                    }
                    g
                };
                let g = if thorough { MM.iter().map(|m| group(&[i, j], *m, none, com)).collect() } else { vec![cut(group(&[i, j], MM[x % 4], none, com))] };
                o.push(interleave(format!("{} and {}, {:?} in common", KINDS[i].0, KINDS[j].0, com), "", g, None, false));
            }
            // three sessions
            for &com in &[Common::Nothing, Common::Peer, Common::Everything] {
                let mut g = vec![];
                for i in 0..n {
                    for k in 1..(if thorough { n } else { 3 }) {
                        g.push(group(&[i, (i + k) % n, (i + 2 * k) % n], MM[(i + k) % 4], none, com));
                    }
                }
                o.push(interleave(format!("three sessions, {:?} in common", com), "", g, Some(1), false));
            }
            // other threads
            for &com in &[Common::Nothing, Common::Everything] {
                let g = (0..n).map(|i| group(&[i, (i + 1) % n], MM[i % 4], none, com)).collect();
                o.push(interleave(format!("operations in other threads, {:?} in common", com), ", alternating; up to two operations run in a thread of their own", g, Some(2), true));
            }
            for (i, &m) in MODES.iter().enumerate() {
                let counts = if thorough { vec![1, 2, 10, 70, 300] } else { vec![1, 2, 40] };
                o.push(many(m, counts, [Common::Peer, Common::Nothing][i]));
            }
            for &com in &[Common::Nothing, Common::Everything, Common::Crossed] {
                o.push(pairs(if thorough { 3 } else { 2 }, com));
            }
            o
        },
    }
}
