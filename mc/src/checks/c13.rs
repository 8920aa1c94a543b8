//! Clones of an endpoint.
use super::*;
use crate::engine::{scenario, Stop};
use crate::ep::*;
use crate::refp::*;

const SETUPS: &[&str] = &[
    "nothing exchanged",
    "2 written",
    "0 and 2 read",
    "0 and 1 read, 1 written",
    "held back and not fetched",
    "5, 1 and 3 read, 1 written",
    "ACK received first, 0 held back never, 1 read",
    "one handle of an earlier clone",
];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum A {
    Next,
    Skip,
    Old,
    Write,
    Typed,
    Drain,
    Config,
    Connect,
    Ack,
    Stranger,
    Forged,
    Clone,
    Drop,
    /// fails the connection: ends the execution
    ReplayedAck,
    ReplayedConnect,
}
const ALL: &[A] = &[
    A::Next, A::Skip, A::Old, A::Drain, A::Stranger, A::Forged, A::Write, A::Typed, A::Config, A::Connect, A::Ack,
    A::Clone, A::Drop, A::ReplayedAck, A::ReplayedConnect,
];

struct S {
    w: World,
    stranger: Vec<u8>,
    forged: Vec<u8>,
    wrong: Vec<u8>,
}
impl S {
    fn new(mode: Mode, known: bool, gt: bool) -> S {
        let w = World::std(mode, known, gt);
        let x = Id::new(seed(99));
        let xp = Peer::new(&x, seed(98));
        let stranger = xp.connect(&w.wrap(Some(b"stranger")));
        let forged = xp.ack(&w.epk, &w.wrap(Some(b"stranger")));
        let wrong = w.p.ack(&xp.epk, &w.wrap(Some(b"other session")));
        S { w, stranger, forged, wrong }
    }
}

fn setup(cx: &mut Ctx, s: &S, h: &Honest, d: &mut Drv, k: usize) -> R<Option<Drv>> {
    let mut p = h.prog();
    let go = |cx: &mut Ctx, d: &mut Drv, p: &mut Prog, steps: &[H]| -> R {
        for &x in steps {
            h.apply(cx, d, p, x)?;
        }
        Ok(())
    };
    use H::*;
    let plain = [OwnC, C, OwnA, A];
    if s.w.mode == Mode::Cmp {
        let mut c = config(0);
        c.message_format = pkstl::MessageFormat::Utf8Json;
        let r = d.ep.set_config(c);
        cx.check(r.is_ok(), "config-refused", || format!("change_config refused: {:?}", r))?;
    }
    let mut other = None;
    match k {
        0 => go(cx, d, &mut p, &plain)?,
        1 => {
            go(cx, d, &mut p, &plain)?;
            go(cx, d, &mut p, &[Out, Out])?;
        }
        2 => {
            go(cx, d, &mut p, &plain)?;
            go(cx, d, &mut p, &[U(0), U(2)])?;
        }
        3 => {
            go(cx, d, &mut p, &plain)?;
            go(cx, d, &mut p, &[U(0), U(1), Out])?;
        }
        4 => go(cx, d, &mut p, &[OwnC, C, OwnA, U(2), U(0), A])?,
        5 => {
            go(cx, d, &mut p, &plain)?;
            go(cx, d, &mut p, &[U(5), U(1), U(3), Out])?;
        }
        6 => {
            go(cx, d, &mut p, &[OwnC, A, C])?;
            if s.w.mode == Mode::Min && d.m.stash.is_some() {
                go(cx, d, &mut p, &[Take])?;
            }
            go(cx, d, &mut p, &[OwnA, U(1)])?;
        }
        _ => {
            go(cx, d, &mut p, &plain)?;
            go(cx, d, &mut p, &[U(1), Out])?;
            other = d.fork(cx)?;
            let t = other.as_mut().unwrap();
            t.op(cx, &Op::User(b"by the clone".to_vec()))?;
            d.op(cx, &Op::User(b"by the original".to_vec()))?;
        }
    }
    Ok(other)
}

/// The next message numbers the reader has not seen.
fn unread(m: &Model, n: usize) -> u64 {
    let mut v = m.next_read;
    let mut k = 0;
    loop {
        if !m.ahead.contains(&v) {
            if k == n {
                return v;
            }
            k += 1;
        }
        v += 1;
    }
}

fn typed(cx: &mut Ctx, d: &mut Drv) -> R {
    cx.step();
    let n = d.m.next_write.get();
    let o = match &mut d.ep.inner {
        Inner::Cmp(c) => wout(|w| c.write(&"typed".to_string(), w)),
        _ => return Ok(()),
    };
    cx.log(|| format!("typed write -> {:?}", o.res));
    d.m.user();
    match o.res {
        Ok(()) => match check_user(&d.m, &o.bytes, n, b"\0\0\0\x02\"typed\"") {
            Ok(()) => Ok(()),
            Err(e) => cx.report("bad-emission", || format!("typed write emits a wrong message: {}", e)),
        },
        Err(e) => cx.report("local-refused", || format!("typed write refused although the format was configured: {:?}", e)),
    }
}

const CORE: &[A] = &[A::Next, A::Skip, A::Old, A::Drain, A::Write, A::Clone, A::Drop];

fn two_handles(mode: Mode, known: bool, k: usize, depth: usize, acts: &'static [A]) -> Scenario {
    let s = S::new(mode, known, k % 2 == 0);
    let h = Honest::new(&s.w, 6, 2, false);
    scenario(
        &format!("two handles, {} operations, {}, {}", if acts.len() == CORE.len() { "traffic" } else { "all" }, SETUPS[k], s.w.name),
        0,
        &format!("all sequences of {} operations over both handles; either one reads", depth),
        move |cx| {
            let mut d = s.w.drv();
            let other = setup(cx, &s, &h, &mut d, k)?;
            let reader_is_clone = cx.flag();
            let e = match d.fork(cx)? {
                Some(e) => e,
                None => return Err(Stop::Prune),
            };
            drop(other);
            let (r, w) = if reader_is_clone { (e, d) } else { (d, e) };
            // 0 reads, 1 does not
            let mut hs: [Option<Drv>; 2] = [Some(r), Some(w)];
            let mut log: Vec<u64> = vec![];
            for _ in 0..depth {
                let mut menu = vec![];
                for i in 0..2 {
                    if hs[i].is_none() {
                        continue;
                    }
                    for &a in acts {
                        let reading = match a {
                            A::Next | A::Skip | A::Stranger | A::Forged | A::ReplayedAck | A::ReplayedConnect => true,
                            A::Old => hs[i].as_ref().unwrap().m.next_read > 0 || !hs[i].as_ref().unwrap().m.ahead.is_empty(),
                            A::Drain => {
                                if mode == Mode::Cmp {
                                    continue;
                                }
                                true
                            }
                            _ => false,
                        };
                        if reading && i == 1 {
                            continue;
                        }
                        if a == A::Old && !reading {
                            continue;
                        }
                        if a == A::Typed && mode == Mode::Min {
                            continue;
                        }
                        // symmetric on both handles: once is enough for the local refusals
                        if a == A::Drop && hs[1 - i].is_none() {
                            continue;
                        }
                        menu.push((i, a));
                    }
                }
                let (i, a) = menu[cx.choose(menu.len())];
                let d = hs[i].as_mut().unwrap();
                cx.log(|| format!("handle {}: {:?}", i, a));
                match a {
                    A::Next | A::Skip => {
                        let n = unread(&d.m, if a == A::Skip { 1 } else { 0 });
                        log.push(n);
                        let b = s.w.user(n, format!("user {}", n).as_bytes());
                        d.op(cx, &msg("a fresh message", b))?
                    }
                    A::Old => {
                        // every message seen so far, through the original or this handle
                        let mut all: Vec<u64> = (0..d.m.next_read).collect();
                        all.extend(d.m.ahead.iter());
                        for n in all {
                            let b = s.w.user(n, format!("user {}", n).as_bytes());
                            d.op(cx, &msg("a message read before", b))?;
                        }
                    }
                    A::Write => {
                        let n = d.m.next_write.get();
                        d.op(cx, &Op::User(format!("through {} number {}", i, n).into_bytes()))?
                    }
                    A::Typed => typed(cx, d)?,
                    A::Drain => d.op(cx, &Op::Drain)?,
                    A::Config => d.op(cx, &Op::Config(1))?,
                    A::Connect => d.op(cx, &Op::Connect(None))?,
                    A::Ack => d.op(cx, &Op::Ack(None))?,
                    A::Stranger => d.op(cx, &msg("CONNECT of a stranger", s.stranger.clone()))?,
                    A::Forged => {
                        d.op(cx, &msg("ACK with the stranger's signature", s.forged.clone()))?;
                        d.op(cx, &msg("ACK with a wrong challenge", s.wrong.clone()))?
                    }
                    A::Clone => {
                        if let Some(e) = d.fork(cx)? {
                            hs[i] = Some(e);
                        }
                    }
                    A::Drop => hs[i] = None,
                    A::ReplayedAck => {
                        d.op(cx, &msg("the ACK again", s.w.ack(None)))?;
                        d.op(cx, &msg("a fresh message", s.w.user(unread(&d.m, 0), b"x")))?;
                        d.op(cx, &Op::User(b"x".to_vec()))?;
                        return d.op(cx, &Op::CloneDrop);
                    }
                    A::ReplayedConnect => {
                        d.op(cx, &msg("the CONNECT again", s.w.connect(None)))?;
                        d.op(cx, &msg("a fresh message", s.w.user(unread(&d.m, 0), b"x")))?;
                        d.op(cx, &Op::User(b"x".to_vec()))?;
                        return d.op(cx, &Op::CloneDrop);
                    }
                }
            }
            // what is still possible works
            for i in 0..2 {
                if let Some(d) = hs[i].as_mut() {
                    d.op(cx, &Op::User(b"last".to_vec()))?;
                    if i == 0 {
                        let n = unread(&d.m, 0);
                        d.op(cx, &msg("a fresh message", s.w.user(n, b"last")))?;
                        if mode == Mode::Min {
                            d.op(cx, &Op::Drain)?;
                        }
                        for n in log.iter() {
                            d.op(cx, &msg("a message read before", s.w.user(*n, format!("user {}", n).as_bytes())))?;
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

/// Clone attempts at every point of every honest order.
fn attempts(mode: Mode, known: bool, dev: u32) -> Scenario {
    let w = World::std(mode, known, true);
    let honest = Honest::new(&w, 2, 2, true);
    scenario(
        &format!("clone attempts in every honest order, {}", w.name),
        dev,
        &format!("up to {} attempts to clone (dropping the clone, or going on with it), before any step", dev),
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            let fail_at = cx.choose(4);
            let mut n = 0;
            loop {
                loop {
                    match cx.deviate(3) {
                        0 => break,
                        1 => d.op(cx, &Op::CloneDrop)?,
                        _ => d.op(cx, &Op::CloneSwap)?,
                    }
                }
                if d.m.failed {
                    return Ok(());
                }
                let m = honest.menu(&d.m, &p);
                if m.is_empty() {
                    break;
                }
                n += 1;
                if fail_at > 0 && n == fail_at * 2 {
                    d.op(cx, &msg("garbage", vec![0x11; 70]))?;
                    continue;
                }
                let h = m[cx.choose(m.len())];
                honest.apply(cx, &mut d, &mut p, h)?;
            }
            d.op(cx, &Op::CloneSwap)?;
            d.op(cx, &Op::User(b"by the clone".to_vec()))?;
            d.op(cx, &msg("USER", w.user(7, b"for the clone")))
        },
    )
}

/// Many messages through many handles; the replay state of a clone is complete.
fn long(mode: Mode, n: u64, window: u64) -> Scenario {
    let w = World::std(mode, true, false);
    let honest = Honest::new(&w, 0, 0, false);
    scenario(&format!("long sessions, {:?}", mode), 0, &format!("{} messages through up to 5 handles in every rotation pattern; clones with 0, 1, {}, {} and {} messages read ahead", n, window / 2, window - 1, window), move |cx| {
        let mut d = w.drv();
        let mut p = honest.prog();
        honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
        match cx.choose(2) {
            0 => {
                let handles = 1 + cx.choose(5);
                let pattern = cx.choose(4) as u64;
                let mut hs = vec![d];
                for k in 0..handles {
                    let from = if pattern % 2 == 0 { 0 } else { k };
                    hs[from].op(cx, &Op::User(b"before".to_vec()))?;
                    if let Some(e) = hs[from].fork(cx)? {
                        hs.push(e);
                    }
                }
                for i in 0..n {
                    let l = hs.len() as u64;
                    let k = match pattern {
                        0 => i % l,
                        1 => (i / 3) % l,
                        2 => (i * i + i / 2) % l,
                        _ => l - 1 - (i / 50) % l,
                    } as usize;
                    let e = &mut hs[k];
                    e.op(cx, &Op::User(i.to_be_bytes().to_vec()))?;
                    e.emitted.clear();
                }
                Ok(())
            }
            _ => {
                let ahead = [0, 1, window / 2, window - 1, window][cx.choose(5)];
                let base = cx.choose(3) as u64;
                for i in 0..base {
                    d.op(cx, &msg("USER", w.user(i, b"x")))?;
                }
                let list: Vec<u64> = (0..ahead).map(|i| base + 1 + i).collect();
                for &i in &list {
                    d.op(cx, &msg("USER", w.user(i, b"x")))?;
                }
                let mut e = match d.fork(cx)? {
                    Some(e) => e,
                    None => return Ok(()),
                };
                drop(d);
                for i in (0..base).chain(list.iter().cloned()) {
                    e.op(cx, &msg("USER read by the original", w.user(i, b"x")))?;
                }
                if cx.flag() {
                    e.op(cx, &msg("the missing USER", w.user(base, b"y")))?;
                    for i in 0..base + 1 + ahead {
                        e.op(cx, &msg("USER again", w.user(i, b"y")))?;
                    }
                    e.op(cx, &msg("the next USER", w.user(base + 1 + ahead, b"y")))
                } else {
                    e.op(cx, &msg("another USER ahead", w.user(base + 2 + ahead, b"y")))
                }
            }
        }
    })
}

pub fn check() -> Check {
    Check {
        id: "C13",
        level: "model_checking",
        rule: "A session is cloned in every kind of situation (nothing exchanged, messages written, read out of order, held back and not fetched, already cloned) and all sequences of operations over the two handles are executed in lock step with the reference model: reading in order, ahead and again, writing, fetching held back messages, local calls that must be refused, messages a stranger can forge, cloning again and dropping. Every emission is decrypted and its number compared. Clone attempts are inserted at every point of every honest order, with failures.",
        assumptions: &["One handle reads (as the property says); how a failure of one handle affects the other is not specified"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                for k in 0..SETUPS.len() {
                    v.push(two_handles(m, k % 3 == 1, k, if thorough { 4 } else { 3 }, ALL));
                    v.push(two_handles(m, k % 3 == 1, k, if thorough { 6 } else { 4 }, CORE));
                }
                for &known in &[false, true] {
                    v.push(attempts(m, known, if thorough { 2 } else { 1 }));
                }
                v.push(long(m, if thorough { 5000 } else { 600 }, WINDOW as u64));
            }
            v
        },
    }
}
