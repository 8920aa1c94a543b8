//! Endpoints, their clones and different sessions used by several threads at the same time.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::race::{walk, Plan};
use crate::refp::*;

/// What a thread does with its handle.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    Write,
    Twice,
    Large,
    Next,
    Ahead,
    Replay,
    CloneWrites,
    WriteClone,
    Config,
    Broken,
    DropIt,
    WriteDrop,
}
use Act::*;
const ACTS: &[Act] =
    &[Write, Twice, Large, Next, Ahead, Replay, CloneWrites, WriteClone, Config, Broken, DropIt, WriteDrop];

/// Those that take numbers, for two preemptions.
const WRITERS: &[Act] = &[Write, CloneWrites, WriteClone, WriteDrop];

/// What the calls of a thread gave, in their order.
#[derive(Clone, PartialEq, Eq, Debug)]
enum Got {
    Emitted(Vec<u8>),
    Events(Vec<Ev>),
    Fine,
    Refused,
    Panic(String),
}
struct Out {
    got: Vec<Got>,
    e: Option<Ep>,
}
fn w(g: &mut Vec<Got>, o: WOut) {
    g.push(match o.res {
        Ok(()) => Got::Emitted(o.bytes),
        Err(Fault::Panic(p)) => Got::Panic(p),
        Err(_) => Got::Refused,
    })
}
fn r<T>(g: &mut Vec<Got>, o: Res<T>, f: impl FnOnce(T) -> Got) {
    g.push(match o {
        Ok(t) => f(t),
        Err(Fault::Panic(p)) => Got::Panic(p),
        Err(_) => Got::Refused,
    })
}
/// `k` tells the threads apart; `m`: the next message to this handle, the one after the next, an old one.
fn act(a: Act, k: u8, mut e: Ep, m: &[Vec<u8>; 3]) -> Out {
    let mut g = vec![];
    let text = [b'm', b'0' + k];
    let mut keep = true;
    match a {
        Write => w(&mut g, e.user(&text)),
        Twice => {
            w(&mut g, e.user(&text));
            w(&mut g, e.user(b"again"));
        }
        Large => w(&mut g, e.user(&[text[1]; 9_000])),
        Next => r(&mut g, e.recv(&m[0]), Got::Events),
        Ahead => r(&mut g, e.recv(&m[1]), Got::Events),
        Replay => r(&mut g, e.recv(&m[2]), Got::Events),
        CloneWrites => match e.try_clone() {
            Ok(mut c) => w(&mut g, c.user(&text)),
            o => r(&mut g, o, |_| Got::Fine),
        },
        WriteClone => {
            w(&mut g, e.user(&text));
            match e.try_clone() {
                Ok(c) => e = c,
                o => r(&mut g, o, |_| Got::Fine),
            }
        }
        Config => r(&mut g, e.set_config(config(1)), |_| Got::Fine),
        Broken => r(&mut g, e.write_broken('U', &text, 3), |_| Got::Fine),
        DropIt => keep = false,
        WriteDrop => {
            w(&mut g, e.user(&text));
            keep = false
        }
    }
    Out { got: g, e: if keep { Some(e) } else { None } }
}
/// The rest of the session of a handle.
fn rest(o: Out, m: &[Vec<u8>; 3]) -> Vec<Got> {
    let mut g = o.got;
    if let Some(mut e) = o.e {
        w(&mut g, e.user(b"later"));
        r(&mut g, e.recv(&m[0]), Got::Events);
        r(&mut g, e.recv(&m[1]), Got::Events);
        w(&mut g, e.user(b"end"));
    }
    g
}

/// Two handles of one session, completed; `before`: messages were written and read by both.
fn handles(wd: &World, before: bool, orig: bool) -> (Ep, Ep, Vec<Got>) {
    let mut e = wd.spec.build();
    let mut g = vec![];
    let _ = e.connect(None);
    let _ = e.recv(&wd.connect(None));
    let _ = e.ack(None);
    let _ = e.recv(&wd.ack(None));
    let _ = e.recv(&wd.user(0, b"old"));
    let mut c = e.try_clone().expect("a completed session can be cloned");
    if before {
        for _ in 0..2 {
            w(&mut g, e.user(b"first"));
            w(&mut g, c.user(b"second"));
        }
    }
    if orig {
        (e, c, g)
    } else {
        (c, e, g)
    }
}
/// Emissions with their numbers taken out.
fn normal(wd: &World, g: &[Got], numbers: &mut Vec<u64>) -> Vec<Result<Vec<u8>, Got>> {
    g.iter()
        .map(|x| match x {
            Got::Emitted(b) => match wd.key.open(b).as_ref().map(|c| parse(c)) {
                Some(Ok(Parsed::User { nonce, body, hash_ok: true })) => {
                    numbers.push(nonce);
                    Ok(unwrap(wd.mode, &body).flatten().unwrap_or_default())
                }
                _ => Err(x.clone()),
            },
            _ => Err(x.clone()),
        })
        .collect()
}
fn messages(wd: &World) -> [Vec<u8>; 3] {
    [wd.user(1, b"next"), wd.user(2, b"ahead"), wd.user(0, b"old")]
}
fn show_got(g: &[Result<Vec<u8>, Got>]) -> String {
    let v: Vec<String> = g
        .iter()
        .map(|x| match x {
            Ok(d) => format!("message {:?}", String::from_utf8_lossy(&d[..d.len().min(12)])),
            Err(Got::Emitted(b)) => format!("{} unreadable bytes", b.len()),
            Err(Got::Events(e)) => show(e),
            Err(x) => format!("{:?}", x),
        })
        .collect();
    v.join(", ")
}

fn race_handles(wd: World, a: Act, before: bool, orig: bool, share: (u64, u64), everywhere: bool, width: usize) -> i32 {
    let twice = width > 0;
    let acts = if twice { &WRITERS[..width] } else { ACTS };
    let wd: &'static World = Box::leak(Box::new(wd));
    let m: &'static [Vec<u8>; 3] = Box::leak(Box::new(messages(wd)));
    // one after the other: what each thread gets does not depend on the other one
    let (x, y, _) = handles(wd, before, orig);
    drop(y);
    let want_a = normal(wd, &rest(act(a, 1, x, m), m), &mut vec![]);
    let want_b: Vec<_> = acts
        .iter()
        .map(|&b| {
            let (x, y, _) = handles(wd, before, orig);
            drop(x);
            normal(wd, &rest(act(b, 2, y, m), m), &mut vec![])
        })
        .collect();
    let (x, y, g0) = handles(wd, before, orig);
    // each copy of the process takes it once
    let y: &'static mut Option<Ep> = Box::leak(Box::new(Some(y)));
    let y = y as *mut Option<Ep>;
    let job = |b: Act| -> Box<dyn FnOnce() -> Out> { Box::new(move || act(b, 2, unsafe { (*y).take().unwrap() }, m)) };
    walk(
        Plan {
            a: Box::new(move || act(a, 1, x, m)),
            b: acts.iter().map(|&b| job(b)).collect(),
            judge: Box::new(move |k, x: Out, y: Out| {
                let (ga, gb) = (rest(x, m), rest(y, m));
                let mut n = vec![];
                normal(wd, &g0, &mut n);
                let got = (normal(wd, &ga, &mut n), normal(wd, &gb, &mut n));
                if got.0 != want_a {
                    return Err(format!("{:?} gives {} instead of {} beside {:?}", a, show_got(&got.0), show_got(&want_a), acts[k]));
                }
                if got.1 != want_b[k] {
                    return Err(format!("{:?} gives {} instead of {} beside {:?}", acts[k], show_got(&got.1), show_got(&want_b[k]), a));
                }
                let all = n.len();
                let list = format!("{:?}", n);
                n.sort();
                n.dedup();
                if n.len() < all {
                    return Err(format!("{:?} and {:?}: two messages of the session carry the same number: {}", a, acts[k], list));
                }
                Ok(())
            }),
        },
        share,
        everywhere,
        twice,
    )
}

// ---------------------------------------------------------------- different sessions
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op2 {
    Create,
    Connect,
    RecvConnect,
    Ack,
    RecvAck,
    User,
    RecvUser,
    Held,
    Refused,
    Clone,
    Fail,
}
const OPS: &[Op2] = &[
    Op2::Create,
    Op2::Connect,
    Op2::RecvConnect,
    Op2::Ack,
    Op2::RecvAck,
    Op2::User,
    Op2::RecvUser,
    Op2::Held,
    Op2::Refused,
    Op2::Clone,
    Op2::Fail,
];
/// Position of an operation in the session.
fn stage_of(o: Op2) -> usize {
    match o {
        Op2::Create => 0,
        Op2::Connect => 1,
        Op2::RecvConnect => 2,
        Op2::Ack => 3,
        Op2::Held | Op2::RecvAck => 4,
        _ => 5,
    }
}
struct Sess {
    e: Option<Ep>,
    got: Vec<Got>,
}
/// A setting with the messages of the peer.
struct Set {
    w: World,
    connect: Vec<u8>,
    ack: Vec<u8>,
    users: Vec<Vec<u8>>,
    bad: Vec<u8>,
}
impl Set {
    fn new(w: World) -> Set {
        Set {
            connect: w.connect(Some(b"peer")),
            ack: w.ack(Some(b"peer ack")),
            users: (0..3).map(|i| w.user(i, &[b'i', i as u8])).collect(),
            bad: w.key.seal(&[7; 70]),
            w,
        }
    }
}
fn one(q: &Set, s: &mut Sess, o: Op2) {
    let g = &mut s.got;
    if o == Op2::Create {
        s.e = Some(q.w.spec.build());
        return;
    }
    let e = s.e.as_mut().unwrap();
    match o {
        Op2::Create => (),
        Op2::Connect => w(g, e.connect(Some(b"c"))),
        Op2::RecvConnect => r(g, e.recv(&q.connect), Got::Events),
        Op2::Ack => w(g, e.ack(Some(b"a"))),
        Op2::RecvAck => r(g, e.recv(&q.ack), Got::Events),
        Op2::User => w(g, e.user(b"out")),
        Op2::RecvUser => r(g, e.recv(&q.users[0]), Got::Events),
        Op2::Held => r(g, e.recv(&q.users[1]), Got::Events),
        Op2::Refused => r(g, e.recv(&q.bad), Got::Events),
        Op2::Clone => match e.try_clone() {
            Ok(c) => s.e = Some(c),
            o => r(g, o, |_| Got::Fine),
        },
        Op2::Fail => {
            r(g, e.recv(&q.connect), Got::Events);
            r(g, e.write_broken('U', b"x", 3), |_| Got::Fine);
        }
    }
}
fn upto(wd: &Set, o: Op2) -> Sess {
    let mut s = Sess { e: None, got: vec![] };
    for &x in &[Op2::Create, Op2::Connect, Op2::RecvConnect, Op2::Ack, Op2::RecvAck][..stage_of(o)] {
        one(wd, &mut s, x);
    }
    s
}
fn finish(wd: &Set, s: &mut Sess, o: Op2) {
    let from = match o {
        Op2::Held => 4,
        o => (stage_of(o) + 1).min(5),
    };
    for &x in &[Op2::Create, Op2::Connect, Op2::RecvConnect, Op2::Ack, Op2::RecvAck][from..] {
        one(wd, s, x);
    }
    if s.e.as_ref().unwrap().mode() == Mode::Min {
        r(&mut s.got, s.e.as_mut().unwrap().drain(), Got::Events);
    }
    one(wd, s, Op2::User);
    r(&mut s.got, s.e.as_mut().unwrap().recv(&wd.users[2]), Got::Events);
}
fn worlds(ma: Mode, mb: Mode, same: bool) -> [Set; 2] {
    let mk = |mode: Mode, k: u8| Set::new(World::new(mode, k == 1, seed(31 + k), seed(41 + k)));
    [mk(ma, 0), mk(mb, if same { 0 } else { 1 })]
}
fn race_sessions(ws: [Set; 2], a: Op2, share: (u64, u64), everywhere: bool) -> i32 {
    let ws: &'static [Set; 2] = Box::leak(Box::new(ws));
    let alone = |k: usize, o: Op2| {
        let mut s = upto(&ws[k], o);
        one(&ws[k], &mut s, o);
        finish(&ws[k], &mut s, o);
        s.got
    };
    let want_a = alone(0, a);
    let want_b: Vec<_> = OPS.iter().map(|&b| alone(1, b)).collect();
    let mut x = upto(&ws[0], a);
    let job = |b: Op2| -> Box<dyn FnOnce() -> Sess> {
        let mut y = upto(&ws[1], b);
        Box::new(move || {
            one(&ws[1], &mut y, b);
            y
        })
    };
    walk(
        Plan {
            a: Box::new(move || {
                one(&ws[0], &mut x, a);
                x
            }),
            b: OPS.iter().map(|&b| job(b)).collect(),
            judge: Box::new(move |k, mut x: Sess, mut y: Sess| {
                let b = OPS[k];
                finish(&ws[0], &mut x, a);
                finish(&ws[1], &mut y, b);
                for (got, want, o) in vec![(&x.got, &want_a, a), (&y.got, &want_b[k], b)] {
                    if got != want {
                        let i = got.iter().zip(want.iter()).position(|(g, w)| g != w).unwrap_or(0);
                        return Err(format!(
                            "{:?} in one session and {:?} in the other: result {} of the session of {:?} is {}, and {} when it is alone",
                            a,
                            b,
                            i,
                            o,
                            show_got(&got[i..].iter().take(1).cloned().map(Err).collect::<Vec<_>>()),
                            show_got(&want[i..].iter().take(1).cloned().map(Err).collect::<Vec<_>>())
                        ));
                    }
                }
                Ok(())
            }),
        },
        share,
        everywhere,
        false,
    )
}

// ---------------------------------------------------------------- the process that is copied
/// `mc race KIND ..numbers`
pub fn race(args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| ()));
    let n: Vec<usize> = args[1..].iter().map(|x| x.parse().unwrap()).collect();
    let share = (n[0] as u64, n[1] as u64);
    let every = n[2] == 1;
    match &args[0][..] {
        "handles" => race_handles(World::std(MODES[n[3]], false, true), ACTS[n[4]], n[5] == 1, n[6] == 1, share, every, n[7]),
        _ => race_sessions(worlds(MODES[n[3]], MODES[n[4]], n[6] == 1), OPS[n[5]], share, every),
    }
}
/// Threads that wait for each other cost much time, and have been reported.
static STUCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn run(cx: &mut Ctx, kind: &str, n: &[usize]) -> R {
    use std::sync::atomic::Ordering::SeqCst;
    if STUCK.load(SeqCst) {
        return Ok(());
    }
    let exe = std::env::current_exe().expect("own binary");
    let out = std::process::Command::new(exe)
        .arg("race")
        // one instruction for every byte would be stepped
        .env("GLIBC_TUNABLES", "glibc.cpu.x86_rep_stosb_threshold=1000000000:glibc.cpu.x86_rep_movsb_threshold=1000000000")
        .arg(kind)
        .args(n.iter().map(|x| x.to_string()))
        .output()
        .expect("the process that is copied");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    cx.log(|| format!("{} {:?}: {}", kind, n, text.trim()));
    if let Some(l) = text.lines().find(|l| l.starts_with("V ")) {
        if l.ends_with("do not return") {
            STUCK.store(true, SeqCst);
        }
        return cx.report("preempted", || l[2..].to_string());
    }
    let ok: Option<Vec<u64>> = text
        .lines()
        .find(|l| l.starts_with("OK "))
        .map(|l| l[3..].split(' ').map(|x| x.parse().unwrap()).collect());
    match ok {
        Some(v) => {
            cx.count_n("instructions executed one by one", v[0]);
            cx.count_n("executions with a preemption", v[2]);
            cx.count_n("times the other thread had to wait", v[3]);
            for _ in 0..v[2] {
                cx.step();
            }
            Ok(())
        }
        None => panic!("{} {:?}: {:?} {} {}", kind, n, out.status, text, String::from_utf8_lossy(&out.stderr)),
    }
}

pub fn check() -> Check {
    Check {
        id: "C22",
        level: "exploration",
        rule: "Two threads on the machine code of the library: one is stepped through its operation, before every instruction the process is copied and in the copy the other thread runs its operation to the end before the first goes on. One execution of the explorer steps one operation; its transitions are the copies, i.e. complete executions of a pair of operations with a preemption at one instruction.",
        assumptions: &["One preemption, in which the other thread runs its whole operation (unless it waits for the first)", "The allocator and the crates the library depends on are not preempted; in the quick tier preemptions before instructions that touch only memory of the thread or registers are left out, since they are the same as preemptions after them", "Sequentially consistent memory: reordering by the processor is not explored"],
        single_thread: false,
        scenarios: |thorough| {
            let every = if thorough { 1 } else { 0 };
            let shares = if thorough { 8 } else { 1 };
            let mut v = vec![];
            for (mi, &mode) in MODES.iter().enumerate() {
                v.push(scenario(
                    &format!("two handles of a session, {:?}", mode),
                    0,
                    &format!("every pair of {} operations on the original and a clone, either stepped, with and without earlier messages", ACTS.len()),
                    move |cx| {
                        let a = cx.choose(ACTS.len());
                        let before = cx.choose(2);
                        let orig = cx.choose(2);
                        let share = cx.choose(shares);
                        run(cx, "handles", &[share, shares, every, mi, a, before, orig, 0])
                    },
                ));
                if mode == Mode::Cmp && !thorough {
                    continue;
                }
                let width = if !thorough { 1 } else if mode == Mode::Min { WRITERS.len() } else { 2 };
                let shares = if thorough { 16 } else { 8 };
                v.push(scenario(
                    &format!("two handles of a session, two preemptions, {:?}", mode),
                    0,
                    &format!("every pair of the operations {:?}; each is stopped before each of its instructions", &WRITERS[..width]),
                    move |cx| {
                        let a = *cx.pick_from(&WRITERS[..width]);
                        let orig = cx.choose(if thorough { 2 } else { 1 });
                        let share = cx.choose(shares);
                        let a = ACTS.iter().position(|&x| x == a).unwrap();
                        run(cx, "handles", &[share, shares, 0, mi, a, 0, orig, width])
                    },
                ));
            }
            for (mi, &ma) in MODES.iter().enumerate() {
                for (mj, &mb) in MODES.iter().enumerate() {
                    v.push(scenario(
                        &format!("two sessions, {:?} and {:?}", ma, mb),
                        0,
                        &format!("every pair of {} operations of two sessions, with the same or different keys", OPS.len()),
                        move |cx| {
                            let a = cx.choose(OPS.len());
                            let same = cx.choose(2);
                            let share = cx.choose(shares);
                            run(cx, "sessions", &[share, shares, every, mi, mj, a, same])
                        },
                    ));
                }
            }
            v
        },
    }
}
