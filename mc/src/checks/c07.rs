//! A failed connection stays failed.
use super::*;
use crate::engine::{scenario, Stop};
use crate::ep::*;
use crate::refp::*;
use std::io::{self, BufWriter, Write};

struct Broken;
impl Write for Broken {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        Err(io::Error::new(io::ErrorKind::Other, "broken output"))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Cause {
    In(Op),
    LocalTooEarly,
    Overrun(Vec<Op>),
    OutConnect,
    OutAck,
    OutUser,
}

fn causes(w: &World, thorough: bool) -> Vec<(&'static str, Cause)> {
    let mut v: Vec<(&'static str, Cause)> = vec![];
    let mut i = |n: &'static str, b: Vec<u8>| v.push((n, Cause::In(msg(n, b))));
    i("garbage of 40 bytes", (0..40u8).map(|x| x.wrapping_mul(7).wrapping_add(3)).collect());
    i("empty data", vec![]);
    i("one byte", vec![0xE2]);
    i("magic value alone", MAGIC.to_vec());
    let mut b = w.connect(None);
    b[7] = 2;
    i("unsupported version", b);
    i("unknown type", w.p.id.signed(frame(3, &[0; 64], &[])));
    let mut b = w.connect(None);
    b.truncate(60);
    i("truncated CONNECT", b);
    let mut h = connect_headers(&w.p.epk, &SIG_ALGO, &w.p.id.pk);
    h[35] = 1;
    i("unsupported signature algorithm", w.p.id.signed(frame(T_CONNECT, &h, &[])));
    i("CONNECT of the peer", w.connect(Some(b"second")));
    i("ACK of the peer", w.ack(Some(b"second")));
    i("USER 0", w.user(0, b"early"));
    i("USER 7", w.user(7, b"early"));
    i("clear USER", user_clear(0, &w.wrap(Some(b"clear"))));
    i("encrypted CONNECT", w.key.seal(&w.connect(None)));
    i("encrypted ACK", w.key.seal(&w.ack(None)));
    i("encrypted garbage", w.key.seal(b"garbage which is long enough to be a message, is it not?"));
    let mut u = w.user(5, b"tampered");
    let l = u.len();
    u[l / 2] ^= 1;
    i("undecryptable USER", u);
    let p2 = Peer::new(&w.p.id, seed(77));
    i("USER of another session", p2.key(&w.epk).user(0, &w.wrap(Some(b"x"))));
    for (k, e) in low_order().into_iter().enumerate() {
        if k < 2 || thorough {
            i("CONNECT with an unusable ephemeral key", w.p.id.signed(frame(
                T_CONNECT,
                &connect_headers(&e, &SIG_ALGO, &w.p.id.pk),
                &[],
            )));
        }
    }
    v.push(("local message written", Cause::LocalTooEarly));
    v.push(("output error while writing CONNECT", Cause::OutConnect));
    v.push(("output error while writing ACK", Cause::OutAck));
    v.push(("output error while writing USER", Cause::OutUser));
    v
}

/// After the failure: nothing is delivered, emitted or cloned any more.
fn aftermath(w: &World) -> Vec<Op> {
    let mut v = vec![
        msg("CONNECT", w.connect(None)),
        msg("ACK", w.ack(None)),
        msg("USER 0", w.user(0, b"zero")),
        msg("USER 1", w.user(1, b"one")),
        msg("USER 9", w.user(9, b"nine")),
        msg("garbage", vec![1; 30]),
        Op::Connect(None),
        Op::Ack(Some(b"x".to_vec())),
        Op::User(b"out".to_vec()),
        Op::CloneSwap,
    ];
    if w.mode == Mode::Min {
        v.push(Op::TakeAck);
        v.push(Op::Drain);
    }
    v
}

fn fail_now(cx: &mut Ctx, d: &mut Drv, c: &Cause) -> R {
    let mut broken = |d: &mut Drv, what: &str, f: &dyn Fn(&mut Ep, &mut BufWriter<Broken>) -> pkstl::Result<()>| {
        let mut w = BufWriter::with_capacity(0, Broken);
        let r = crate::sut::call(|| f(&mut d.ep, &mut w));
        cx.step();
        cx.log(|| format!("{} on a broken output -> {:?}", what, r));
        d.m.failed = true;
        match r {
            Ok(Err(_)) => Ok(()),
            Ok(Ok(())) => cx.report("output-error-hidden", || format!("{} succeeds on a broken output", what)),
            Err(p) => cx.report("panic", || format!("{} panics on a broken output: {}", what, p)),
        }
    };
    match c {
        Cause::In(op) => d.op(cx, op)?,
        Cause::LocalTooEarly => d.op(cx, &Op::User(b"early".to_vec()))?,
        Cause::Overrun(v) => {
            for op in v {
                d.op(cx, op)?;
            }
        }
        Cause::OutConnect => {
            if d.m.sent_c || d.m.mode == Mode::Min {
                return Err(Stop::Prune);
            }
            broken(d, "writing CONNECT", &|e, w| match &mut e.inner {
                Inner::Cmp(c) => c.write_connect_msg_bin(None, w),
                Inner::Min(_) => unreachable!(),
            })?
        }
        Cause::OutAck => {
            if d.m.sent_a || d.m.peer.is_none() || d.m.mode == Mode::Min {
                return Err(Stop::Prune);
            }
            broken(d, "writing ACK", &|e, w| match &mut e.inner {
                Inner::Cmp(c) => c.write_ack_msg_bin(None, w),
                Inner::Min(_) => unreachable!(),
            })?
        }
        Cause::OutUser => {
            if !d.m.success() {
                return Err(Stop::Prune);
            }
            broken(d, "writing USER", &|e, w| match &mut e.inner {
                Inner::Cmp(c) => c.write_bin(b"data", w),
                Inner::Min(c) => c.write_message(b"data", w),
            })?
        }
    }
    // only causes that fail the connection in this stage are of interest
    if d.m.failed {
        Ok(())
    } else {
        Err(Stop::Prune)
    }
}

fn stages(mode: Mode, pinned: bool, depth: usize, thorough: bool) -> Scenario {
    let w = World::std(mode, pinned, true);
    let honest = Honest::new(&w, 3, 1, true);
    let causes = causes(&w, thorough);
    let after = aftermath(&w);
    scenario(
        &format!("stage x cause x aftermath, {}", w.name),
        0,
        &format!("{} stages, {} causes, every sequence of {} later calls out of {}", STAGES.len(), causes.len(), depth, after.len()),
        move |cx| {
            let st = cx.pick_from(STAGES);
            let (name, cause) = cx.pick_from(&causes);
            let mut d = w.drv();
            let mut p = honest.prog();
            cx.log(|| format!("-- stage: {}; cause: {}", st.name, name));
            honest.to_stage(cx, &mut d, &mut p, st)?;
            fail_now(cx, &mut d, cause)?;
            cx.count(name);
            for _ in 0..depth {
                let op = cx_pick(cx, &after);
                d.op(cx, op)?;
            }
            Ok(())
        },
    )
}
fn cx_pick<'t>(cx: &mut Ctx, v: &'t [Op]) -> &'t Op {
    let i = cx.choose(v.len());
    &v[i]
}

/// Failure at any point of any honest order.
fn any_order(mode: Mode, pinned: bool, thorough: bool) -> Scenario {
    let w = World::std(mode, pinned, false);
    let honest = Honest::new(&w, 2, 1, false);
    let causes = causes(&w, false);
    let after = aftermath(&w);
    let depth = if thorough { 2 } else { 1 };
    scenario(
        &format!("any point of any honest order, {}", w.name),
        0,
        "all orders of own steps and deliveries (2 messages in, 1 out), the failure at any point, then all remaining honest steps and further calls",
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            loop {
                if cx.flag() {
                    break;
                }
                let m = honest.menu(&d.m, &p);
                if m.is_empty() {
                    break;
                }
                let h = m[cx.choose(m.len())];
                honest.apply(cx, &mut d, &mut p, h)?;
            }
            let (name, cause) = cx.pick_from(&causes);
            cx.log(|| format!("-- cause: {}", name));
            fail_now(cx, &mut d, cause)?;
            cx.count(name);
            for _ in 0..depth {
                let op = cx_pick(cx, &after);
                d.op(cx, op)?;
            }
            // everything still under way arrives, every step is tried
            for op in &[&honest.own_c, &honest.c, &honest.own_a, &honest.a] {
                d.op(cx, op)?;
            }
            for op in honest.users.iter().chain(&honest.outs) {
                d.op(cx, op)?;
            }
            d.op(cx, &Op::TakeAck)?;
            d.op(cx, &Op::Drain)?;
            d.op(cx, &Op::CloneDrop)
        },
    )
}

fn overrun(mode: Mode) -> Scenario {
    let w = World::std(mode, true, true);
    let honest = Honest::new(&w, 3, 1, true);
    let ahead: Vec<Op> = (1..=WINDOW as u64 + 1).map(|n| msg("USER ahead", w.user(n, &n.to_be_bytes()))).collect();
    let cause = Cause::Overrun(ahead);
    let after = aftermath(&w);
    scenario(
        &format!("overrun of the reordering window, {:?}", mode),
        0,
        "message 0 missing, 10,001 messages received, then every single later call",
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
            let op = cx_pick(cx, &after);
            fail_now(cx, &mut d, &cause)?;
            cx.count("overrun");
            d.op(cx, op)?;
            d.op(cx, &after[2])
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C07",
        level: "model_checking",
        rule: "For every stage of the negotiation and every cause of failure that applies there, every sequence of later calls (genuine traffic, local calls, clone, drain) is executed; any delivery, emission or clone is a violation.",
        assumptions: &["The list of causes is the one of the property; each is represented by one or more concrete inputs"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                for &p in &[false, true] {
                    v.push(stages(m, p, if thorough { 3 } else { 2 }, thorough));
                    v.push(any_order(m, p, thorough));
                }
                v.push(overrun(m));
            }
            v
        },
    }
}
