//! Refused local calls are harmless.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;
use pkstl::MessageFormat;
use serde::ser::{Error, SerializeMap, SerializeSeq, SerializeStruct};
use serde::{Serialize, Serializer};
use std::collections::BTreeMap;
use std::sync::Arc;

/// Values that no format can serialise, failing in different places.
#[derive(Clone, Copy, Debug)]
enum Un {
    AtOnce,
    AfterSome,
    /// after more output than any buffer holds
    AfterMuch,
    InMap,
    Nested,
}
const UNS: [Un; 5] = [Un::AtOnce, Un::AfterSome, Un::AfterMuch, Un::InMap, Un::Nested];
impl Serialize for Un {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Un::AtOnce => Err(S::Error::custom("cannot be serialised")),
            Un::AfterSome => {
                let mut t = s.serialize_struct("X", 2)?;
                t.serialize_field("a", &1u32)?;
                t.serialize_field("b", &Un::AtOnce)?;
                t.end()
            }
            Un::AfterMuch => {
                let mut t = s.serialize_seq(Some(3000))?;
                for i in 0..2999u32 {
                    t.serialize_element(&format!("element number {}", i))?;
                }
                t.serialize_element(&Un::AtOnce)?;
                t.end()
            }
            Un::InMap => {
                let mut t = s.serialize_map(Some(2))?;
                t.serialize_entry("a", "b")?;
                t.serialize_entry("c", &Un::AtOnce)?;
                t.end()
            }
            Un::Nested => Some(vec![("x", Some(Un::AtOnce))]).serialize(s),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Call {
    Connect,
    Ack,
    User,
}
const CALLS: [Call; 3] = [Call::Connect, Call::Ack, Call::User];
fn typed<T: Serialize>(e: &mut Ep, c: Call, t: Option<&T>) -> WOut {
    match &mut e.inner {
        Inner::Cmp(s) => wout(|w| match c {
            Call::Connect => s.write_connect_msg(t, w),
            Call::Ack => s.write_ack_msg(t, w),
            Call::User => s.write(t.unwrap(), w),
        }),
        _ => unreachable!(),
    }
}
fn bad_op<F: Fn(&mut Ep) -> WOut + Send + Sync + 'static>(name: String, f: F) -> Op {
    // names live as long as the process
    Op::Bad(Box::leak(name.into_boxed_str()), Arc::new(f))
}

/// When a call must be refused
#[derive(Clone, Copy, PartialEq, Debug)]
enum When {
    Always,
    ConnectSent,
    AckImpossible,
    NotCompleted,
    Cloned,
}
fn refused(m: &Model, w: When) -> bool {
    match w {
        When::Always => true,
        When::ConnectSent => m.sent_c,
        When::AckImpossible => m.peer.is_none() || m.sent_a,
        When::NotCompleted => !m.success(),
        When::Cloned => m.cloned,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fmt {
    Raw,
    Plain,
    Json,
    Cbor,
    Bincode,
}
fn world(mode: Mode, known: bool, gt: bool, f: Fmt) -> World {
    let mut w = World::std(mode, known, gt);
    w.spec.config.message_format = match f {
        Fmt::Raw => MessageFormat::RawBinary,
        Fmt::Plain => MessageFormat::Utf8PlainText,
        Fmt::Json => MessageFormat::Utf8Json,
        Fmt::Cbor => MessageFormat::Cbor,
        Fmt::Bincode => MessageFormat::Bincode,
    };
    w.name = format!("{}, {:?} format", w.name, f);
    w
}

fn calls(mode: Mode, f: Fmt, all: bool) -> Vec<(When, Op)> {
    let mut v = vec![
        (When::ConnectSent, Op::Connect(None)),
        (When::ConnectSent, Op::Connect(Some(b"refused connect".to_vec()))),
        (When::AckImpossible, Op::Ack(None)),
        (When::AckImpossible, Op::Ack(Some(b"refused ack".to_vec()))),
        (When::NotCompleted, Op::CloneDrop),
    ];
    for i in 0..3 {
        v.push((When::Cloned, Op::Config(i)));
    }
    if mode == Mode::Min {
        return v;
    }
    let formatless = f == Fmt::Raw || f == Fmt::Plain;
    if formatless {
        for &c in &CALLS {
            v.push((When::Always, bad_op(format!("typed {:?} with the {:?} format", c, f), move |e| typed(e, c, Some(&vec![1u8, 2])))));
            if all {
                v.push((When::Always, bad_op(format!("typed {:?} of a text with the {:?} format", c, f), move |e| typed(e, c, Some(&"text")))));
                v.push((When::Always, bad_op(format!("typed {:?} of nothing with the {:?} format", c, f), move |e| typed(e, c, Some(&())))));
            }
        }
    } else {
        for &c in &CALLS {
            for (i, &u) in UNS.iter().enumerate() {
                if all || i == 0 || i == 2 {
                    v.push((When::Always, bad_op(format!("typed {:?} of a value that cannot be serialised ({:?})", c, u), move |e| typed(e, c, Some(&u)))));
                }
            }
            if f == Fmt::Json {
                let mut m = BTreeMap::new();
                m.insert(vec![1u8], 5u8);
                v.push((When::Always, bad_op(format!("typed {:?} of a map JSON cannot express", c), move |e| typed(e, c, Some(&m)))));
            }
        }
        v.push((When::ConnectSent, bad_op("second typed CONNECT".into(), |e| typed(e, Call::Connect, Some(&"again")))));
        v.push((When::AckImpossible, bad_op("refused typed ACK".into(), |e| typed(e, Call::Ack, Some(&"again")))));
    }
    v.push((When::ConnectSent, bad_op("second typed CONNECT without data".into(), |e| typed::<u8>(e, Call::Connect, None))));
    v.push((When::AckImpossible, bad_op("refused typed ACK without data".into(), |e| typed::<u8>(e, Call::Ack, None))));
    v
}

/// What is sent after the session is complete, and that the configuration is still the one of the beginning.
fn tail(cx: &mut Ctx, w: &World, f: Fmt, d: &mut Drv) -> R {
    d.op(cx, &Op::User(b"at the end".to_vec()))?;
    d.op(cx, &msg("USER 20", w.user(20, b"late")))?;
    d.op(cx, &msg("USER 20 again", w.user(20, b"late")))?;
    if w.mode == Mode::Min {
        d.op(cx, &Op::TakeAck)?;
        return d.op(cx, &Op::Drain);
    }
    let tag = match f {
        Fmt::Raw | Fmt::Plain => return Ok(()),
        Fmt::Json => 2,
        Fmt::Cbor => 3,
        Fmt::Bincode => 4,
    };
    cx.step();
    let n = d.m.next_write.get();
    let o = typed(&mut d.ep, Call::User, Some(&300u16));
    let ok = o.res.is_ok()
        && match w.key.open(&o.bytes).as_ref().map(|c| parse(c)) {
            Some(Ok(Parsed::User { nonce, body, hash_ok: true })) => {
                nonce == n && inflate(&body).map_or(false, |b| b.len() > 4 && b[..4] == [0, 0, 0, tag])
            }
            _ => false,
        };
    d.m.next_write.set(n + 1);
    cx.check(ok, "bad-emission", || format!("a typed message at the end is not number {} in {:?}: {:?}, {} bytes", n, f, o.res, o.bytes.len()))
}

/// Refused calls inserted anywhere in all orders of an honest session.
fn inserted(w: World, f: Fmt, users: usize, dev: u32, all: bool) -> Scenario {
    let list = calls(w.mode, f, all);
    let h = Honest::new(&w, users, 1, true);
    scenario(
        &format!("up to {} refused calls inserted, {} incoming messages, {}", dev, users, w.name),
        dev,
        &format!("all honest orders; {} kinds of refused calls before, between and after the steps; clone at the end", list.len()),
        move |cx| {
            let mut d = w.drv();
            let mut p = h.prog();
            let mut cloned = false;
            loop {
                // refused calls
                loop {
                    let may: Vec<usize> = (0..list.len()).filter(|&i| refused(&d.m, list[i].0)).collect();
                    match cx.deviate(may.len() + 1) {
                        0 => break,
                        k => {
                            cx.count("refused calls");
                            d.op(cx, &list[may[k - 1]].1)?
                        }
                    }
                }
                let menu = h.menu(&d.m, &p);
                if menu.is_empty() {
                    if cloned || !d.m.success() {
                        break;
                    }
                    cloned = true;
                    // still possible
                    d.op(cx, &Op::Config(1))?;
                    d.op(cx, &Op::CloneSwap)?;
                } else {
                    let x = *cx.pick_from(&menu);
                    h.apply(cx, &mut d, &mut p, x)?;
                }
            }
            tail(cx, &w, f, &mut d)
        },
    )
}

/// One kind of refused call at every position where it must be refused, several times over.
fn everywhere(w: World, f: Fmt, users: usize) -> Scenario {
    let list = calls(w.mode, f, true);
    let h = Honest::new(&w, users, 2, true);
    scenario(
        &format!("one refused call at every position, {}", w.name),
        0,
        &format!("all honest orders x {} kinds of refused calls (and all together), 1 or 3 times at each position where they must be refused", list.len()),
        move |cx| {
            let k = cx.choose(list.len() + 1);
            let times = *cx.pick_from(&[1, 3]);
            let mut d = w.drv();
            let mut p = h.prog();
            let mut cloned = false;
            loop {
                for i in 0..list.len() {
                    if (k == i || k == list.len()) && refused(&d.m, list[i].0) {
                        for _ in 0..times {
                            cx.count("refused calls");
                            d.op(cx, &list[i].1)?;
                        }
                    }
                }
                let menu = h.menu(&d.m, &p);
                if menu.is_empty() {
                    if cloned || !d.m.success() {
                        break;
                    }
                    cloned = true;
                    // still possible
                    d.op(cx, &Op::Config(1))?;
                    d.op(cx, &Op::CloneSwap)?;
                } else {
                    let x = *cx.pick_from(&menu);
                    h.apply(cx, &mut d, &mut p, x)?;
                }
            }
            tail(cx, &w, f, &mut d)
        },
    )
}

/// Refused calls between messages of an attacker: what is refused anyway must not change what comes after.
fn attacked(w: World, f: Fmt, dev: u32) -> Scenario {
    let list = calls(w.mode, f, false);
    let h = Honest::new(&w, 1, 1, false);
    let x = Id::new(seed(99));
    let xp = Peer::new(&x, seed(98));
    let mut forged = w.connect(Some(b"forged"));
    let l = forged.len();
    forged[l - 1] ^= 1;
    let mut fa = w.ack(Some(b"forged"));
    let l = fa.len();
    fa[l - 1] ^= 1;
    let attack = vec![
        msg("forged CONNECT", forged),
        msg("CONNECT reflected", {
            let id = &w.spec.id;
            id.signed(frame(T_CONNECT, &connect_headers(&w.epk, &SIG_ALGO, &id.pk), &[]))
        }),
        msg("ACK for another session", w.p.ack(&xp.epk, &[])),
        msg("forged ACK", fa),
    ];
    scenario(
        &format!("refused calls and refused messages, up to {} in all, {}", dev, w.name),
        dev,
        &format!("all honest orders; {} kinds of refused calls and {} refused messages", list.len(), attack.len()),
        move |cx| {
            let mut d = w.drv();
            let mut p = h.prog();
            loop {
                loop {
                    let may: Vec<usize> = (0..list.len()).filter(|&i| refused(&d.m, list[i].0)).collect();
                    // a forged ACK is refused only when the key of the peer is known
                    let n = attack.len() - d.m.known_key().is_none() as usize;
                    match cx.deviate(may.len() + n + 1) {
                        0 => break,
                        k if k <= n => d.op(cx, &attack[k - 1])?,
                        k => d.op(cx, &list[may[k - 1 - n]].1)?,
                    }
                }
                let menu = h.menu(&d.m, &p);
                if menu.is_empty() {
                    break;
                }
                let x = *cx.pick_from(&menu);
                h.apply(cx, &mut d, &mut p, x)?;
            }
            d.op(cx, &Op::Config(2))?;
            tail(cx, &w, f, &mut d)
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C19",
        level: "model_checking",
        rule: "All orders of an honest session of one endpoint with refused calls (second CONNECT, ACK before the peer's CONNECT or a second time, clone before completion, configuration change after cloning, typed writes with a format that has none or a value that cannot be serialised, failing early or after much output) inserted at every position, alone, in pairs, repeated, and together with refused messages of an attacker. Each call must return an error and write nothing; the endpoint runs in lock step with a reference model that ignores the refused calls, so that every later difference (results, message numbers, contents, configuration) is a violation.",
        assumptions: &["The honest orders are those of one endpoint with a reference peer"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &k in &[false, true] {
                v.push(inserted(world(Mode::Min, k, true, Fmt::Raw), Fmt::Raw, 2, if thorough { 3 } else { 2 }, true));
                v.push(everywhere(world(Mode::Min, k, false, Fmt::Raw), Fmt::Raw, 2));
                v.push(attacked(world(Mode::Min, k, true, Fmt::Raw), Fmt::Raw, if thorough { 3 } else { 2 }));
            }
            for &f in &[Fmt::Raw, Fmt::Plain, Fmt::Json, Fmt::Cbor, Fmt::Bincode] {
                let k = f == Fmt::Plain || f == Fmt::Cbor;
                v.push(inserted(world(Mode::Cmp, k, true, f), f, 2, 1, true));
                let big = thorough || f == Fmt::Raw || f == Fmt::Json;
                v.push(inserted(world(Mode::Cmp, !k, true, f), f, big as usize, 2, thorough));
                v.push(everywhere(world(Mode::Cmp, k, false, f), f, 2));
                v.push(attacked(world(Mode::Cmp, !k, true, f), f, if thorough { 2 } else { 1 }));
                if thorough {
                    v.push(inserted(world(Mode::Cmp, k, true, f), f, 2, 2, true));
                    v.push(inserted(world(Mode::Cmp, !k, true, f), f, 0, 3, false));
                }
            }
            v
        },
    }
}
