//! Delivered user data is exactly what the peer wrote in this session.
use super::*;
use crate::engine::{scenario, Stop};
use crate::ep::*;
use crate::refp::*;
use std::sync::Arc;

type Bytes = Arc<Vec<u8>>;

/// All data the peer writes in the session, for the oracle.
fn genuine(d: &[u8]) -> bool {
    d == b"end" || d.starts_with(b"user ") && d.len() == 6 || d.starts_with(b"BASE")
}
fn base_data(len: usize) -> Vec<u8> {
    let mut v = b"BASE".to_vec();
    while v.len() < len {
        v.push((v.len() * 37 % 251) as u8);
    }
    v
}

fn oracle(cx: &mut Ctx, d: &Drv) -> R {
    for e in &d.delivered {
        if let Ev::User { data } = e {
            cx.check(genuine(data), "undue-delivery", || {
                format!("delivered data the peer did not write in this session: {}", Ev::User { data: data.clone() }.show())
            })?;
        }
    }
    Ok(())
}

/// Tamperings of a genuine user message.
fn structural(w: &World) -> Vec<(String, Bytes)> {
    let mut v: Vec<(String, Bytes)> = vec![];
    let mut add = |n: &str, b: Vec<u8>| v.push((n.to_string(), Arc::new(b)));
    let evil = w.wrap(Some(b"EVIL data which the peer did not write"));
    let g = w.user(1, b"BASEone");
    let h = w.user(2, b"BASEtwo and a longer content");
    // other keys
    let p1 = Peer::new(&w.p.id, seed(77));
    add("of another session of the peer", p1.key(&w.epk).user(0, &evil));
    let x = Peer::new(&Id::new(seed(66)), seed(67));
    add("of a session between the peer and somebody else", session_key(w.p.eph, &x.epk).unwrap().user(0, &evil));
    add("of a session between the endpoint and somebody else", session_key(x.eph, &w.epk).unwrap().user(0, &evil));
    add("of the attacker's own session key", session_key(seed(68), &x.epk).unwrap().user(0, &evil));
    // key material derived wrongly, as a careless implementation might
    add("under an all zero key", SessionKey([0; 48]).user(0, &evil));
    let mut k = w.key.clone();
    k.0[47] ^= 1;
    add("with other associated data", k.user(0, &evil));
    let mut k = w.key.clone();
    k.0[40] ^= 1;
    add("with another nonce", k.user(0, &evil));
    let mut k = w.key.clone();
    k.0[3] ^= 1;
    add("with another key", k.user(0, &evil));
    // clear
    for n in 0..3 {
        add("in clear", user_clear(n, &evil));
        let mut c = user_clear(n, &evil);
        c.extend_from_slice(&[0; 16]);
        add("in clear with a tag's room", c);
        let mut c = user_clear(n, &evil);
        c[16..18].copy_from_slice(&[0, 2]);
        add("in clear as ACK", c);
        add("in clear and signed", w.p.id.signed(frame(T_USER, &u64::to_be_bytes(n), &evil)));
        // not encrypted but without the magic value in front
        let mut c = user_clear(n, &evil);
        c[0] ^= 1;
        add("in clear without magic value", c);
    }
    // genuine encryption, hash wrong: not the peer's doing, but no such data was written either
    let mut c = user_clear(0, &evil);
    let l = c.len();
    c[l - 1] ^= 1;
    add("encrypted with a wrong hash", w.key.seal(&c));
    let mut c = frame(T_USER, &0u64.to_be_bytes(), &evil);
    c.extend_from_slice(&[0; 32]);
    add("encrypted with a zero hash", w.key.seal(&c));
    let mut c = user_clear(0, &evil);
    c[25] ^= 1;
    add("encrypted, renumbered after hashing", w.key.seal(&c));
    // truncation, extension
    for cut in 0..g.len() {
        add("truncated", g[..cut].to_vec());
    }
    for cut in 1..g.len() {
        add("beginning cut off", g[cut..].to_vec());
    }
    for n in &[1usize, 2, 15, 16, 17, 32, 48, 64] {
        for fill in &[0u8, 0xff] {
            let mut c = g.clone();
            c.extend(std::iter::repeat(*fill).take(*n));
            add("extended", c);
            let mut c: Vec<u8> = std::iter::repeat(*fill).take(*n).collect();
            c.extend_from_slice(&g);
            add("preceded by bytes", c);
        }
    }
    let mut c = g.clone();
    c.extend_from_slice(&g);
    add("doubled", c);
    let mut c = g.clone();
    c.extend_from_slice(&h);
    add("two messages in one", c);
    // splices
    for cut in 1..g.len() {
        let mut c = g[..cut].to_vec();
        c.extend_from_slice(&h[cut.min(h.len())..]);
        add("spliced", c);
        let mut c = h[..h.len() - cut.min(h.len() - 1)].to_vec();
        c.extend_from_slice(&g[g.len() - cut..]);
        add("spliced from the end", c);
    }
    // tag manipulations
    let t = g.len() - 16;
    for (n, tag) in &[("zero tag", vec![0u8; 16]), ("tag of another message", h[h.len() - 16..].to_vec()), ("tag of all ones", vec![0xff; 16])] {
        let mut c = g[..t].to_vec();
        c.extend_from_slice(tag);
        add(n, c);
    }
    let mut c = g[..t].to_vec();
    let mut tag = g[t..].to_vec();
    tag.reverse();
    c.extend(tag);
    add("reversed tag", c);
    add("without tag", g[..t].to_vec());
    // rewriting through the reused keystream: known clear text XOR wanted clear text, tag kept
    for n in &[0u64, 1, 2, 9] {
        let clear = user_clear(1, &w.wrap(Some(b"BASEone")));
        let mut body = w.wrap(Some(b"EVILone"));
        body.resize(clear.len() - 26 - 32, 0);
        let want = user_clear(*n, &body);
        if want.len() == clear.len() {
            let mut c = g.clone();
            for i in 0..clear.len() {
                c[i] ^= clear[i] ^ want[i];
            }
            add("rewritten through the keystream, tag kept", c);
        }
    }
    v
}

/// Every stage x every structural tampering x the remaining honest steps in every position of the ACK.
fn tampered(mode: Mode, known: bool, all_bits: bool) -> Scenario {
    let w = World::std(mode, known, true);
    let honest = Honest::new(&w, 3, 1, false);
    let mut list = structural(&w);
    if all_bits {
        let g = w.user(0, b"BASE bits");
        for i in 0..g.len() * 8 {
            let mut c = g.clone();
            c[i / 8] ^= 1 << (i % 8);
            list.push((format!("bit {} flipped", i), Arc::new(c)));
        }
        for i in 0..g.len() {
            let mut c = g.clone();
            c[i] = !c[i];
            list.push((format!("byte {} inverted", i), Arc::new(c)));
        }
    }
    let ops: Vec<Op> = list.iter().map(|(_, b)| Op::Recv("tampered user message", b.clone())).collect();
    scenario(
        &format!("stage x tampering, {}", w.name),
        0,
        &format!("{} stages x {} alterations of genuine user messages, then the rest of the session", STAGES.len(), ops.len()),
        move |cx| {
            let st = cx.pick_from(STAGES);
            let i = cx.choose(ops.len());
            let mut d = w.drv();
            let mut p = honest.prog();
            cx.log(|| format!("-- stage: {}; message: {}", st.name, list[i].0));
            honest.to_stage(cx, &mut d, &mut p, st)?;
            let r = d.op(cx, &ops[i]);
            // the monitor looks at the deliveries, whatever the model made of it
            oracle(cx, &d)?;
            let follow = match r {
                Ok(()) => true,
                Err(Stop::Prune) => false,
                Err(e) => return Err(e),
            };
            if follow {
                honest.finish(cx, &mut d, &mut p)?;
                d.op(cx, &Op::Drain)?;
            } else {
                // without the model: the rest of the session
                for op in &[&honest.own_c, &honest.c, &honest.own_a, &honest.a] {
                    raw(&mut d, op);
                }
                raw(&mut d, &Op::Drain);
            }
            oracle(cx, &d)
        },
    )
}
fn raw(d: &mut Drv, op: &Op) {
    let r = match op {
        Op::Connect(x) => {
            let _ = d.ep.connect(x.as_ref().map(|d| &d[..]));
            Ok(vec![])
        }
        Op::Ack(x) => {
            let _ = d.ep.ack(x.as_ref().map(|d| &d[..]));
            Ok(vec![])
        }
        Op::Recv(_, b) => d.ep.recv(b),
        Op::Drain => d.ep.drain(),
        _ => Ok(vec![]),
    };
    if let Ok(v) = r {
        d.delivered.extend(v);
    }
}

/// Every bit of messages of many sizes (block boundaries of the cipher and of the authenticator).
fn bits(mode: Mode, sizes: Vec<usize>) -> Scenario {
    let w = World::std(mode, true, false);
    let honest = Honest::new(&w, 0, 0, false);
    let msgs: Vec<(usize, Vec<u8>)> = sizes.iter().map(|&s| (s, w.user(0, &base_data(s)))).collect();
    scenario(
        &format!("every bit of messages of many sizes, {:?}", mode),
        0,
        &format!("sizes {:?}, every single bit flipped in a completed session", sizes),
        move |cx| {
            let (_, m) = cx.pick_from(&msgs);
            let byte = cx.choose(m.len());
            let bit = cx.choose(8);
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
            let mut c = m.clone();
            c[byte] ^= 1 << bit;
            d.op(cx, &msg("message with one bit flipped", c))?;
            oracle(cx, &d)?;
            cx.check(d.delivered.len() == 2, "undue-delivery", || "something was delivered".into())
        },
    )
}

/// Sequences of genuine and tampered messages around the completion: only genuine data comes out, in whatever order.
fn mixed(mode: Mode, depth: usize) -> Scenario {
    let w = World::std(mode, true, true);
    let honest = Honest::new(&w, 0, 0, false);
    let p1 = Peer::new(&w.p.id, seed(77));
    let evil = w.wrap(Some(b"EVIL"));
    let clear_hash = {
        let mut c = user_clear(3, &evil);
        let l = c.len();
        c[l - 5] ^= 4;
        w.key.seal(&c)
    };
    let ops = vec![
        msg("USER 0", w.user(0, b"user 0")),
        msg("USER 1", w.user(1, b"user 1")),
        msg("USER 2", w.user(2, b"user 2")),
        msg("ACK", w.ack(None)),
        msg("forged content under number 0, other key", p1.key(&w.epk).user(0, &evil)),
        msg("clear USER", user_clear(1, &evil)),
        msg("encrypted USER 3 with a wrong hash", clear_hash),
        msg("USER 1 with an altered tag", {
            let mut m = w.user(1, b"EVIL1!");
            let l = m.len();
            m[l - 1] ^= 0x80;
            m
        }),
        Op::Drain,
    ];
    scenario(
        &format!("mixed sequences, {:?}", mode),
        0,
        &format!("every sequence of {} steps out of {} after the ACK was sent", depth, ops.len()),
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[7])?;
            for _ in 0..depth {
                let op = &ops[cx.choose(ops.len())];
                let r = d.op(cx, op);
                oracle(cx, &d)?;
                r?;
                if d.m.failed {
                    break;
                }
            }
            d.op(cx, &Op::Drain)?;
            oracle(cx, &d)
        },
    )
}

/// Own messages reflected by the network.
fn reflected(mode: Mode) -> Scenario {
    let w = World::std(mode, true, true);
    let honest = Honest::new(&w, 0, 0, false);
    scenario(
        &format!("reflection, {:?}", mode),
        0,
        "own user messages (up to 3, after up to 3 received ones) reflected to their writer",
        move |cx| {
            let got = cx.choose(4);
            let wrote = 1 + cx.choose(3);
            let which = cx.choose(wrote);
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
            for i in 0..got {
                d.op(cx, &msg("USER", w.user(i as u64, b"user x")))?;
            }
            let mut own = vec![];
            for i in 0..wrote {
                let o = d.ep.user(format!("own {}", i).as_bytes());
                cx.step();
                own.push(o.bytes);
            }
            let r = d.ep.recv(&own[which]);
            cx.step();
            cx.log(|| format!("own message {} reflected after {} received ones -> {:?}", which, got, r));
            match r {
                Ok(v) if v.is_empty() => Ok(()),
                Ok(_) => cx.report("reflected-user", || format!("own message {} delivered to its writer", which)),
                Err(Fault::Panic(p)) => cx.report("panic", || p),
                Err(_) => Ok(()),
            }
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C02",
        level: "model_checking",
        rule: "In every stage of the session every listed alteration of user messages (each single bit, each truncation, splices, other keys, clear text, manipulated tags) is delivered, followed by the rest of the session; whatever is delivered at any time must be data the peer wrote in this session, and the endpoint must agree with the reference model.",
        assumptions: &["Forging a ChaCha20-Poly1305 tag by analysis (possible in principle because of the recorded finding of C14) is not attempted"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                v.push(tampered(m, true, true));
                v.push(tampered(m, false, thorough));
                let mut sizes = vec![0, 1, 5, 6, 7, 13, 22, 37, 38, 39];
                if thorough {
                    sizes.extend(40..80);
                    sizes.extend(&[127, 128, 129, 255, 256, 257, 1000]);
                }
                v.push(bits(m, sizes));
                v.push(mixed(m, if thorough { 6 } else { 5 }));
                v.push(reflected(m));
            }
            v
        },
    }
}
