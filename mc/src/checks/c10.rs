//! Wire format and key schedule are those documented: interoperation with an independent implementation.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;

/// Every negotiation order with the reference peer.
fn orders(mode: Mode, known: bool, gt: bool, data: bool) -> Scenario {
    let w = World::std(mode, known, gt);
    let honest = Honest::new(&w, 2, 2, data);
    scenario(
        &format!("every order, {}, own key {}, {} data", w.name, if gt { "larger" } else { "smaller" }, if data { "with" } else { "no" }),
        0,
        "all orders of own steps and deliveries of the reference peer, 2 messages in each direction; every emission is parsed, verified and decrypted by the reference implementation",
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            loop {
                let m = honest.menu(&d.m, &p);
                if m.is_empty() {
                    break;
                }
                let h = m[cx.choose(m.len())];
                honest.apply(cx, &mut d, &mut p, h)?;
            }
            cx.check(d.m.success(), "not-completed", || "not completed with the reference peer".into())
        },
    )
}

fn filled(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) as u8).collect()
}

/// Every message size.
fn sizes(mode: Mode, list: Vec<usize>, what: &str) -> Scenario {
    let w = World::std(mode, true, true);
    scenario(
        &format!("sizes {}, {:?}", what, mode),
        0,
        &format!("{} payload sizes as CONNECT, ACK and user data in both directions", list.len()),
        move |cx| {
            let n = *cx.pick_from(&list);
            let d0 = filled(n);
            let mut d = w.drv();
            let o = if n == 0 { None } else { Some(d0.clone()) };
            let s = o.as_ref().map(|x| &x[..]);
            d.op(cx, &Op::Connect(o.clone()))?;
            d.op(cx, &msg("CONNECT", w.connect(s)))?;
            d.op(cx, &Op::Ack(o.clone()))?;
            d.op(cx, &msg("ACK", w.ack(s)))?;
            d.op(cx, &Op::User(d0.clone()))?;
            d.op(cx, &msg("USER", w.user(0, &d0)))?;
            d.op(cx, &Op::User(vec![]))?;
            d.op(cx, &msg("USER", w.user(1, &[])))?;
            // exact layout, independent of the parser used elsewhere
            if mode == Mode::Min {
                let c = w.spec.id.signed(frame(T_CONNECT, &connect_headers(&w.epk, &SIG_ALGO, &w.spec.id.pk), &d0));
                cx.check(d.emitted[0] == c, "bad-emission", || "CONNECT differs from the documented layout".into())?;
                let a = w.spec.id.signed(frame(T_ACK, &sha256(&w.p.epk), &d0));
                cx.check(d.emitted[1] == a, "bad-emission", || "ACK differs from the documented layout".into())?;
                let u = w.key.user(0, &d0);
                cx.check(d.emitted[2] == u, "bad-emission", || "USER differs from the documented layout".into())?;
            }
            Ok(())
        },
    )
}

/// Message numbers written and read.
fn numbering(mode: Mode, n: u64) -> Scenario {
    let w = World::std(mode, true, false);
    let honest = Honest::new(&w, 0, 0, false);
    scenario(
        &format!("numbering, {:?}", mode),
        0,
        &format!("{} messages written and read in one session, each decrypted and its number verified", n),
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
            for i in 0..n {
                d.op(cx, &Op::User(i.to_be_bytes().to_vec()))?;
                d.emitted.clear();
                d.op(cx, &msg("USER", w.user(i, &i.to_le_bytes())))?;
            }
            Ok(())
        },
    )
}

/// Message numbers of any size are understood.
fn numbers(mode: Mode) -> Scenario {
    let w = World::std(mode, true, false);
    let honest = Honest::new(&w, 0, 0, false);
    let mut list = vec![];
    for s in 0..64 {
        list.extend(&[1u64 << s, (1u64 << s) + 1, (1u64 << s) - 1, !(1u64 << s)]);
    }
    list.sort_unstable();
    list.dedup();
    scenario(&format!("large numbers, {:?}", mode), 0, &format!("{} message numbers in one session, then all again", list.len()), move |cx| {
        let up = cx.flag();
        let mut d = w.drv();
        let mut p = honest.prog();
        honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
        for i in 0..list.len() {
            let n = list[if up { i } else { list.len() - 1 - i }];
            d.op(cx, &msg("USER", w.user(n, &n.to_be_bytes())))?;
        }
        for n in &list {
            d.op(cx, &msg("USER again", w.user(*n, &n.to_be_bytes())))?;
        }
        Ok(())
    })
}

/// Pairs of ephemeral keys chosen so that any other comparison than the documented one selects another salt.
fn key_pairs(want: usize) -> Vec<([u8; 32], [u8; 32])> {
    let n = 4000usize;
    let mut keys: Vec<([u8; 32], [u8; 32])> = (0..n)
        .map(|i| {
            let mut s = [0u8; 32];
            for (k, b) in s.iter_mut().enumerate() {
                *b = ((i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left((k * 7 % 64) as u32) >> 11) as u8;
            }
            (epk_of(s), s)
        })
        .collect();
    keys.sort();
    let mut v = vec![];
    // common prefixes of 1 and of 2 bytes, with the order of the ends both ways
    let mut found = std::collections::BTreeMap::new();
    for i in 0..n {
        for j in i + 1..(i + 60).min(n) {
            let (a, b) = (&keys[i], &keys[j]);
            let pre = (0..32).take_while(|&k| a.0[k] == b.0[k]).count();
            let last = a.0[31] < b.0[31];
            let high = (a.0[pre] < 128, b.0[pre] < 128);
            let second = pre < 31 && a.0[pre + 1] < b.0[pre + 1];
            let class = (pre, last, high, second);
            let c = found.entry(class).or_insert(0);
            if *c < want {
                *c += 1;
                v.push((a.1, b.1));
            }
        }
    }
    v
}
fn salts(mode: Mode, want: usize) -> Scenario {
    let pairs = key_pairs(want);
    let e_id = Id::new(seed(201));
    let p_id = Id::new(seed(202));
    scenario(
        &format!("ephemeral key order, {:?}", mode),
        0,
        &format!("{} pairs of ephemeral keys with common prefixes and all orders of the following bytes, in both roles", pairs.len()),
        move |cx| {
            let (a, b) = *cx.pick_from(&pairs);
            let (a, b) = if cx.flag() { (b, a) } else { (a, b) };
            let p = Peer::new(&p_id, b);
            let spec = EpSpec::new(mode, &e_id, a, None);
            let mut d = Drv::new(&spec, &Default::default());
            let k = p.key(&d.m.own_epk);
            d.op(cx, &Op::Connect(None))?;
            d.op(cx, &msg("CONNECT", p.connect(&[])))?;
            d.op(cx, &Op::Ack(None))?;
            let own = d.m.own_epk;
            d.op(cx, &msg("ACK", p.ack(&own, &[])))?;
            d.op(cx, &Op::User(b"out".to_vec()))?;
            d.op(cx, &msg("USER", k.user(0, &wrap(mode, Some(b"in")))))
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C10",
        level: "model_checking",
        rule: "An endpoint is run against an independent implementation of the documented format and key schedule (other AEAD implementation, own framing): every order of the negotiation, payload sizes around every boundary, message numbers across byte boundaries, and pairs of ephemeral keys covering each way to order them. Every emission is parsed, verified and decrypted; everything the reference peer sends must be understood.",
        assumptions: &["SIG_ALGO 0 is Ed25519, as in the code (the README says 1)", "Sizes beyond 16 MiB are not covered"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                for &k in &[false, true] {
                    for &gt in &[false, true] {
                        v.push(orders(m, k, gt, true));
                        if thorough {
                            v.push(orders(m, k, gt, false));
                        }
                    }
                }
                v.push(sizes(m, (0..if thorough { 3000 } else { 400 }).collect(), "small"));
                let mut big = vec![];
                for s in 9..(if thorough { 22 } else { 19 }) {
                    for d in &[-64i64, -33, -32, -31, -27, -26, -17, -16, -1, 0, 1, 31, 32] {
                        big.push(((1i64 << s) + d) as usize);
                    }
                    big.push((1 << s) * 3 / 2);
                }
                v.push(sizes(m, big, "around powers of two"));
                v.push(sizes(m, vec![(1 << 20) + 5, (3 << 20) - 1, (1 << 24) - 32, 1 << 24, (1 << 24) + 1], "large"));
                v.push(numbering(m, if thorough { 300_000 } else { 132_000 }));
                v.push(numbers(m));
                v.push(salts(m, if thorough { 200 } else { 4 }));
            }
            v
        },
    }
}
