//! Rejected messages leave no trace: differential against a model that ignores them altogether.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;

type Guard = fn(&Model, &Prog) -> bool;
fn always(_: &Model, _: &Prog) -> bool {
    true
}
fn pinned(m: &Model, _: &Prog) -> bool {
    m.known_key().is_some()
}
fn alien_connect(m: &Model, _: &Prog) -> bool {
    m.known_key().is_some()
}

/// Messages that must be refused without effect, with the condition under which this is so.
fn rejected(w: &World, thorough: bool) -> Vec<(Op, Guard)> {
    let mut v: Vec<(Op, Guard)> = vec![];
    let id = &w.p.id;
    let other = Id::new(seed(66));
    let head = |epk: &[u8], pk: &[u8]| frame(T_CONNECT, &connect_headers(epk, &SIG_ALGO, pk), &w.wrap(Some(b"evil")));
    let flip = |mut b: Vec<u8>, at: usize| {
        let l = b.len();
        b[if at < l { at } else { l - 1 }] ^= 1;
        b
    };
    let o_epk = epk_of(seed(67));
    // CONNECT with an invalid signature
    v.push((msg("CONNECT of the peer, signature altered", flip(w.connect(None), 999)), always));
    v.push((msg("CONNECT of the peer, other ephemeral key", flip(w.connect(None), 30)), always));
    v.push((msg("CONNECT claiming the peer, signed by another", other.signed(head(&o_epk, &id.pk))), always));
    v.push((msg("CONNECT of another key, signature altered", flip(other.signed(head(&o_epk, &other.pk)), 999)), always));
    v.push((msg("CONNECT of another key, signed by the peer", id.signed(head(&o_epk, &other.pk))), always));
    if thorough {
        v.push((msg("CONNECT of the peer, custom data altered", flip(w.connect(Some(b"data")), 88)), always));
        let mut z = head(&o_epk, &other.pk);
        z.extend_from_slice(&[0; 64]);
        v.push((msg("CONNECT of another key, zero signature", z), always));
        let mut z = head(&o_epk, &[0; 32]);
        z.extend_from_slice(&[0; 64]);
        v.push((msg("CONNECT of a zero key, zero signature", z), always));
    }
    // CONNECT of another key than the known one
    v.push((msg("genuine CONNECT of another key", other.signed(head(&o_epk, &other.pk))), alien_connect));
    v.push((msg("CONNECT of another key with the peer's ephemeral key", other.signed(head(&w.p.epk, &other.pk))), alien_connect));
    // ACK with a wrong challenge
    v.push((msg("ACK of the peer for another session", w.p.ack(&o_epk, &w.wrap(None))), always));
    v.push((msg("ACK of the peer for its own key", w.p.ack(&w.p.epk, &w.wrap(None))), always));
    v.push((msg("ACK of another key for another session", other.signed(frame(T_ACK, &sha256(&o_epk), &[]))), always));
    // ACK with an invalid signature
    v.push((msg("ACK signed by another key", other.signed(frame(T_ACK, &sha256(&w.epk), &w.wrap(Some(b"evil"))))), pinned));
    v.push((msg("ACK of the peer, signature altered", flip(w.ack(None), 999)), pinned));
    if thorough {
        v.push((msg("ACK of the peer, data altered", flip(w.ack(Some(b"data")), 52)), pinned));
        let mut z = frame(T_ACK, &sha256(&w.epk), &[]);
        z.extend_from_slice(&[0; 64]);
        v.push((msg("ACK with a zero signature", z), pinned));
    }
    // reflected own messages
    let me = Peer { id: w.spec.id.clone(), eph: w.spec.eph, epk: w.epk };
    v.push((msg("own CONNECT reflected", me.connect(&w.wrap(Some(b"my connect")))), always));
    v.push((msg("own CONNECT without data reflected", me.connect(&[])), always));
    v.push((msg("own ACK reflected", me.ack(&w.p.epk, &w.wrap(Some(b"my ack")))), always));
    // duplicates of user messages
    v.push((msg("duplicate of USER 0", w.user(0, b"user 0")), |_, p| p.users.get(0) == Some(&true)));
    v.push((msg("duplicate of USER 1", w.user(1, b"user 1")), |_, p| p.users.get(1) == Some(&true)));
    v.push((msg("other content numbered 0", w.user(0, b"forged")), |_, p| p.users.get(0) == Some(&true)));
    v.push((msg("other content numbered 1", w.user(1, b"forged")), |_, p| p.users.get(1) == Some(&true)));
    v
}

fn inserted(mode: Mode, known: bool, gt: bool, dev: u32, users: usize, thorough: bool) -> Scenario {
    let w = World::std(mode, known, gt);
    let honest = Honest::new(&w, users, 1, true);
    let rej = rejected(&w, thorough);
    scenario(
        &format!("up to {} rejected messages inserted, {} user messages, {}", dev, users, w.name),
        dev,
        &format!("all honest orders ({} messages in, 1 out), up to {} insertions of {} rejected messages at any point", users, dev, rej.len()),
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            loop {
                let ok: Vec<&Op> =
                    rej.iter().filter(|r| (r.1)(&d.m, &p)).map(|r| &r.0).collect();
                let k = cx.deviate(1 + ok.len());
                if k > 0 {
                    cx.count("insertions");
                    let op = ok[k - 1];
                    let before = crate::engine::h64(&d.m.abs());
                    d.op(cx, op)?;
                    assert_eq!(before, crate::engine::h64(&d.m.abs()), "the reference model ignores rejected messages");
                    continue;
                }
                let m = honest.menu(&d.m, &p);
                if m.is_empty() {
                    break;
                }
                let h = m[cx.choose(m.len())];
                honest.apply(cx, &mut d, &mut p, h)?;
            }
            assert!(d.m.success());
            d.op(cx, &Op::CloneDrop)?;
            d.op(cx, &Op::User(b"end".to_vec()))
        },
    )
}

/// A forged ACK held back before the peer key is known is dropped when the CONNECT arrives.
fn forged_early(mode: Mode, gt: bool, dev: u32, users: usize) -> Scenario {
    let w = World::std(mode, false, gt);
    let honest = Honest::new(&w, users, 1, true);
    let other = Id::new(seed(66));
    let cut = |mut b: Vec<u8>, n: usize| {
        let l = b.len() - n;
        b.truncate(l);
        b
    };
    let ext = |mut b: Vec<u8>, n: usize| {
        b.extend(vec![5; n]);
        b
    };
    let flip = |mut b: Vec<u8>, from_end: usize| {
        let i = b.len() - from_end;
        b[i] ^= 1;
        b
    };
    let f = |body: &[u8]| frame(T_ACK, &sha256(&w.epk), body);
    let a = w.ack(Some(b"peer ack"));
    let forged: Vec<Op> = vec![
        msg("ACK signed by another key", other.signed(f(&w.wrap(Some(b"evil"))))),
        msg("ACK without data signed by another key", other.signed(f(&[]))),
        msg("ACK with undecodable data signed by another key", other.signed(f(&[0xff; 9]))),
        msg("ACK signed by the endpoint's own key", w.spec.id.signed(f(&[]))),
        msg("ACK with a zero signature", ext(f(&[]), 0).into_iter().chain(vec![0; 64]).collect()),
        msg("ACK without signature", f(&[])),
        msg("ACK of the peer, signature cut", cut(a.clone(), 1)),
        msg("ACK of the peer, signature extended", ext(a.clone(), 1)),
        msg("ACK of the peer, signature altered", flip(a.clone(), 1)),
        msg("ACK of the peer, data altered", flip(a.clone(), 65)),
        msg("ACK of the peer, signature removed", cut(a, 64)),
    ];
    let rej = rejected(&w, false);
    scenario(
        &format!("forged ACK held back, {} user messages, {}", users, w.name),
        dev,
        &format!("one of {} forged ACK messages at any point before the CONNECT, which the genuine ACK follows; all honest orders ({} messages in, 1 out), up to {} other rejected messages at any point", forged.len(), users, dev),
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            let which = cx.choose(forged.len());
            let mut given = false;
            loop {
                let ok: Vec<&Op> = rej.iter().filter(|r| (r.1)(&d.m, &p)).map(|r| &r.0).collect();
                let k = cx.deviate(1 + ok.len());
                if k > 0 {
                    d.op(cx, ok[k - 1])?;
                    continue;
                }
                let mut m = honest.menu(&d.m, &p);
                if !p.c {
                    // the genuine ACK would be a second one
                    m.retain(|h| *h != H::A && (given || *h != H::C));
                }
                let more = !given as usize;
                if m.len() + more == 0 {
                    break;
                }
                let i = cx.choose(m.len() + more);
                if i == m.len() {
                    given = true;
                    cx.count("forged ACKs");
                    d.op(cx, &forged[which])?;
                    assert!(d.m.stash.is_some() && !d.m.failed);
                } else {
                    honest.apply(cx, &mut d, &mut p, m[i])?;
                }
            }
            assert!(d.m.success());
            d.op(cx, &Op::CloneDrop)?;
            d.op(cx, &Op::User(b"end".to_vec()))
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C08",
        level: "model_checking",
        rule: "Every honest order of the session with every insertion, up to the deviation bound, of messages the property declares rejected: each must return an error and all later results, deliveries and emissions must equal those of the reference model, whose state such a message does not change.",
        assumptions: &["An ACK received before the peer key is known cannot be verified yet: while a forged one is held back, the genuine one is a second early ACK and fails the connection"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                for &gt in &[false, true] {
                    v.push(forged_early(m, gt, gt as u32 + thorough as u32, if thorough { 2 } else { 1 }));
                }
                for &k in &[false, true] {
                    v.push(inserted(m, k, true, 1, if thorough { 4 } else { 3 }, thorough));
                    v.push(inserted(m, k, false, 2, if thorough { 2 } else { 1 }, thorough));
                    if thorough {
                        let mut s = inserted(m, k, true, 3, 1, false);
                        s.name += ", deeper";
                        v.push(s);
                    }
                }
            }
            v
        },
    }
}
