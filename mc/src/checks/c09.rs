//! No incoming bytes can crash an endpoint.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;
use std::sync::Arc;

type In = (String, Arc<Vec<u8>>);

/// Interesting values of a length field whose right value is `l`.
fn lengths(l: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..120).collect();
    v.extend(l.saturating_sub(40)..l + 80);
    for s in 0..64 {
        let p = 1u64 << s;
        v.extend(&[p - 1, p, p.wrapping_add(1)]);
    }
    for d in 0..140 {
        v.push(u64::max_value() - d);
    }
    v.extend(&[l << 32, l.swap_bytes(), i64::max_value() as u64, i64::max_value() as u64 - 16, (1 << 63) - 17]);
    v.sort_unstable();
    v.dedup();
    v
}

/// Malformed inputs; `w.key` stands for a peer that holds the session key and misbehaves.
fn inputs(w: &World, thorough: bool) -> Vec<In> {
    let mut v: Vec<In> = vec![];
    let mut add = |n: String, b: Vec<u8>| v.push((n, Arc::new(b)));
    let id = &w.p.id;
    // short inputs
    for n in 0..160 {
        for &f in &[0u8, 1, 0xff, 0xE2] {
            add(format!("{} bytes {:02x}", n, f), vec![f; n]);
        }
        let mut m = MAGIC.to_vec();
        m.extend(std::iter::repeat(0).take(n));
        add(format!("magic and {} zero bytes", n), m.clone());
        for t in &[[0u8, 0], [0, 1], [0, 2], [0, 3], [0xff, 0xff]] {
            if m.len() >= 18 {
                m[4..8].copy_from_slice(&VERSION);
                m[16..18].copy_from_slice(t);
                add(format!("header of type {:?} and {} bytes in all", t, m.len()), m.clone());
                add(format!("the same encrypted, {} bytes", m.len()), w.key.seal(&m));
            } else {
                add(format!("encrypted magic and {} zero bytes", n), w.key.seal(&m));
            }
        }
    }
    if thorough {
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                add(format!("bytes {:02x} {:02x}", a, b), vec![a, b]);
            }
        }
    } else {
        for a in 0..=255u8 {
            add(format!("byte {:02x}", a), vec![a]);
        }
    }
    // genuine messages cut short at every length, signed / hashed / encrypted again
    let body = w.wrap(Some(b"some custom data"));
    let c = frame(T_CONNECT, &connect_headers(&w.p.epk, &SIG_ALGO, &id.pk), &body);
    let a = frame(T_ACK, &sha256(&w.epk), &body);
    let u = frame(T_USER, &3u64.to_be_bytes(), &body);
    for (n, f) in &[("CONNECT", &c), ("ACK", &a)] {
        let whole = id.signed((*f).clone());
        for cut in 0..=whole.len() {
            add(format!("{} cut at {}", n, cut), whole[..cut].to_vec());
            add(format!("{} cut at {}, encrypted", n, cut), w.key.seal(&whole[..cut]));
        }
        for cut in 0..=f.len() {
            add(format!("{} frame cut at {} and signed", n, cut), id.signed(f[..cut].to_vec()));
        }
    }
    let whole = hashed(u.clone());
    for cut in 0..=whole.len() {
        add(format!("USER cut at {}, clear", cut), whole[..cut].to_vec());
        add(format!("USER cut at {}, encrypted", cut), w.key.seal(&whole[..cut]));
    }
    for cut in 0..=u.len() {
        add(format!("USER frame cut at {}, hashed, encrypted", cut), w.key.seal(&hashed(u[..cut].to_vec())));
    }
    let e = w.user(0, &body);
    for cut in 0..e.len() {
        add(format!("encrypted USER cut at {}", cut), e[..cut].to_vec());
    }
    // length fields, with signatures and hashes placed wherever the length points to
    for (n, ty, h) in &[
        ("CONNECT", T_CONNECT, connect_headers(&w.p.epk, &SIG_ALGO, &id.pk)),
        ("ACK", T_ACK, sha256(&w.epk).to_vec()),
        ("USER", T_USER, 2u64.to_be_bytes().to_vec()),
    ] {
        for bl in &[0usize, 20] {
            let body = vec![7u8; *bl];
            let right = (2 + h.len() + body.len()) as u64;
            for l in lengths(right) {
                let f = frame_len(*ty, h, &body, l);
                let end = (16u64.saturating_add(l)).min(f.len() as u64) as usize;
                if *ty == T_USER {
                    add(format!("{} of length {} with length field {}", n, right, l), w.key.seal(&hashed(f.clone())));
                    // the hash of the part the length field names, placed right behind it
                    let mut g = f[..end].to_vec();
                    let hsh = sha256(&g);
                    g.extend_from_slice(&hsh);
                    add(format!("{} with length field {} cut and hashed accordingly", n, l), w.key.seal(&g));
                } else {
                    add(format!("{} of length {} with length field {}", n, right, l), id.signed(f.clone()));
                    add(format!("{} with length field {} cut and signed accordingly", n, l), id.signed(f[..end].to_vec()));
                    // the signature overwrites what follows the part named by the length field
                    let sig = id.signed(f[..end].to_vec());
                    let mut g = f.clone();
                    g.resize(end.max(0), 0);
                    g.extend_from_slice(&sig[end..]);
                    g.extend_from_slice(&f[end..]);
                    add(format!("{} with length field {} and the signature inside", n, l), g);
                }
            }
        }
    }
    // user messages whose hash and headers overlap: the hash is the end of the data the length field leaves
    for l in 0..40u64 {
        for total in 16..110usize {
            if total % 7 == 0 || thorough {
                let mut f = frame_len(T_USER, &[0; 8], &vec![0; total], l);
                let end = (16 + l as usize).min(f.len());
                f.truncate(end);
                // find a nonce so that the hash starts with the same bytes is infeasible; the plain variant:
                let h = sha256(&f);
                f.extend_from_slice(&h);
                f.resize(total.max(f.len()), 0);
                add(format!("short USER, length field {}, {} bytes", l, total), w.key.seal(&f));
            }
        }
    }
    // custom data that is no deflate stream, in genuine messages
    let junk: Vec<Vec<u8>> = (0..=255u8)
        .map(|b| vec![b])
        .chain((0..64u8).map(|b| vec![b, 0xff, 0, 0x55]))
        .chain((0..40usize).map(|n| vec![0xff; n + 1]))
        .chain((0..deflate(b"some data some data some data").len()).map(|n| deflate(b"some data some data some data")[..n].to_vec()))
        .chain((0..64usize).map(|i| {
            let mut d = deflate(b"some data some data some data, some other data");
            let k = i % (d.len() * 8);
            d[k / 8] ^= 1 << (k % 8);
            d
        }))
        .collect();
    for (i, j) in junk.iter().enumerate() {
        add(format!("USER with undecodable data {}", i), w.key.user((i % 5) as u64, j));
        add(format!("CONNECT with undecodable data {}", i), w.p.connect(j));
        add(format!("ACK with undecodable data {}", i), w.p.ack(&w.epk, j));
    }
    // message numbers
    for s in 0..64 {
        for n in &[1u64 << s, (1u64 << s) - 1, u64::max_value() - (1 << s) + 1] {
            add(format!("USER number {}", n), w.user(*n, b"x"));
        }
    }
    // unusable keys
    for e in low_order() {
        add("CONNECT with a low order ephemeral key".into(), id.signed(frame(T_CONNECT, &connect_headers(&e, &SIG_ALGO, &id.pk), &[])));
        let o = Id::new(seed(66));
        add("the same of another peer".into(), o.signed(frame(T_CONNECT, &connect_headers(&e, &SIG_ALGO, &o.pk), &[])));
        let mut f = frame(T_CONNECT, &connect_headers(&w.p.epk, &SIG_ALGO, &e), &[]);
        f.extend_from_slice(&e);
        f.extend_from_slice(&[0; 32]);
        add("CONNECT with a low order signature key".into(), f);
    }
    v
}

/// Whatever was read: no later call panics.
fn probe(cx: &mut Ctx, w: &World, e: &mut Ep, after: usize) -> R {
    let ok = |cx: &mut Ctx, what: &str, f: Option<Fault>| match f {
        Some(Fault::Panic(p)) => cx.report("panic", || format!("{} panics: {}", what, p)),
        _ => Ok(()),
    };
    let f = |r: Res<Vec<Ev>>| r.err();
    let c = w.connect(None);
    let a = w.ack(None);
    let u = w.user(2, b"follow-up");
    let order: &[usize] = [
        &[0, 1, 2, 3, 4, 5, 6, 7, 8][..],
        // completes the negotiation if the input counts as a CONNECT
        &[0, 2, 3, 8, 5, 6, 4, 7, 1][..],
        &[5, 4, 6, 2, 3, 1, 0, 7, 8][..],
        &[8, 7, 1, 3, 0, 6, 2, 4, 5][..],
    ][after];
    for k in order {
        match k {
            0 => {
                let r = e.connect(None).res.err();
                ok(cx, "creating CONNECT", r)?
            }
            1 => {
                let r = e.recv(&c);
                ok(cx, "receiving CONNECT", f(r))?
            }
            2 => {
                let r = e.ack(None).res.err();
                ok(cx, "creating ACK", r)?
            }
            3 => {
                let r = e.recv(&a);
                ok(cx, "receiving ACK", f(r))?
            }
            4 => {
                let r = e.take_ack();
                ok(cx, "taking the early ACK", f(r))?
            }
            5 => {
                let r = e.drain();
                ok(cx, "draining", f(r))?
            }
            6 => {
                let r = e.recv(&u);
                ok(cx, "receiving USER", f(r))?
            }
            7 => {
                let r = e.try_clone();
                ok(cx, "cloning", r.err())?
            }
            _ => {
                let r = e.user(b"out").res.err();
                ok(cx, "writing USER", r)?
            }
        }
        cx.step();
    }
    Ok(())
}

fn malformed(mode: Mode, known: bool, thorough: bool, afters: usize) -> Scenario {
    let w = World::std(mode, known, true);
    let honest = Honest::new(&w, 3, 1, true);
    let list = inputs(&w, thorough);
    scenario(
        &format!("malformed input in every stage, {}", w.name),
        0,
        &format!("{} stages x {} inputs, each followed by all kinds of calls in {} orders", STAGES.len(), list.len(), afters),
        move |cx| {
            let st = cx.pick_from(STAGES);
            let (name, bytes) = cx.pick_from(&list);
            let after = cx.choose(afters);
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, st)?;
            cx.log(|| format!("-- stage: {}; input: {}", st.name, name));
            let r = d.ep.recv(bytes);
            cx.step();
            cx.log(|| format!("receive {} bytes -> {:?}", bytes.len(), r.as_ref().map(|v| show(v))));
            cx.observe(&r.is_ok());
            if let Err(Fault::Panic(p)) = r {
                return cx.report("panic", || format!("receiving {} in stage \"{}\" panics: {}", name, st.name, p));
            }
            if r.is_ok() {
                cx.count("accepted");
            } else {
                cx.count("refused");
            }
            probe(cx, &w, &mut d.ep, after)
        },
    )
}

/// Pairs of odd inputs.
fn pairs(mode: Mode, thorough: bool) -> Scenario {
    let w = World::std(mode, false, true);
    let honest = Honest::new(&w, 3, 1, true);
    let id = &w.p.id;
    let bad = w.wrap(Some(b"x"));
    let mut list: Vec<In> = vec![];
    let mut add = |n: &str, b: Vec<u8>| list.push((n.to_string(), Arc::new(b)));
    add("CONNECT", w.connect(Some(b"c")));
    add("ACK", w.ack(Some(b"a")));
    add("CONNECT with bad data", w.p.connect(&[0xff; 5]));
    add("ACK with bad data", w.p.ack(&w.epk, &[0xff; 5]));
    add("ACK without signature", frame(T_ACK, &sha256(&w.epk), &bad));
    add("ACK with a short signature", {
        let f = id.signed(frame(T_ACK, &sha256(&w.epk), &bad));
        f[..f.len() - 1].to_vec()
    });
    add("forged ACK", Id::new(seed(66)).signed(frame(T_ACK, &sha256(&w.epk), &bad)));
    add("low order CONNECT", id.signed(frame(T_CONNECT, &connect_headers(&[0; 32], &SIG_ALGO, &id.pk), &[])));
    add("low order CONNECT of another", Id::new(seed(66)).signed(frame(
        T_CONNECT, &connect_headers(&[0; 32], &SIG_ALGO, &Id::new(seed(66)).pk), &[])));
    add("USER 0", w.user(0, b"zero"));
    add("USER 0 empty", w.key.user(0, &[]));
    add("USER 1 with bad data", w.key.user(1, &[0xff; 3]));
    add("USER max", w.user(u64::max_value(), b"max"));
    add("USER max-1", w.user(u64::max_value() - 1, b"max"));
    add("empty", vec![]);
    add("sealed nothing", w.key.seal(&[]));
    let depth = if thorough { 4 } else { 3 };
    scenario(
        &format!("sequences of odd inputs, {:?}", mode),
        0,
        &format!("{} stages x all sequences of {} out of {} odd inputs", STAGES.len(), depth, list.len()),
        move |cx| {
            let st = cx.pick_from(STAGES);
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, st)?;
            for _ in 0..depth {
                let (name, b) = cx.pick_from(&list);
                let r = d.ep.recv(b);
                cx.step();
                cx.log(|| format!("receive {} -> {:?}", name, r));
                cx.observe(&r.is_ok());
                if let Err(Fault::Panic(p)) = r {
                    return cx.report("panic", || format!("receiving {} panics: {}", name, p));
                }
            }
            probe(cx, &w, &mut d.ep, 0)
        },
    )
}

/// Odd inputs between the calls of a session.
fn mixed(mode: Mode, known: bool, depth: usize) -> Scenario {
    let w = World::std(mode, known, true);
    let id = &w.p.id;
    let mut list: Vec<In> = vec![];
    let mut add = |n: &str, b: Vec<u8>| list.push((n.to_string(), Arc::new(b)));
    add("CONNECT", w.connect(Some(b"c")));
    add("CONNECT with bad data", w.p.connect(&[0xff; 5]));
    add("low order CONNECT", id.signed(frame(T_CONNECT, &connect_headers(&[0; 32], &SIG_ALGO, &id.pk), &[])));
    add("own CONNECT", Peer { id: w.spec.id.clone(), eph: w.spec.eph, epk: w.epk }.connect(&[]));
    add("ACK", w.ack(Some(b"a")));
    add("ACK with bad data", w.p.ack(&w.epk, &[0xff; 5]));
    add("ACK without signature", frame(T_ACK, &sha256(&w.epk), &[]));
    add("USER max", w.user(u64::max_value(), b"max"));
    add("USER 0 with bad data", w.key.user(0, &[0xff; 3]));
    scenario(
        &format!("odd inputs between calls, {}", w.name),
        0,
        &format!("all sequences of {} steps out of {} inputs and the calls CONNECT, ACK, write, clone, take, drain", depth, list.len()),
        move |cx| {
            let mut d = w.drv();
            for _ in 0..depth {
                let calls = if w.mode == Mode::Min { 6 } else { 4 };
                let k = cx.choose(list.len() + calls);
                let e = &mut d.ep;
                cx.step();
                let (what, f) = if k < list.len() {
                    ("receiving", e.recv(&list[k].1).err())
                } else {
                    match k - list.len() {
                        0 => ("creating CONNECT", e.connect(None).res.err()),
                        1 => ("creating ACK", e.ack(None).res.err()),
                        2 => ("writing USER", e.user(b"out").res.err()),
                        3 => ("cloning", e.try_clone().err()),
                        4 => ("taking the early ACK", e.take_ack().err()),
                        _ => ("draining", e.drain().err()),
                    }
                };
                cx.log(|| format!("{}{} -> {:?}", what, if k < list.len() { format!(" {}", list[k].0) } else { String::new() }, f));
                cx.observe(&f.is_none());
                if let Some(Fault::Panic(p)) = f {
                    return cx.report("panic", || format!("{} panics: {}", what, p));
                }
            }
            Ok(())
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C09",
        level: "exploration",
        rule: "In every stage of the session every input of an enumerated family of malformed ones (short inputs, all truncations, length fields around every boundary, wrong types, undecodable data, extreme message numbers, unusable keys; unauthenticated, and genuinely signed, hashed or encrypted by a misbehaving peer) is read, followed by all kinds of further calls. A panic, overflow, hang or huge allocation is a violation.",
        assumptions: &["The input space is covered by structure and boundary values, not byte by byte", "Overflow checks and debug assertions are on in the build that is checked"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                v.push(malformed(m, false, thorough, if thorough { 4 } else { 2 }));
                v.push(malformed(m, true, false, if thorough { 4 } else { 2 }));
                v.push(pairs(m, thorough));
                v.push(mixed(m, false, if thorough { 6 } else { 5 }));
                if thorough {
                    v.push(mixed(m, true, 6));
                }
            }
            v
        },
    }
}
