//! A negotiation completes only with the authenticated peer: one endpoint in the hands of an active attacker.
use super::*;
use crate::engine::{scenario, Stop};
use crate::ep::*;
use crate::refp::*;
use std::sync::Arc;

/// What the attacker may deliver.
#[derive(Clone)]
enum Att {
    Bytes(&'static str, Arc<Vec<u8>>),
    OwnConnect,
    OwnAck,
    /// own CONNECT's ephemeral key, signed by the attacker
    Take,
    Drain,
}

struct Run {
    ep: Ep,
    epk: [u8; 32],
    own_c: Option<Vec<u8>>,
    own_a: Option<Vec<u8>>,
    seen: Vec<Vec<u8>>,
    connect: Option<([u8; 32], Vec<u8>)>,
    ack: Option<Option<Vec<u8>>>,
    completed: bool,
}

fn pool(w: &World, small: bool) -> Vec<Att> {
    let mut v = vec![];
    let mut add = |n: &'static str, b: Vec<u8>| v.push(Att::Bytes(n, Arc::new(b)));
    let p0 = &w.p;
    let p1 = Peer::new(&p0.id, seed(77));
    let mid = Id::new(seed(66));
    let m = Peer::new(&mid, seed(67));
    let mitm = Peer::new(&mid, seed(68));
    let body = |s: &str| w.wrap(Some(s.as_bytes()));
    let splice_sig = |frame_of: &[u8], sig_of: &[u8]| {
        let mut f = frame_of[..frame_of.len() - 64].to_vec();
        f.extend_from_slice(&sig_of[sig_of.len() - 64..]);
        f
    };
    let flip = |mut b: Vec<u8>, at: usize| {
        let l = b.len();
        b[if at < l { at } else { l - 1 }] ^= 1;
        b
    };
    let head = |epk: &[u8], pk: &[u8], s: &str| frame(T_CONNECT, &connect_headers(epk, &SIG_ALGO, pk), &body(s));
    let c0 = p0.connect(&body("connect s0"));
    let a0 = p0.ack(&w.epk, &body("ack s0"));
    let c1 = p1.connect(&body("connect s1"));
    let a1 = p1.ack(&w.epk, &body("ack s1"));
    add("CONNECT of session 0 of the peer", c0.clone());
    add("ACK of session 0 of the peer", a0.clone());
    add("CONNECT of session 1 of the peer", c1.clone());
    add("ACK of session 1 of the peer", a1);
    add("CONNECT of the attacker", m.connect(&body("connect m")));
    add("ACK of the attacker", m.ack(&w.epk, &body("ack m")));
    add("CONNECT claiming the peer's key, attacker's ephemeral key and signature", mid.signed(head(&m.epk, &p0.id.pk, "x")));
    add("CONNECT of the peer with the attacker's ephemeral key", splice_sig(&mid.signed(head(&m.epk, &p0.id.pk, "connect s0")), &c0));
    add("attacker-signed CONNECT with the endpoint's ephemeral key", mid.signed(head(&w.epk, &mid.pk, "x")));
    if small {
        v.push(Att::OwnConnect);
        v.push(Att::OwnAck);
        if w.mode == Mode::Min {
            v.push(Att::Take);
        }
        return v;
    }
    add("attacker-signed CONNECT with the peer's ephemeral key", mid.signed(head(&p0.epk, &mid.pk, "x")));
    add("CONNECT of another attacker session", mitm.connect(&body("connect m2")));
    add("CONNECT of the peer with altered data", flip(c0.clone(), 87));
    add("CONNECT of the peer with altered signature", flip(c0.clone(), 9999));
    add("frame of session 0 with the signature of session 1", splice_sig(&c0, &c1));
    add("CONNECT of the peer with the key replaced by the attacker's", {
        let mut b = c0.clone();
        b[54..86].copy_from_slice(&mid.pk);
        b
    });
    let mut z = head(&m.epk, &p0.id.pk, "x");
    z.extend_from_slice(&[0; 64]);
    add("CONNECT claiming the peer's key, zero signature", z);
    let mut z = c0.clone();
    z.extend_from_slice(&[0; 3]);
    add("CONNECT of the peer with trailing bytes", z);
    add("CONNECT of the peer without signature", c0[..c0.len() - 64].to_vec());
    add("ACK of the peer for another endpoint", p0.ack(&m.epk, &body("ack other")));
    add("ACK of the peer for itself", p0.ack(&p0.epk, &body("ack self")));
    add("ACK of the peer for another endpoint, challenge replaced", {
        let mut b = p0.ack(&m.epk, &body("ack other"));
        b[18..50].copy_from_slice(&sha256(&w.epk));
        b
    });
    add("ACK of the peer, challenge not hashed", p0.id.signed(frame(T_ACK, &w.epk, &body("raw"))));
    add("ACK of the peer with altered data", flip(a0.clone(), 52));
    add("ACK of the peer with altered signature", flip(a0.clone(), 9999));
    let mut z = frame(T_ACK, &sha256(&w.epk), &body("x"));
    z.extend_from_slice(&[0; 64]);
    add("ACK with zero signature", z);
    add("ACK without signature", frame(T_ACK, &sha256(&w.epk), &body("x")));
    add("ACK signed by the endpoint's own key", w.spec.id.signed(frame(T_ACK, &sha256(&w.epk), &body("own"))));
    add("CONNECT of another session of the endpoint's own key", Peer::new(&w.spec.id, seed(99)).connect(&body("own2")));
    add("CONNECT with an unusable ephemeral key, signed by the attacker", mid.signed(head(&[0; 32], &mid.pk, "low")));
    add("user message of session 0", w.user(0, b"user"));
    v.push(Att::OwnConnect);
    v.push(Att::OwnAck);
    if w.mode == Mode::Min {
        v.push(Att::Take);
        v.push(Att::Drain);
    }
    v
}

impl Run {
    fn events(&mut self, cx: &mut Ctx, w: &World, what: &str, r: Res<Vec<Ev>>) -> R<bool> {
        let got = match r {
            Err(Fault::Panic(p)) => {
                cx.report("panic", || format!("{} panics: {}", what, p))?;
                return Ok(false);
            }
            Err(Fault::Err(e)) => {
                cx.log(|| format!("{} -> Err({})", what, e));
                cx.observe("E");
                return Ok(false);
            }
            Ok(v) => v,
        };
        cx.log(|| format!("{} -> Ok{}", what, show(&got)));
        cx.observe(&got);
        for e in got {
            match e {
                Ev::Connect { key, data } => {
                    cx.check(self.connect.is_none(), "two-connects", || "two CONNECT messages delivered".into())?;
                    // some delivered message must justify this event
                    let epk = self.seen.iter().find_map(|b| match parse(b) {
                        Ok(Parsed::Connect { epk, pk, body, signed })
                            if pk == key
                                && epk != self.epk
                                && unwrap(w.mode, &body) == Some(data.clone())
                                && verify_with_cached(&pk, b, signed) =>
                        {
                            Some(epk)
                        }
                        _ => None,
                    });
                    match epk {
                        None => {
                            cx.report("unjustified-connect", || {
                                format!("CONNECT delivered ({}), but no such validly signed message of another endpoint was received", Ev::Connect { key: key.clone(), data: data.clone() }.show())
                            })?;
                            return Err(Stop::Prune);
                        }
                        Some(epk) => {
                            if let Some(p) = &w.spec.expected {
                                cx.check(*p == key, "not-the-expected-key", || "CONNECT of another key than the expected one accepted".into())?;
                            }
                            self.connect = Some((epk, key));
                        }
                    }
                }
                Ev::Ack { data } => {
                    cx.check(self.ack.is_none(), "two-acks", || "two ACK messages delivered".into())?;
                    let key = match (&self.connect, &w.spec.expected) {
                        (Some((_, k)), _) => k.clone(),
                        (None, Some(k)) => k.clone(),
                        (None, None) => {
                            cx.report("unjustified-ack", || "ACK delivered before the peer key is known".into())?;
                            return Err(Stop::Prune);
                        }
                    };
                    let ok = self.seen.iter().any(|b| match parse(b) {
                        Ok(Parsed::Ack { challenge, body, signed }) => {
                            challenge == sha256(&self.epk)
                                && unwrap(w.mode, &body) == Some(data.clone())
                                && verify_with_cached(&key, b, signed)
                        }
                        _ => false,
                    });
                    cx.check(ok, "unjustified-ack", || {
                        "ACK delivered, but no such message signed by the peer for this session was received".into()
                    })?;
                    self.ack = Some(data);
                }
                Ev::User { .. } => {
                    cx.check(self.completed || self.ack.is_some(), "early-user", || {
                        "user message delivered before the negotiation has completed".into()
                    })?;
                }
            }
        }
        Ok(true)
    }
    /// The endpoint considers itself connected: was it entitled to?
    fn probe(&mut self, cx: &mut Ctx, w: &World) -> R<bool> {
        let ok = match self.ep.try_clone() {
            Ok(mut c) => {
                if !self.completed {
                    self.completed = true;
                    // which session key does it use?
                    let o = c.user(b"probe of the session key");
                    match &self.connect {
                        Some((epk, _)) if o.res.is_ok() => {
                            let k = w.keys.get(epk).cloned().or_else(|| session_key(w.spec.eph, epk));
                            cx.check(k.and_then(|k| k.open(&o.bytes)).is_some(), "other-session-key", || {
                                "the session key is not that of the accepted CONNECT".into()
                            })?;
                        }
                        _ => (),
                    }
                    cx.count("completions");
                }
                true
            }
            Err(_) => false,
        };
        if ok {
            cx.check(self.own_c.is_some() && self.own_a.is_some(), "completed-alone", || {
                "completed without having sent CONNECT and ACK".into()
            })?;
            match (&self.connect, &self.ack) {
                (Some((epk, key)), Some(data)) => {
                    if let Some(p) = &w.spec.expected {
                        cx.check(p == key, "not-the-expected-key", || "completed with another key than the expected one".into())?;
                    }
                    if *key == w.p.id.pk {
                        let s_connect = if *epk == w.p.epk { "s0" } else { "s1" };
                        let s_ack = data.as_ref().map(|d| String::from_utf8_lossy(d).to_string()).unwrap_or_default();
                        cx.check(s_ack.ends_with(s_connect), "ack-of-other-session", || {
                            format!("completed with CONNECT of session {} and ACK \"{}\"", s_connect, s_ack)
                        })?;
                    }
                }
                _ => cx.report("completed-without-peer", || {
                    "completed although no CONNECT and ACK of one key were delivered".into()
                })?,
            }
        }
        Ok(ok)
    }
}

fn attack(mode: Mode, known: bool, depth: usize, small: bool) -> Scenario {
    let w = World::std(mode, known, true);
    let mut w = w;
    for p in &[Peer::new(&w.p.id, seed(77)), Peer::new(&Id::new(seed(66)), seed(67)), Peer::new(&Id::new(seed(66)), seed(68)),
               Peer::new(&Id::new(seed(201)), seed(99))] {
        w.add_key(p);
    }
    let pool = pool(&w, small);
    scenario(
        &format!("{} attacker, {}", if small { "short list" } else { "full list" }, w.name),
        0,
        &format!("own steps at any time, every sequence of up to {} deliveries out of {} messages an attacker can come by", depth, pool.len()),
        move |cx| {
            let mut r = Run {
                ep: w.spec.build(),
                epk: w.epk,
                own_c: None,
                own_a: None,
                seen: vec![],
                connect: None,
                ack: None,
                completed: false,
            };
            let mut n = 0;
            let mut try_ack = false;
            loop {
                // local steps first, then deliveries
                let local_c = r.own_c.is_none();
                let local_a = r.own_a.is_none() && r.connect.is_some() && !try_ack;
                let k = local_c as usize + local_a as usize;
                if n == depth && k == 0 {
                    break;
                }
                let more = if n < depth { pool.len() } else { 0 };
                let c = cx.choose(k + more);
                cx.step();
                if c < k {
                    if local_c && c == 0 {
                        let o = r.ep.connect(Some(b"mine"));
                        cx.log(|| format!("create CONNECT -> {:?}", o.res));
                        if o.res.is_err() {
                            break;
                        }
                        r.own_c = Some(o.bytes);
                    } else {
                        let o = r.ep.ack(Some(b"mine"));
                        cx.log(|| format!("create ACK -> {:?}", o.res));
                        if o.res.is_err() {
                            break;
                        }
                        try_ack = true;
                        r.own_a = Some(o.bytes);
                    }
                } else {
                    n += 1;
                    let (what, bytes) = match &pool[c - k] {
                        Att::Bytes(n, b) => (*n, Some((**b).clone())),
                        Att::OwnConnect => ("own CONNECT reflected", r.own_c.clone()),
                        Att::OwnAck => ("own ACK reflected", r.own_a.clone()),
                        Att::Take => ("take early ACK", None),
                        Att::Drain => ("drain", None),
                    };
                    let out = match (&pool[c - k], bytes) {
                        (Att::Take, _) => r.ep.take_ack(),
                        (Att::Drain, _) => r.ep.drain(),
                        (_, Some(b)) => {
                            r.seen.push(b.clone());
                            r.ep.recv(&b)
                        }
                        (_, None) => return Err(Stop::Prune),
                    };
                    r.events(cx, &w, what, out)?;
                }
                r.probe(cx, &w)?;
            }
            cx.state(&(r.completed, r.connect.is_some(), r.ack.is_some()));
            Ok(())
        },
    )
}

/// The attacker delivers everything to two genuine endpoints: they agree whenever both complete.
fn middle(mode: Mode, depth: usize) -> Scenario {
    let a_id = Id::new(seed(201));
    let b_id = Id::new(seed(202));
    let mid = Id::new(seed(66));
    let m = Peer::new(&mid, seed(67));
    let (ea, eb) = (seed(1), seed(2));
    let sa = EpSpec::new(mode, &a_id, ea, Some(b_id.pk.clone()));
    let sb = EpSpec::new(mode, &b_id, eb, Some(a_id.pk.clone()));
    let (pa, pb) = (epk_of(ea), epk_of(eb));
    let evil: Vec<(&'static str, Vec<u8>)> = vec![
        ("attacker's CONNECT", m.connect(&[])),
        ("attacker's ACK for A", m.ack(&pa, &[])),
        ("attacker's ACK for B", m.ack(&pb, &[])),
    ];
    scenario(
        &format!("two genuine endpoints behind an attacker, {:?}", mode),
        0,
        &format!("both CONNECT sent, then {} steps: local steps of both, delivery of anything emitted so far (also reflected, also repeatedly) or of attacker messages to either", depth),
        move |cx| {
            let mut e = [sa.build(), sb.build()];
            let mut out: Vec<(usize, &'static str, Vec<u8>)> = vec![];
            let mut sent = [[false; 2]; 2];
            let mut conn = [false; 2];
            let mut dead = [false; 2];
            // both have sent their CONNECT
            for i in 0..2 {
                let o = e[i].connect(None);
                cx.step();
                sent[i][0] = o.res.is_ok();
                out.push((i, "CONNECT", o.bytes));
            }
            for _ in 0..depth {
                // steps: (endpoint, what)
                let mut menu: Vec<(usize, usize)> = vec![];
                for i in 0..2 {
                    if dead[i] {
                        continue;
                    }
                    if !sent[i][0] {
                        menu.push((i, 0));
                    }
                    if conn[i] && !sent[i][1] {
                        menu.push((i, 1));
                    }
                    if mode == Mode::Min && conn[i] {
                        menu.push((i, 2));
                    }
                    for k in 0..out.len() + evil.len() {
                        menu.push((i, 3 + k));
                    }
                }
                if menu.is_empty() {
                    break;
                }
                let (i, s) = menu[cx.choose(menu.len())];
                cx.step();
                let name = ["A", "B"][i];
                let r = match s {
                    0 | 1 => {
                        let o = if s == 0 { e[i].connect(None) } else { e[i].ack(None) };
                        cx.log(|| format!("{} creates {} -> {:?}", name, ["CONNECT", "ACK"][s], o.res));
                        sent[i][s] = true;
                        if o.res.is_ok() {
                            out.push((i, ["CONNECT", "ACK"][s], o.bytes));
                        }
                        Ok(vec![])
                    }
                    2 => e[i].take_ack(),
                    _ => {
                        let (what, b) = if s - 3 < out.len() {
                            (format!("{} of {}", out[s - 3].1, ["A", "B"][out[s - 3].0]), out[s - 3].2.clone())
                        } else {
                            let x = &evil[s - 3 - out.len()];
                            (x.0.to_string(), x.1.clone())
                        };
                        let r = e[i].recv(&b);
                        cx.log(|| format!("{} receives {} -> {:?}", name, what, r.as_ref().map(|v| show(v))));
                        r
                    }
                };
                match r {
                    Ok(v) => {
                        cx.observe(&v);
                        for ev in v {
                            if let Ev::Connect { .. } = ev {
                                conn[i] = true;
                            }
                        }
                    }
                    Err(Fault::Panic(p)) => cx.report("panic", || format!("panic: {}", p))?,
                    Err(_) => cx.observe("E"),
                }
                for i in 0..2 {
                    if let Ok(mut c) = e[i].try_clone() {
                        cx.count("completions");
                        let j = 1 - i;
                        cx.check(sent[i][0] && sent[i][1] && sent[j][0] && sent[j][1], "no-agreement", || {
                            format!("{} completed although the peer has not sent CONNECT and ACK", ["A", "B"][i])
                        })?;
                        let o = c.user(b"agreed?");
                        let k = session_key(ea, &pb).unwrap();
                        cx.check(k.open(&o.bytes).is_some(), "no-agreement", || {
                            format!("{} completed under another key than that of A and B", ["A", "B"][i])
                        })?;
                    }
                }
            }
            Ok(())
        },
    )
}

/// Every key that is nearly the expected one, and every small change of the genuine messages.
fn nearly(mode: Mode) -> Scenario {
    let w = World::std(mode, true, true);
    let pk = w.p.id.pk.clone();
    let mut expected: Vec<(String, Vec<u8>)> = vec![("the peer's key".into(), pk.clone())];
    for n in 0..32 {
        expected.push((format!("the first {} bytes of the peer's key", n), pk[..n].to_vec()));
        expected.push((format!("the last {} bytes of the peer's key", n), pk[32 - n..].to_vec()));
    }
    for n in 0..256 {
        let mut k = pk.clone();
        k[n / 8] ^= 1 << (n % 8);
        expected.push((format!("the peer's key with bit {} changed", n), k));
    }
    for x in &[0u8, 1, 255] {
        let mut k = pk.clone();
        k.push(*x);
        expected.push((format!("the peer's key followed by {}", x), k));
        expected.push((format!("{} 32 times", x), vec![*x; 32]));
    }
    expected.push(("the peer's key twice".into(), [&pk[..], &pk[..]].concat()));
    expected.push(("the own key".into(), w.spec.id.pk.clone()));
    expected.push(("the peer's key reversed".into(), pk.iter().rev().cloned().collect()));
    scenario(
        &format!("expected keys that are nearly those offered, {:?}", mode),
        0,
        &format!("{} expected keys x CONNECT and ACK of the peer, in both orders, before or after the own CONNECT", expected.len()),
        move |cx| {
            let k = cx.choose(expected.len());
            let own_first = cx.choose(2) == 0;
            let ack_first = cx.choose(2) == 1;
            let mut spec = w.spec.clone();
            spec.expected = Some(expected[k].1.clone());
            cx.log(|| format!("expected key: {}", expected[k].0));
            let mut e = match spec.try_build() {
                Ok(e) => e,
                // a key that cannot be one may be refused at once
                Err(f) => return cx.check(k != 0, "local-refused", || format!("create: {:?}", f)),
            };
            let (c, a) = (w.connect(Some(b"c")), w.ack(Some(b"a")));
            let mut got = vec![];
            let mut local = |e: &mut Ep, x: usize, cx: &mut Ctx| {
                cx.step();
                let o = if x == 0 { e.connect(None) } else { e.ack(None) };
                cx.log(|| format!("create {} -> {:?}", ["CONNECT", "ACK"][x], o.res));
            };
            if own_first {
                local(&mut e, 0, cx);
            }
            let order = if ack_first && own_first { [&a, &c] } else { [&c, &a] };
            for m in order.iter() {
                cx.step();
                let r = e.recv_poll(m);
                cx.log(|| format!("receive -> {:?}", r.as_ref().map(|v| show(v))));
                if let Err(Fault::Panic(p)) = &r {
                    cx.report("panic", || format!("panic: {}", p))?;
                }
                got.extend(r.unwrap_or_default());
                if !own_first && got.len() == 1 {
                    local(&mut e, 0, cx);
                }
                local(&mut e, 1, cx);
            }
            let done = e.try_clone().is_ok();
            if done {
                cx.count("completions");
            }
            if k == 0 {
                cx.check(got.len() == 2 && done, "refused", || "the expected peer is refused".into())
            } else {
                cx.check(got.is_empty() && !done, "not-the-expected-key", || {
                    format!("expected {}, accepted {}{}", expected[k].0, show(&got), if done { ", completed" } else { "" })
                })
            }
        },
    )
}
fn altered(mode: Mode, known: bool) -> Scenario {
    let w = World::std(mode, known, false);
    let (c, a) = (w.connect(Some(b"connect")), w.ack(Some(b"ack")));
    let n = [c.len(), a.len()];
    let (epk, p0, body, other) = (w.epk, w.p.clone(), w.wrap(Some(b"ack")), Id::new(seed(77)));
    scenario(
        &format!("altered negotiation messages, {}", w.name),
        0,
        "CONNECT and ACK of the peer with every bit changed, every byte zeroed, cut at every length, extended or signed by another key, ACK signed by the peer with every bit of the challenge changed, before the genuine one",
        move |cx| {
            let which = cx.choose(2);
            let l = n[which];
            let mut b = if which == 0 { c.clone() } else { a.clone() };
            let kind = cx.choose(if which == 1 { 6 } else { 5 });
            match kind {
                // signed again, by somebody else
                4 => {
                    let l = b.len() - 64;
                    b = other.signed(b[..l].to_vec())
                }
                // signed by the peer, for another endpoint
                5 => {
                    let mut c = sha256(&epk);
                    let i = cx.choose(32);
                    match cx.choose(10) {
                        8 => c[i..].iter_mut().for_each(|x| *x = 0),
                        9 => c[..i].iter_mut().for_each(|x| *x ^= 0x55),
                        k => c[i] ^= 1 << k,
                    }
                    if c == sha256(&epk) {
                        return Err(Stop::Prune);
                    }
                    b = p0.id.signed(frame(T_ACK, &c, &body))
                }
                0 => {
                    let i = cx.choose(l);
                    b[i] ^= 1 << cx.choose(8)
                }
                1 => {
                    let i = cx.choose(l);
                    if b[i] == 0 {
                        return Err(Stop::Prune);
                    }
                    b[i] = 0
                }
                2 => b.truncate(cx.choose(l)),
                _ => {
                    let x = *cx.pick_from(&[1usize, 2, 16, 64]);
                    let y = *cx.pick_from(&[0u8, 7]);
                    b.resize(l + x, y)
                }
            }
            let mut d = w.drv();
            let h = Honest::new(&w, 0, 0, false);
            let mut p = h.prog();
            if which == 1 {
                for &x in &[H::OwnC, H::C, H::OwnA] {
                    h.apply(cx, &mut d, &mut p, x)?;
                }
            } else if cx.choose(2) == 1 {
                h.apply(cx, &mut d, &mut p, H::OwnC)?;
            }
            let what = format!("{} altered", ["CONNECT", "ACK"][which]);
            cx.step();
            let g = d.ep.recv_poll(&b);
            cx.log(|| format!("receive {} -> {:?}", what, g.as_ref().map(|v| show(v))));
            if let Err(Fault::Panic(p)) = &g {
                return cx.report("panic", || format!("panic: {}", p));
            }
            let ok = g.as_ref().map_or(true, |v| v.is_empty());
            cx.check(ok, "unjustified-event", || format!("{} is delivered: {:?}", what, g))?;
            for &own in &[H::OwnC, H::OwnA] {
                let _ = match own {
                    H::OwnC => d.ep.connect(None),
                    _ => d.ep.ack(None),
                };
            }
            let done = d.ep.try_clone().is_ok();
            cx.check(!done, "completed-without-peer", || format!("completed after {}", what))
        },
    )
}

/// Messages with much custom data, written by a genuine endpoint and altered on the way.
fn altered_large(mode: Mode, size: usize, step: usize) -> Scenario {
    // The peer's key is pinned: without the pin, an altered message can be one which somebody else signed
    // (Ed25519 accepts an all-zero signature by the all-zero key).
    let w = World::std(mode, true, false);
    let data: Vec<u8> =
        (0..size).map(|i| ((i as u64 + 3).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left((i % 59) as u32)) as u8).collect();
    let peer = EpSpec::new(mode, &w.p.id, w.p.eph, None);
    let mut offsets: Vec<usize> = (0..size + 200).step_by(step).collect();
    for k in 4..24 {
        for o in &[(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            if *o < size + 200 {
                offsets.push(*o);
            }
        }
    }
    offsets.sort_unstable();
    offsets.dedup();
    // written once
    let written = |w: &World| -> [Vec<u8>; 2] {
        let mut q = peer.build();
        let mut e = w.spec.build();
        let c = q.connect(Some(&data)).bytes;
        let own = e.connect(None).bytes;
        let _ = q.recv(&own);
        let a = q.ack(Some(&data)).bytes;
        [c, a]
    };
    let m = written(&w);
    let n = m[0].len().max(m[1].len());
    scenario(
        &format!("altered messages of {} bytes, {:?}", size, mode),
        0,
        &format!("CONNECT and ACK written by a genuine endpoint with {} bytes of custom data: one byte altered at {} places from the start and from the end, everything after it dropped or zeroed", size, offsets.len()),
        move |cx| {
            let which = cx.choose(2);
            let mut b = m[which].clone();
            let i = *cx.pick_from(&offsets);
            let from_end = cx.flag();
            if i >= b.len() {
                return Err(Stop::Prune);
            }
            let i = if from_end { b.len() - 1 - i } else { i };
            match cx.choose(3) {
                0 => b[i] ^= 0x10,
                1 => b.truncate(i),
                _ => b[i..].iter_mut().for_each(|x| *x = 0),
            }
            if b == m[which] {
                return Err(Stop::Prune);
            }
            let _ = n;
            let mut e = w.spec.build();
            if which == 1 {
                let _ = e.connect(None);
                let g = e.recv_poll(&m[0]);
                let ok = g.as_ref().map_or(false, |v| v.len() == 1);
                cx.check(ok, "genuine-refused", || format!("the genuine CONNECT is not delivered: {:?}", g.map(|v| show(&v))))?;
                let _ = e.ack(None);
            }
            cx.step();
            let g = e.recv_poll(&b);
            cx.log(|| format!("receive {} altered at {} -> {:?}", ["CONNECT", "ACK"][which], i, g.as_ref().map(|v| show(v))));
            let ok = g.as_ref().map_or(true, |v| v.is_empty());
            cx.check(ok, "unjustified-event", || format!("{} altered at offset {} of {} is delivered", ["CONNECT", "ACK"][which], i, b.len()))?;
            cx.check(e.try_clone().is_err(), "completed-without-peer", || "completed after an altered message".into())
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C01",
        level: "model_checking",
        rule: "An active attacker is enumerated: every sequence, up to the bound, of deliveries from a list of everything it can obtain or construct without the peer's key, interleaved with the endpoint's own steps. After each step an oracle that only looks at the delivered bytes decides whether each CONNECT and ACK event and the completion itself are justified.",
        assumptions: &[
            "The attacker cannot forge Ed25519 signatures; the list stands for the attacker's possibilities (Dolev-Yao) but is finite",
            "Validity of a signature is decided by ring",
        ],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                for &p in &[false, true] {
                    v.push(attack(m, p, if thorough { 4 } else { 3 }, false));
                    v.push(attack(m, p, if thorough { 6 } else { 4 }, true));
                }
                v.push(middle(m, if thorough { 6 } else { 5 }));
                v.push(nearly(m));
                for &p in &[false, true] {
                    v.push(altered(m, p));
                }
                v.push(altered_large(m, 3_000, if thorough { 1 } else { 3 }));
                v.push(altered_large(m, 70_000, if thorough { 37 } else { 997 }));
            }
            v
        },
    }
}
