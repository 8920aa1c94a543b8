//! Only exactly well-formed messages are accepted.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;

const MARK: &[u8] = b"MARKED DATA OF A DEVIATING MESSAGE";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum L {
    Connect,
    Ack,
    User,
}
const LAYOUTS: [L; 3] = [L::Connect, L::Ack, L::User];

/// The frame of a genuine message that carries the mark.
fn genuine(w: &World, l: L) -> Vec<u8> {
    let body = w.wrap(Some(MARK));
    match l {
        L::Connect => frame(T_CONNECT, &connect_headers(&w.p.epk, &SIG_ALGO, &w.p.id.pk), &body),
        L::Ack => frame(T_ACK, &sha256(&w.epk), &body),
        L::User => frame(T_USER, &0u64.to_be_bytes(), &body),
    }
}
/// Signature or hash, encryption.
fn seal(w: &World, f: Vec<u8>, signed: bool, encrypted: bool) -> Vec<u8> {
    let b = if signed { w.p.id.signed(f) } else { hashed(f) };
    if encrypted {
        w.key.seal(&b)
    } else {
        b
    }
}
fn normal(w: &World, l: L, f: Vec<u8>) -> Vec<u8> {
    seal(w, f, l != L::User, l == L::User)
}

/// The situations in which a message of that layout would be accepted.
fn stages(l: L) -> &'static [&'static [H]] {
    use H::*;
    match l {
        L::Connect => &[&[OwnC], &[], &[OwnC, A]],
        L::Ack => &[&[OwnC, C, OwnA], &[OwnC, C], &[OwnC]],
        L::User => &[&[OwnC, C, OwnA, A], &[OwnC, C, OwnA], &[OwnC, C, OwnA, A, U(0), Out, U(1)]],
    }
}

fn marked(v: &[Ev]) -> bool {
    v.iter().any(|e| {
        let d = match e {
            Ev::Connect { data, .. } | Ev::Ack { data } => data.clone().unwrap_or_default(),
            Ev::User { data } => data.clone(),
        };
        // a deviating length may cut the mark or add to it
        d.windows(12).any(|x| MARK.windows(12).any(|y| x == y))
    })
}

/// One deviating message in one situation, then the honest rest.
fn deviant(cx: &mut Ctx, w: &World, honest: &Honest, stage: &[H], what: &dyn Fn() -> String, bytes: &[u8]) -> R {
    let mut d = w.drv();
    let mut p = honest.prog();
    for &h in stage {
        honest.apply(cx, &mut d, &mut p, h)?;
    }
    let keyed = d.m.known_key().is_some();
    cx.step();
    let r = d.ep.recv(bytes);
    cx.log(|| format!("receive {} -> {:?}", what(), r.as_ref().map(|v| show(v))));
    cx.observe(&r.is_ok());
    match &r {
        Err(Fault::Panic(e)) => return cx.report("panic", || format!("{} makes the endpoint panic: {}", what(), e)),
        Err(_) => (),
        Ok(v) => {
            // an ACK that arrives before the peer is known can only be judged later
            cx.check(v.is_empty() && !keyed, "accepted", || format!("{} is accepted: {}", what(), show(v)))?
        }
    }
    // whatever happens later, its content does not show up
    let mut got = vec![];
    let mut keep = |r: Res<Vec<Ev>>| got.extend(r.unwrap_or_default());
    for _ in 0..2 {
        if !p.c {
            if let Op::Recv(_, b) = &honest.c {
                keep(d.ep.recv(b));
            }
            keep(d.ep.take_ack());
        }
        if !d.m.sent_c {
            d.ep.connect(None);
        }
        if !d.m.sent_a {
            d.ep.ack(None);
        }
        if !p.a {
            if let Op::Recv(_, b) = &honest.a {
                keep(d.ep.recv(b));
            }
        }
        keep(d.ep.take_ack());
        keep(d.ep.drain());
        if let Op::Recv(_, b) = &honest.users[1] {
            keep(d.ep.recv(b));
        }
    }
    cx.check(!marked(&got), "delivered-later", || format!("the content of {} is delivered later", what()))
}

fn honest(w: &World) -> Honest {
    Honest::new(w, 2, 1, false)
}

/// Positive control and exact acceptance.
fn control(mode: Mode, known: bool) -> Scenario {
    let w = World::std(mode, known, true);
    let h = honest(&w);
    scenario(&format!("the genuine messages, {}", w.name), 0, "without a deviation each of them is accepted in its situations and its content delivered", move |cx| {
        let l = *cx.pick_from(&LAYOUTS);
        let s = *cx.pick_from(stages(l));
        if l == L::User && s.len() > 4 {
            return Ok(());
        }
        let mut d = w.drv();
        let mut p = h.prog();
        for &x in s {
            h.apply(cx, &mut d, &mut p, x)?;
        }
        let b = normal(&w, l, genuine(&w, l));
        d.op(cx, &msg("the genuine message", b))?;
        let rest = d.m.clone();
        if l == L::Connect {
            p.c = true;
        }
        if l == L::Ack {
            p.a = true;
        }
        if l == L::User {
            p.users[0] = true;
        }
        drop(rest);
        h.finish(cx, &mut d, &mut p)?;
        cx.check(marked(&d.delivered), "refused", || format!("a genuine {:?} is not delivered", l))
    })
}

/// All message types.
fn types(mode: Mode, known: bool, l: L, natural: bool, all: bool) -> Scenario {
    let w = World::std(mode, known, l != L::Ack);
    let h = honest(&w);
    let f = genuine(&w, l);
    let right = match l {
        L::Connect => T_CONNECT,
        L::Ack => T_ACK,
        L::User => T_USER,
    };
    let list: Vec<u16> = (0..=0xffffu16)
        .filter(|t| *t != right || !natural)
        .filter(|t| all || *t < 300 || t & 0xff < 4 || *t > 0xff00 || t.count_ones() < 3)
        .collect();
    scenario(
        &format!("types, {:?} layout, {}{}", l, w.name, if natural { "" } else { ", wrong encryption state" }),
        0,
        &format!("{} message types in genuinely {} messages", list.len(), if natural { "sealed" } else { "signed or hashed" }),
        move |cx| {
            let t = list[cx.choose((list.len() + 255) / 256) * 256..].iter().take(256).cloned().collect::<Vec<_>>();
            let t = *cx.pick_from(&t);
            let mut g = f.clone();
            g[16..18].copy_from_slice(&t.to_be_bytes());
            let enc = (l == L::User) == natural;
            // an encrypted message can only be judged when the key is there
            let stage: &[H] = if enc { &[H::OwnC, H::C, H::OwnA, H::A] } else { stages(l)[0] };
            let b = seal(&w, g, l != L::User, enc);
            deviant(cx, &w, &h, stage, &|| format!("a {:?} layout with type {}{}", l, t, if enc { ", encrypted" } else { "" }), &b)
        },
    )
}

/// Deviations of the other fields: (description, bytes)
fn deviations(w: &World, l: L) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let f = genuine(w, l);
    let user = l == L::User;
    let mut fields: Vec<(&str, usize, usize)> = vec![("magic value", 0, 4), ("version", 4, 8)];
    if l == L::Connect {
        fields.push(("signature algorithm", 18 + 32, 18 + 36));
    }
    if l == L::Ack {
        fields.push(("challenge", 18, 50));
    }
    for (n, a, b) in fields {
        for i in a..b {
            for x in 1..=255u8 {
                if n == "challenge" && x.count_ones() != 1 {
                    continue;
                }
                let mut g = f.clone();
                g[i] ^= x;
                v.push((format!("{:?} with byte {} of the {} = {:#x}", l, i - a, n, g[i]), normal(w, l, g)));
            }
        }
        // whole values
        for val in &[[0u8; 4], [0xff; 4], [0, 0, 0, 2], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 1, 1], [0xE2, 0xC2, 0xE2, 0xD3], [0xD2, 0xE2, 0xC2, 0xE2]] {
            if b - a == 4 && f[a..b] != val[..] {
                let mut g = f.clone();
                g[a..b].copy_from_slice(val);
                v.push((format!("{:?} with {} {:?}", l, n, val), normal(w, l, g)));
            }
        }
    }
    // length field
    let right = (f.len() - 16) as u64;
    let mut ls: Vec<u64> = (0..right + 200).collect();
    for s in 0..64 {
        ls.extend(&[1u64 << s, right ^ (1u64 << s), right.wrapping_add(1 << s), right.wrapping_sub(1 << s), right.rotate_left(s)]);
    }
    ls.extend(&[u64::max_value(), right.swap_bytes(), right | right << 32]);
    ls.sort_unstable();
    ls.dedup();
    for x in ls {
        if x == right {
            continue;
        }
        let mut g = f.clone();
        g[8..16].copy_from_slice(&x.to_be_bytes());
        v.push((format!("{:?} with length field {} instead of {}", l, x, right), normal(w, l, g.clone())));
        // signature or hash where the length field says, the rest kept behind it or dropped before it
        let end = 16 + x.min(right) as usize;
        if x < right && end >= 18 {
            let cut = g[..end].to_vec();
            let tail = g[end..].to_vec();
            let mut s = if user { hashed(cut) } else { w.p.id.signed(cut) };
            s.extend_from_slice(&tail);
            v.push((format!("{:?} with length field {} sealed there and more behind", l, x), if user { w.key.seal(&s) } else { s }));
        }
    }
    // total length
    let whole = if user { hashed(f.clone()) } else { w.p.id.signed(f.clone()) };
    let fin = |b: Vec<u8>| if user { w.key.seal(&b) } else { b };
    for k in 1..=140 {
        for &x in &[0u8, 0x5a] {
            let mut b = whole.clone();
            b.extend(vec![x; k]);
            v.push((format!("{:?} with {} bytes behind", l, k), fin(b)));
        }
        if k <= whole.len() {
            v.push((format!("{:?} with {} bytes missing", l, k), fin(whole[..whole.len() - k].to_vec())));
            v.push((format!("{:?} without its first {} bytes", l, k), fin(whole[k..].to_vec())));
        }
        // sealed with more data than the length field says
        let mut g = f.clone();
        g.extend(vec![0x33; k]);
        v.push((format!("{:?} with {} bytes more than its length field, sealed", l, k), normal(w, l, g)));
        if k + 18 < f.len() {
            v.push((format!("{:?} with {} bytes less than its length field, sealed", l, k), normal(w, l, f[..f.len() - k].to_vec())));
        }
        let mut g = vec![0; k];
        g.extend_from_slice(&whole);
        v.push((format!("{:?} behind {} zero bytes", l, k), fin(g)));
    }
    let mut twice = whole.clone();
    twice.extend_from_slice(&whole);
    v.push((format!("{:?} twice in one", l), fin(twice)));
    let mut s = whole.clone();
    s.extend_from_slice(&whole[f.len()..]);
    v.push((format!("{:?} with its seal twice", l), fin(s)));
    v.push((format!("{:?} without seal", l), fin(f.clone())));
    // seal of the other kind, other encryption state
    v.push((format!("{:?} sealed the other way", l), seal(w, f.clone(), user, user)));
    v.push((format!("{:?} with the other encryption state", l), seal(w, f.clone(), !user, !user)));
    v.push((format!("{:?} sealed the other way, with the other encryption state", l), seal(w, f.clone(), user, !user)));
    v.push((format!("{:?} encrypted twice", l), w.key.seal(&w.key.seal(&whole))));
    v.push((format!("{:?} signed and hashed", l), fin(hashed(w.p.id.signed(f.clone())))));
    v.push((format!("{:?} hashed and signed", l), fin(w.p.id.signed(hashed(f.clone())))));
    // an encrypted message with something around it
    if user {
        let e = w.key.seal(&whole);
        for k in 1..70 {
            let mut b = e.clone();
            b.extend(vec![0; k]);
            v.push((format!("encrypted USER with {} bytes behind", k), b));
            if k < e.len() {
                v.push((format!("encrypted USER with {} bytes missing", k), e[..e.len() - k].to_vec()));
            }
        }
        // the documented key and nonce with other associated data
        for i in 0..48 {
            let mut k = w.key.clone();
            k.0[i] ^= 1;
            v.push((format!("USER encrypted with byte {} of the key material changed", i), k.seal(&whole)));
        }
    }
    v
}
fn fields(mode: Mode, known: bool, l: L) -> Scenario {
    let w = World::std(mode, known, l != L::User);
    let h = honest(&w);
    let list = deviations(&w, l);
    scenario(
        &format!("fields, lengths and seals, {:?}, {}", l, w.name),
        0,
        &format!("{} deviations of a genuine message in {} situations", list.len(), stages(l).len()),
        move |cx| {
            let s = *cx.pick_from(stages(l));
            let k = cx.choose((list.len() + 255) / 256) * 256;
            let (n, b) = &list[k + cx.choose((list.len() - k).min(256))];
            deviant(cx, &w, &h, s, &|| n.clone(), b)
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C16",
        level: "exploration",
        rule: "Genuine messages with one deviation each, signed, hashed and encrypted genuinely around the deviation: every message type, every value of every byte of magic value, version and signature algorithm, every length field in a wide range, every number of bytes missing or added in every place, other kinds of seals and the other encryption state. Each is given to an endpoint in the situations in which the genuine message would be accepted; it must be refused and its marked content must never be delivered, then or after the honest rest of the session.",
        assumptions: &["An ACK that arrives before the peer's key is known may be kept instead of refused, as long as nothing of it is delivered later"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                for &k in &[false, true] {
                    v.push(control(m, k));
                    for &l in &LAYOUTS {
                        v.push(fields(m, k, l));
                    }
                }
                for &l in &LAYOUTS {
                    v.push(types(m, true, l, true, thorough || m == Mode::Min));
                    v.push(types(m, false, l, false, thorough));
                    if thorough {
                        v.push(types(m, false, l, true, true));
                        v.push(types(m, true, l, false, true));
                    }
                }
            }
            v
        },
    }
}
