//! Honest negotiation completes under every message order: two real endpoints, all interleavings.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum S {
    OwnC(usize),
    OwnA(usize),
    Write(usize),
    Take(usize),
    Drain(usize),
    /// deliver the k-th message under way
    Deliver(usize),
}

struct Net {
    to: usize,
    name: &'static str,
    bytes: Arc<Vec<u8>>,
    id: u32,
}

#[derive(Clone)]
struct Setting {
    spec: [EpSpec; 2],
    keys: [Arc<BTreeMap<[u8; 32], SessionKey>>; 2],
    writes: [usize; 2],
    data: bool,
    poll_at_once: bool,
    merge: bool,
}

fn setting(mode: Mode, known: (bool, bool), gt: bool, writes: [usize; 2], data: bool, poll_at_once: bool, merge: bool) -> Setting {
    let ids = [Id::new(seed(201)), Id::new(seed(202))];
    let (s1, s2) = (seed(1), seed(2));
    let ephs = if (epk_of(s1) > epk_of(s2)) == gt { [s1, s2] } else { [s2, s1] };
    let spec = [
        EpSpec::new(mode, &ids[0], ephs[0], if known.0 { Some(ids[1].pk.clone()) } else { None }),
        EpSpec::new(mode, &ids[1], ephs[1], if known.1 { Some(ids[0].pk.clone()) } else { None }),
    ];
    let e = [epk_of(ephs[0]), epk_of(ephs[1])];
    let k = session_key(ephs[0], &e[1]).unwrap();
    let m = |p: [u8; 32]| {
        let mut m = BTreeMap::new();
        m.insert(p, k.clone());
        Arc::new(m)
    };
    Setting { spec, keys: [m(e[1]), m(e[0])], writes, data, poll_at_once, merge }
}

fn run(cx: &mut Ctx, s: &Setting) -> R {
    let mut d = [Drv::new(&s.spec[0], &s.keys[0]), Drv::new(&s.spec[1], &s.keys[1])];
    let mode = s.spec[0].mode;
    let mut wrote = [0usize; 2];
    let mut net: Vec<Net> = vec![];
    let mut next_id = 0;
    let payload = |i: usize, what: &str| -> Option<Vec<u8>> {
        if s.data {
            Some(format!("{} of {}", what, i).into_bytes())
        } else {
            None
        }
    };
    loop {
        let mut menu: Vec<S> = vec![];
        for i in 0..2 {
            let m = &d[i].m;
            if !m.sent_c {
                menu.push(S::OwnC(i));
            }
            if m.peer.is_some() && !m.sent_a {
                menu.push(S::OwnA(i));
            }
            if m.success() && wrote[i] < s.writes[i] {
                menu.push(S::Write(i));
            }
            if mode == Mode::Min {
                if m.stash.is_some() && m.peer.is_some() {
                    if s.poll_at_once {
                        menu = vec![S::Take(i)];
                        break;
                    }
                    menu.push(S::Take(i));
                }
                if m.success() && !m.held.is_empty() {
                    if s.poll_at_once {
                        menu = vec![S::Drain(i)];
                        break;
                    }
                    menu.push(S::Drain(i));
                }
            }
        }
        if !(s.poll_at_once && menu.len() == 1 && (matches!(menu[0], S::Take(_)) || matches!(menu[0], S::Drain(_)))) {
            for k in 0..net.len() {
                menu.push(S::Deliver(k));
            }
        }
        if menu.is_empty() {
            break;
        }
        if s.merge {
            let mut w: Vec<u32> = net.iter().map(|n| n.id).collect();
            w.sort_unstable();
            let a = crate::engine::h64(&d[0].m.abs());
            let b = crate::engine::h64(&d[1].m.abs());
            let names: Vec<(usize, u64)> = net.iter().map(|n| (n.to, crate::engine::h64(&*n.bytes))).collect();
            let mut names = names;
            names.sort_unstable();
            cx.first_visit(&(a, b, wrote, names))?;
        }
        let c = menu[cx.choose(menu.len())];
        let mut emit = |cx: &mut Ctx, d: &mut Drv, i: usize, op: Op, name: &'static str, net: &mut Vec<Net>| -> R {
            d.op(cx, &op)?;
            next_id += 1;
            net.push(Net { to: 1 - i, name, bytes: Arc::new(d.emitted.last().cloned().unwrap_or_default()), id: next_id });
            Ok(())
        };
        match c {
            S::OwnC(i) => emit(cx, &mut d[i], i, Op::Connect(payload(i, "connect")), "CONNECT", &mut net)?,
            S::OwnA(i) => emit(cx, &mut d[i], i, Op::Ack(payload(i, "ack")), "ACK", &mut net)?,
            S::Write(i) => {
                let t = format!("message {} of {}", wrote[i], i).into_bytes();
                wrote[i] += 1;
                emit(cx, &mut d[i], i, Op::User(t), "USER", &mut net)?
            }
            S::Take(i) => d[i].op(cx, &Op::TakeAck)?,
            S::Drain(i) => d[i].op(cx, &Op::Drain)?,
            S::Deliver(k) => {
                let n = net.remove(k);
                d[n.to].op(cx, &Op::Recv(n.name, n.bytes))?
            }
        }
    }
    // both completed, everything delivered exactly once
    for i in 0..2 {
        let j = 1 - i;
        cx.check(d[i].m.success(), "not-completed", || format!("endpoint {} has not completed", i))?;
        let mut want = vec![
            Ev::Connect { key: s.spec[j].id.pk.clone(), data: payload(j, "connect") },
            Ev::Ack { data: payload(j, "ack") },
        ];
        for n in 0..s.writes[j] {
            want.push(Ev::User { data: format!("message {} of {}", n, j).into_bytes() });
        }
        let got = d[i].delivered.clone();
        let same = got.len() == want.len() && want.iter().all(|e| got.iter().filter(|g| *g == e).count() == 1);
        cx.check(same, "wrong-deliveries", || format!("endpoint {} was delivered {} instead of {}", i, show(&got), show(&want)))?;
        d[i].op(cx, &Op::CloneDrop)?;
    }
    // same session key: each understands the other
    for i in 0..2 {
        d[i].op(cx, &Op::User(b"final".to_vec()))?;
        let b = d[i].emitted.last().cloned().unwrap_or_default();
        d[1 - i].op(cx, &msg("final USER", b))?;
    }
    cx.count("sessions completed");
    Ok(())
}

fn scen(name: &str, s: Setting) -> Scenario {
    let known = (s.spec[0].expected.is_some(), s.spec[1].expected.is_some());
    scenario(
        &format!(
            "{}, {:?}, peer key known {:?}, {} {} messages, {}{}",
            name,
            s.spec[0].mode,
            known,
            if s.data { "custom data," } else { "no custom data," },
            s.writes[0] + s.writes[1],
            if epk_of(s.spec[0].eph) > epk_of(s.spec[1].eph) { "larger key first" } else { "larger key second" },
            if s.poll_at_once { "" } else { ", polling at any time" }
        ),
        0,
        if s.merge { "all interleavings of local steps and deliveries; states of the pair merged" } else { "all interleavings of local steps and deliveries" },
        move |cx| run(cx, &s),
    )
}

/// Real randomness: the verdict does not depend on chosen keys.
fn random_keys(mode: Mode, n: usize) -> Scenario {
    scenario(
        &format!("random keys, {:?}", mode),
        0,
        &format!("{} pairs of endpoints with system randomness, 6 orders", n),
        move |cx| {
            let _ = cx.choose(n);
            let order = cx.choose(6);
            let s = setting(mode, (false, false), true, [0, 0], true, true, false);
            let mut a = s.spec[0].build_random();
            let mut b = s.spec[1].build_random();
            let ca = a.connect(Some(b"ca")).bytes;
            let cb = b.connect(Some(b"cb")).bytes;
            let mut ev: [Vec<Ev>; 2] = [vec![], vec![]];
            let mut fault = None;
            {
                let mut put = |i: usize, r: Res<Vec<Ev>>| match r {
                    Ok(v) => ev[i].extend(v),
                    Err(f) => fault = Some((i, f)),
                };
                if order % 2 == 0 {
                    put(0, a.recv_poll(&cb));
                    let aa = a.ack(None).bytes;
                    if order == 0 {
                        put(1, b.recv_poll(&ca));
                        put(1, b.recv_poll(&aa));
                        let ab = b.ack(None).bytes;
                        put(0, a.recv_poll(&ab));
                    } else if order == 2 {
                        put(1, b.recv_poll(&aa));
                        put(1, b.recv_poll(&ca));
                        let ab = b.ack(None).bytes;
                        put(0, a.recv_poll(&ab));
                    } else {
                        put(1, b.recv_poll(&ca));
                        let ab = b.ack(None).bytes;
                        put(0, a.recv_poll(&ab));
                        put(1, b.recv_poll(&aa));
                    }
                } else {
                    put(1, b.recv_poll(&ca));
                    let ab = b.ack(None).bytes;
                    put(0, a.recv_poll(&ab));
                    put(0, a.recv_poll(&cb));
                    let aa = a.ack(None).bytes;
                    put(1, b.recv_poll(&aa));
                }
            }
            cx.step();
            cx.check(fault.is_none(), "refused", || format!("an honest message is refused: {:?}", fault))?;
            let m = a.user(b"over").bytes;
            let got = b.recv(&m);
            cx.check(got == Ok(vec![Ev::User { data: b"over".to_vec() }]), "not-completed", || format!("{:?}", got))?;
            cx.check(ev[0].len() == 2 && ev[1].len() == 2, "wrong-deliveries", || format!("{:?}", ev))
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C05",
        level: "model_checking",
        rule: "Two real endpoints and a network that delivers each message once in any order: every interleaving of local steps, deliveries and (minimal mode) polling is executed; at the end both have completed under one key and each message was delivered exactly once.",
        assumptions: &["In the scenarios marked 'states merged' a state of the pair is identified with the states of the two reference models, which each endpoint follows in lock step"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                for &k in &[(false, false), (true, false), (true, true), (false, true)] {
                    for &gt in &[true, false] {
                        let any = m == Mode::Cmp;
                        v.push(scen("negotiation", setting(m, k, gt, [0, 0], true, true, false)));
                        v.push(scen("negotiation", setting(m, k, gt, [0, 0], false, any, false)));
                        v.push(scen("with traffic", setting(m, k, gt, [1, 1], true, any, false)));
                        v.push(scen("with traffic", setting(m, k, gt, [2, 1], false, any, false)));
                        if thorough {
                            v.push(scen("more traffic", setting(m, k, gt, [2, 2], true, any, false)));
                            v.push(scen("much traffic", setting(m, k, gt, [4, 3], true, any, true)));
                        }
                    }
                }
                v.push(random_keys(m, if thorough { 2000 } else { 200 }));
            }
            v
        },
    }
}
