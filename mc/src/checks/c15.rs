//! Heap memory given back by endpoints is scanned for key material.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::refp::*;
use crate::sut::{call, take_hits, watch_heap, SecretSet};
use pkstl::Seed32;
use std::sync::atomic::Ordering::*;

/// 8-byte pieces of every secret, at every fourth offset.
fn secrets(list: &[(&str, &[u8])]) -> &'static SecretSet {
    let mut v = vec![];
    for (n, s) in list {
        let mut i = 0;
        while i + 8 <= s.len() {
            let mut k = [0; 8];
            k.copy_from_slice(&s[i..i + 8]);
            v.push((format!("{} (bytes {}..{})", n, i, i + 8), k));
            i += 4;
        }
    }
    SecretSet::leak(v)
}

/// What earlier calls left on the stack must not reach the heap as padding of moved values.
#[inline(never)]
fn clear_stack() {
    let mut a = std::mem::MaybeUninit::<[u64; 8192]>::uninit();
    let p = a.as_mut_ptr() as *mut u64;
    for i in 0..8192 {
        unsafe { std::ptr::write_volatile(p.add(i), 0) };
    }
    std::hint::black_box(&a);
}
/// Executes a call of the code under test with its heap releases scanned.
fn watched<T>(cx: &mut Ctx, set: &'static SecretSet, what: &str, f: impl FnOnce() -> T) -> R<T> {
    clear_stack();
    watch_heap(Some(set));
    let r = call(f);
    watch_heap(None);
    let t = match r {
        Ok(t) => t,
        Err(p) => {
            cx.report("panic", || format!("{} panics: {}", what, p))?;
            return Err(crate::engine::Stop::Prune);
        }
    };
    let hits = take_hits();
    if let Some(h) = hits.first() {
        cx.report("not-erased", || format!("{}: {} ({} hits)", what, h, hits.len()))?;
    }
    Ok(t)
}

fn key_secrets(w: &World) -> &'static SecretSet {
    let s = dh_secret(w.spec.eph, &w.p.epk).unwrap();
    secrets(&[("session key", &w.key.0[..32]), ("session nonce", &w.key.0[32..44]), ("shared secret", &s)])
}

/// Is the key in the endpoint's own block while it is alive? (shows that the scan is not vacuous)
fn live(e: &Ep, key: &[u8]) -> bool {
    let (p, n) = match &e.inner {
        Inner::Min(m) => (&**m as *const _ as *const u8, std::mem::size_of_val(&**m)),
        Inner::Cmp(m) => (&**m as *const _ as *const u8, std::mem::size_of_val(&**m)),
    };
    // byte-wise volatile reads of a live allocation
    let mem: Vec<u8> = (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect();
    mem.windows(8).any(|x| x == &key[..8])
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    OwnC,
    C,
    OwnA,
    A,
    U(u64),
    Out,
    Take,
    Drain,
    Clone,
    Garbage,
    Tampered,
    Early,
    Stranger,
    Config,
}

/// The state needed to choose the next steps; the endpoint itself is not modelled.
fn histories(mode: Mode, known: bool, depth: usize, all: bool) -> Scenario {
    let w = World::std(mode, known, true);
    let set = key_secrets(&w);
    let stranger = Peer::new(&Id::new(seed(91)), seed(92));
    scenario(
        &format!("all releases, {}, {}", w.name, if all { "with failures" } else { "honest" }),
        0,
        &format!("every sequence of up to {} calls, the endpoint and its clones dropped after each of them in both orders; every heap block released by a call or a drop is scanned for 8-byte pieces of the session key, nonce and shared secret", depth),
        move |cx| {
            let mut eps: Vec<Option<Ep>> = vec![];
            let e = watched(cx, set, "create", || w.spec.build())?;
            eps.push(Some(e));
            let (mut own_c, mut c, mut own_a, mut a, mut u, mut clones) = (0, 0, 0, 0, 0u64, 0);
            for _ in 0..depth {
                let i = if eps.len() > 1 { cx.choose(eps.len()) } else { 0 };
                let mut menu: Vec<Option<S>> = vec![None];
                if own_c == 0 {
                    menu.push(Some(S::OwnC));
                }
                if c == 0 {
                    menu.push(Some(S::C));
                }
                if c == 1 && own_a == 0 {
                    menu.push(Some(S::OwnA));
                }
                if own_c == 1 && a == 0 {
                    menu.push(Some(S::A));
                }
                let all_done = own_c + c + own_a + a == 4;
                if own_c + c + own_a >= 3 {
                    menu.push(Some(S::U(u)));
                    if mode == Mode::Min && all_done {
                        menu.push(Some(S::Drain));
                    }
                }
                if mode == Mode::Min && c == 1 && a == 1 {
                    menu.push(Some(S::Take));
                }
                if all_done {
                    menu.push(Some(S::Out));
                    if clones < 2 {
                        menu.push(Some(S::Clone));
                    }
                }
                if all {
                    menu.push(Some(S::Garbage));
                    menu.push(Some(S::Early));
                    menu.push(Some(S::Stranger));
                    if c == 1 {
                        menu.push(Some(S::Tampered));
                    }
                    menu.push(Some(S::Config));
                }
                let s = match menu[cx.choose(menu.len())] {
                    None => break,
                    Some(s) => s,
                };
                cx.step();
                cx.log(|| format!("handle {}: {:?}", i, s));
                let mut new = None;
                {
                    let e = eps[i].as_mut().unwrap();
                    let ok = match s {
                        S::OwnC => {
                            own_c = 1;
                            watched(cx, set, "create CONNECT", || e.connect(Some(b"x")).res.is_ok())?
                        }
                        S::OwnA => {
                            own_a = 1;
                            watched(cx, set, "create ACK", || e.ack(Some(b"x")).res.is_ok())?
                        }
                        S::C => {
                            c = 1;
                            let b = w.connect(Some(b"y"));
                            watched(cx, set, "receive CONNECT", || e.recv(&b).is_ok())?
                        }
                        S::A => {
                            a = 1;
                            let b = w.ack(Some(b"y"));
                            watched(cx, set, "receive ACK", || e.recv(&b).is_ok())?
                        }
                        S::U(n) => {
                            u += 1;
                            let b = w.user(n, b"hello");
                            watched(cx, set, "receive USER", || e.recv(&b).is_ok())?
                        }
                        S::Out => watched(cx, set, "write USER", || e.user(b"hello").res.is_ok())?,
                        S::Early => watched(cx, set, "write USER", || e.user(b"early").res.is_ok())?,
                        S::Take => watched(cx, set, "take early ACK", || e.take_ack().is_ok())?,
                        S::Drain => watched(cx, set, "drain", || e.drain().is_ok())?,
                        S::Garbage => watched(cx, set, "receive garbage", || e.recv(&[7; 99]).is_ok())?,
                        S::Stranger => {
                            let b = stranger.connect(&[]);
                            watched(cx, set, "receive CONNECT of a stranger", || e.recv(&b).is_ok())?
                        }
                        S::Tampered => {
                            let mut b = w.user(u, b"tampered");
                            let l = b.len();
                            b[l - 3] ^= 1;
                            watched(cx, set, "receive a tampered USER", || e.recv(&b).is_ok())?
                        }
                        S::Config => watched(cx, set, "change_config", || e.set_config(config(1)).is_ok())?,
                        S::Clone => {
                            clones += 1;
                            new = watched(cx, set, "clone", || e.try_clone().ok())?;
                            new.is_some()
                        }
                    };
                    cx.observe(&ok);
                }
                if let Some(n) = new {
                    eps.push(Some(n));
                }
            }
            let first = if eps.len() > 1 { cx.choose(2) } else { 0 };
            let n = eps.len();
            for k in 0..n {
                let i = if first == 0 { k } else { n - 1 - k };
                let e = eps[i].take().unwrap();
                if live(&e, &w.key.0) {
                    cx.count("endpoints that held the key when dropped");
                }
                cx.step();
                watched(cx, set, "drop", move || drop(e))?;
                cx.count("drops");
                // the others still work
                if k + 1 < n {
                    let j = if first == 0 { k + 1 } else { n - 2 - k };
                    let e = eps[j].as_mut().unwrap();
                    watched(cx, set, "write USER", || e.user(b"after the drop of a handle").res.is_ok())?;
                }
            }
            Ok(())
        },
    )
}

/// Large and many messages: buffers that grow and are released.
fn traffic(mode: Mode) -> Scenario {
    let w = World::std(mode, false, false);
    let set = key_secrets(&w);
    scenario(
        &format!("releases during traffic, {:?}", mode),
        0,
        "messages of 0 to 100000 bytes in both directions, tampered ones, 1500 messages ahead, clones; all releases scanned",
        move |cx| {
            let n = *cx.pick_from(&[0usize, 1, 40, 1000, 8192, 9000, 70_000, 100_000]);
            let kind = cx.choose(3);
            let mut e = watched(cx, set, "create", || w.spec.build())?;
            let c = w.connect(None);
            let a = w.ack(None);
            watched(cx, set, "create CONNECT", || e.connect(None))?;
            watched(cx, set, "receive CONNECT", || e.recv(&c).is_ok())?;
            watched(cx, set, "create ACK", || e.ack(None))?;
            watched(cx, set, "receive ACK", || e.recv(&a).is_ok())?;
            let d: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
            match kind {
                0 => {
                    for i in 0..5 {
                        let b = w.user(i, &d);
                        cx.step();
                        let ok = watched(cx, set, "receive USER", || e.recv(&b).is_ok())?;
                        let ok2 = watched(cx, set, "write USER", || e.user(&d).res.is_ok())?;
                        cx.observe(&(ok, ok2));
                    }
                }
                1 => {
                    for i in 0..if n < 50 { 1500 } else { 20 } {
                        let b = w.user(2 * i + 1, &d);
                        cx.step();
                        watched(cx, set, "receive USER", || e.recv(&b).is_ok())?;
                    }
                    let f = watched(cx, set, "clone", || e.try_clone().ok())?;
                    watched(cx, set, "drop", move || drop(e))?;
                    if let Some(f) = f {
                        watched(cx, set, "drop", move || drop(f))?;
                    }
                    return Ok(());
                }
                _ => {
                    let mut b = w.user(0, &d);
                    let l = b.len();
                    b[l / 2] ^= 4;
                    cx.step();
                    watched(cx, set, "receive a tampered USER", || e.recv(&b).is_ok())?;
                    let b = w.user(0, &d);
                    watched(cx, set, "receive USER", || e.recv(&b).is_ok())?;
                }
            }
            watched(cx, set, "drop", move || drop(e))
        },
    )
}

/// Seeds.
fn seeds() -> Scenario {
    scenario("seeds", 0, "Seed32 made from every of 64 byte patterns, boxed, in vectors, cloned, modified through AsMut, moved, dropped in both orders, given to an endpoint", move |cx| {
        let pat = cx.choose(64) as u8;
        let way = cx.choose(6);
        let mut s = seed(pat.wrapping_mul(3).wrapping_add(1));
        s[31] ^= pat;
        let mut t = s;
        t[0] ^= 0x55;
        t[9] ^= 0x55;
        t[18] ^= 0x55;
        t[27] ^= 0x55;
        let set = secrets(&[("seed", &s), ("modified seed", &t)]);
        cx.step();
        let live = |b: &Seed32| b.as_ref() == &s[..];
        match way {
            0 => {
                let b = Box::new(Seed32::new(s));
                cx.check(live(&b), "seed-wrong", || "a seed does not contain its bytes".into())?;
                watched(cx, set, "drop of a seed", move || drop(b))
            }
            1 => {
                let b = Box::new(Seed32::new(s));
                let c = Box::new((*b).clone());
                cx.check(live(&c) && live(&b), "seed-wrong", || "a cloned seed differs".into())?;
                watched(cx, set, "drop of a seed", move || drop(b))?;
                cx.check(live(&c), "seed-wrong", || "dropping a seed erases its clone".into())?;
                watched(cx, set, "drop of a cloned seed", move || drop(c))
            }
            2 => {
                let v: Vec<Seed32> = (0..5).map(|_| Seed32::new(s)).collect();
                watched(cx, set, "drop of a vector of seeds", move || drop(v))
            }
            3 => {
                let mut b = Box::new(Seed32::new(s));
                b.as_mut().as_mut().copy_from_slice(&t);
                watched(cx, set, "drop of a modified seed", move || drop(b))
            }
            4 => {
                let b = Box::new(Some(Seed32::new(s)));
                watched(cx, set, "drop of an optional seed", move || drop(b))
            }
            _ => {
                let b = Box::new(std::sync::Arc::new(Seed32::new(s)));
                let c = (*b).clone();
                watched(cx, set, "drop of one reference", move || drop(b))?;
                cx.check(live(&c), "seed-wrong", || "dropping a reference erases the seed".into())?;
                watched(cx, set, "drop of the last reference", move || drop(c))
            }
        }
    })
}

/// Positive control: the scanner does find what is not erased.
fn control() -> Scenario {
    scenario("control of the scanner", 0, "a block that is not erased is reported", move |cx| {
        let s = seed(77);
        let set = secrets(&[("control", &s)]);
        cx.step();
        watch_heap(Some(set));
        let r = call(|| {
            let v = std::hint::black_box(s.to_vec());
            drop(v);
        });
        watch_heap(None);
        let n = take_hits().len();
        assert!(r.is_ok() && n > 0, "the heap scanner does not work");
        assert!(set.scanned.load(SeqCst) > 0 && set.bytes.load(SeqCst) > 0);
        cx.count_n("control hits", n as u64);
        Ok(())
    })
}

pub fn check() -> Check {
    Check {
        id: "C15",
        level: "model_checking",
        rule: "The harness owns the allocator. In every sequence of calls up to the stated depth, with clones and failures, and with the endpoints dropped at every point and in both orders, every heap block released by a call or a drop is scanned for 8-byte pieces of the session key, the nonce and the shared secret before it is given back; the same for seeds. A control shows that unerased blocks are found, and it is counted how often the dropped endpoint did hold the key.",
        assumptions: &["Stack and registers are out of scope", "The ephemeral private key kept by ring until it is used is not erased by ring and is not part of the property"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![control()];
            for &m in &MODES {
                for &k in &[false, true] {
                    v.push(histories(m, k, if thorough { 10 } else { 8 }, false));
                    v.push(histories(m, k, if thorough { 7 } else { 6 }, true));
                }
                v.push(traffic(m));
            }
            v.push(seeds());
            v
        },
    }
}
