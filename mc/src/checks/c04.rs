//! Reordered messages are all delivered, within the window of 10,000.
use super::*;
use crate::engine::scenario;
use crate::ep::*;

fn permutations(mode: Mode, n: usize, dev: u32) -> Scenario {
    let w = World::std(mode, true, true);
    let honest = Honest::new(&w, n, 0, false);
    let bad: Vec<(Op, usize)> = (0..n)
        .map(|i| (msg("other content under a received number", w.user(i as u64, b"forged")), i))
        .collect();
    scenario(
        &format!("all permutations of {} messages, {:?}", n, mode),
        dev,
        &format!("every arrival order, ACK at any position, up to {} duplicates or refused messages anywhere", dev),
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[7])?;
            loop {
                // deviations: a duplicate or a forged copy of a message already received
                let seen: Vec<usize> = (0..n).filter(|&i| p.users[i]).collect();
                let k = cx.deviate(1 + 2 * seen.len());
                if k > 0 {
                    let i = seen[(k - 1) / 2];
                    let op = if (k - 1) % 2 == 0 { &honest.users[i] } else { &bad[i].0 };
                    d.op(cx, op)?;
                    continue;
                }
                let m = honest.menu(&d.m, &p);
                if m.is_empty() {
                    break;
                }
                // the fetching of held back messages directly follows the ACK
                let h = if m.contains(&H::Drain) { H::Drain } else { m[cx.choose(m.len())] };
                honest.apply(cx, &mut d, &mut p, h)?;
            }
            let mut got: Vec<Vec<u8>> = d
                .delivered
                .iter()
                .filter_map(|e| if let Ev::User { data } = e { Some(data.clone()) } else { None })
                .collect();
            got.sort();
            let want: Vec<Vec<u8>> = (0..n).map(|i| format!("user {}", i).into_bytes()).collect();
            cx.check(got == want, "lost", || format!("delivered {:?}", got))
        },
    )
}

/// The window boundary: exactly 10,000 messages ahead of the oldest missing one.
fn window(mode: Mode, thorough: bool) -> Scenario {
    let w = World::std(mode, true, true);
    let honest = Honest::new(&w, 0, 0, false);
    let total = 3 * WINDOW as u64;
    let all: Vec<Op> = (0..total + 5).map(|i| msg("USER", w.user(i, &i.to_be_bytes()))).collect();
    let far = msg("USER 2^40", w.user(1 << 40, b"far"));
    let far_max = msg("USER max", w.user(u64::max_value(), b"far"));
    let starts: Vec<u64> = if thorough { vec![0, 1, 2, 300, 9_999, 10_001] } else { vec![0, 3] };
    scenario(
        &format!("window boundary, {:?}", mode),
        0,
        "s messages in order, message s missing, 10,000 others received ahead of it in several patterns; then one more message is refused and fails the connection, or the gap is filled and everything goes on",
        move |cx| {
            let start = *cx.pick_from(&starts);
            let pattern = cx.choose(6);
            let ending = cx.choose(7);
            let mut d = w.drv();
            let mut p = honest.prog();
            let late_ack = cx.flag();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[if late_ack { 7 } else { 9 }])?;
            for i in 0..start {
                d.op(cx, &all[i as usize])?;
            }
            let n = WINDOW as u64;
            // the i-th message ahead: numbers start+1 ..= start+10,000 (or spread over twice that range)
            let at = |i: u64| -> u64 {
                start
                    + match pattern {
                        0 => 1 + i,
                        1 => n - i,
                        2 => 1 + (i * 7919) % n,
                        3 => 1 + 2 * i,
                        4 => {
                            if i % 2 == 0 {
                                1 + i / 2
                            } else {
                                n - i / 2
                            }
                        }
                        _ => {
                            if i == 0 {
                                2 * n - 1
                            } else {
                                1 + i
                            }
                        }
                    }
            };
            for i in 0..n {
                d.op(cx, &all[at(i) as usize])?;
            }
            cx.check(d.m.ahead.len() == WINDOW && !d.m.failed, "window", || "10,000 messages ahead".into())?;
            // duplicates in the full window do no harm
            for i in 0..n {
                d.op(cx, &all[at(i) as usize])?;
            }
            if late_ack {
                honest.apply(cx, &mut d, &mut p, H::A)?;
                d.op(cx, &Op::Drain)?;
            }
            match ending {
                // one too many
                0 => d.op(cx, &all[(start + 2 * n + 1) as usize])?,
                1 => d.op(cx, &far)?,
                2 => d.op(cx, &far_max)?,
                // the gap is filled: all earlier messages are received, later ones still are
                _ => {
                    d.op(cx, &all[start as usize])?;
                    d.op(cx, &all[start as usize])?;
                    d.op(cx, &all[at(5) as usize])?;
                    // next in order, then jumps ahead again
                    let next = d.m.next_read;
                    d.op(cx, &all[next as usize])?;
                    let next = d.m.next_read;
                    match ending {
                        3 => {
                            d.op(cx, &all[next as usize + 1])?;
                            d.op(cx, &all[next as usize])?;
                        }
                        4 => d.op(cx, &far)?,
                        5 => {
                            d.op(cx, &far_max)?;
                            d.op(cx, &all[next as usize])?;
                        }
                        _ => {
                            // a second full window
                            let mut k = 0;
                            let mut i = next + 1;
                            while k + d.m.ahead.len() < WINDOW && (i as usize) < all.len() {
                                if !d.m.ahead.contains(&i) {
                                    d.op(cx, &all[i as usize])?;
                                }
                                i += 1;
                                k = 0;
                            }
                            d.op(cx, &all[next as usize])?;
                        }
                    }
                }
            }
            if ending < 3 {
                cx.count("overrun refused");
                assert!(d.m.failed);
                d.op(cx, &all[start as usize])?;
            }
            cx.count("window filled");
            Ok(())
        },
    )
}

/// Many messages held back until the ACK arrives, and a long stream after it.
fn many(mode: Mode, n: usize) -> Scenario {
    let w = World::std(mode, true, true);
    let honest = Honest::new(&w, 0, 0, false);
    let all: Vec<Op> = (0..n as u64).map(|i| msg("USER", w.user(i, &i.to_be_bytes()))).collect();
    let counts = [0, 1, 2, 127, 128, 255, 256, 257, 511, 1000, 1024, 1025, 4096, 4097, 9_999, WINDOW, WINDOW + 1, n / 2, n];
    scenario(
        &format!("long streams, {} messages, {:?}", n, mode),
        0,
        &format!("{} messages in order or with neighbours exchanged; the ACK arrives after {:?} of them", n, counts),
        move |cx| {
            let ack = *cx.pick_from(&counts);
            let swap = cx.flag();
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[7])?;
            for i in 0..n {
                if i == ack {
                    honest.apply(cx, &mut d, &mut p, H::A)?;
                    d.op(cx, &Op::Drain)?;
                }
                let j = if swap && (i ^ 1) < n { i ^ 1 } else { i };
                d.op(cx, &all[j])?;
            }
            if ack == n {
                honest.apply(cx, &mut d, &mut p, H::A)?;
                d.op(cx, &Op::Drain)?;
            }
            let got: std::collections::BTreeSet<&Vec<u8>> =
                d.delivered.iter().filter_map(|e| if let Ev::User { data } = e { Some(data) } else { None }).collect();
            cx.check(got.len() == n && !d.m.failed, "lost", || format!("{} of {} messages delivered", got.len(), n))
        },
    )
}

/// Several gaps at once.
fn gaps(mode: Mode) -> Scenario {
    let w = World::std(mode, false, true);
    let honest = Honest::new(&w, 0, 0, false);
    let all: Vec<Op> = (0..40u64).map(|i| msg("USER", w.user(i, &i.to_be_bytes()))).collect();
    scenario(
        &format!("all subsets of gaps, {:?}", mode),
        0,
        "of 12 messages any subset is delayed; the delayed ones then arrive in increasing or decreasing order, each followed by duplicates of its neighbours",
        move |cx| {
            let mask = cx.choose(1 << 12);
            let rev = cx.flag();
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
            for i in 0..12 {
                if mask & (1 << i) == 0 {
                    d.op(cx, &all[i])?;
                }
            }
            let mut late: Vec<usize> = (0..12).filter(|i| mask & (1 << i) != 0).collect();
            if rev {
                late.reverse();
            }
            for i in late {
                d.op(cx, &all[i])?;
                d.op(cx, &all[i])?;
            }
            d.op(cx, &all[12])?;
            for i in 0..=12 {
                d.op(cx, &all[i])?;
            }
            cx.check(d.delivered.len() == 2 + 13, "lost", || format!("{} events instead of 15", d.delivered.len()))
        },
    )
}

/// Numbers that have much in common.
fn apart(mode: Mode, n: usize) -> Scenario {
    let w = World::std(mode, true, false);
    let honest = Honest::new(&w, 0, 0, false);
    let nums: Vec<u64> = vec![
        0,
        1,
        255,
        256,
        257,
        65_535,
        65_536,
        65_537,
        (1 << 31) + 1,
        (1 << 32) - 1,
        1 << 32,
        (1 << 32) + 1,
        (1 << 63) - 1,
        1 << 63,
        (1 << 63) + 1,
        u64::max_value() - 1,
        u64::max_value(),
    ];
    let ops: Vec<Op> = nums.iter().map(|&i| msg("USER", w.user(i, &i.to_be_bytes()))).collect();
    scenario(
        &format!("numbers far apart, {} messages, {:?}", n, mode),
        0,
        &format!("every sequence of {} messages out of {} with numbers from 0 to 2^64-1 that agree in parts, each repeated at the end", n, nums.len()),
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            let early = cx.flag();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[if early { 7 } else { 9 }])?;
            let mut seen = vec![];
            for _ in 0..n {
                let i = cx.choose(ops.len());
                d.op(cx, &ops[i])?;
                seen.push(i);
            }
            honest.finish(cx, &mut d, &mut p)?;
            for i in seen {
                d.op(cx, &ops[i])?;
            }
            Ok(())
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C04",
        level: "model_checking",
        rule: "All arrival orders of a few messages with duplicates inserted and the negotiation completing at any point, all subsets of delayed messages, and the window boundary at exactly 10,000 in several fill patterns, in lock step with the reference window.",
        assumptions: &["The full window is exercised with fixed fill patterns, not all permutations of 10,000 messages"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &MODES {
                v.push(permutations(m, if thorough { 7 } else { 5 }, 0));
                v.push(permutations(m, 4, if thorough { 2 } else { 1 }));
                v.push(gaps(m));
                v.push(apart(m, if thorough { 4 } else { 3 }));
                v.push(window(m, thorough));
                v.push(many(m, if thorough { 140_000 } else { 66_000 }));
            }
            v
        },
    }
}
