//! No user message is delivered twice.
use super::*;
use crate::engine::scenario;
use crate::ep::*;

const NAMES: [&str; 12] = [
    "USER a", "USER b", "USER c", "USER d", "USER e", "USER f", "USER g", "USER h", "USER i", "USER j", "USER k", "USER l",
];

/// All delivery sequences with repetition; the ACK (and in minimal mode the fetching of the held back
/// messages) happens at any point.
fn sequences(name: &str, mode: Mode, msgs: Vec<(u64, &'static [u8])>, depth: usize, early: bool) -> Scenario {
    let w = World::std(mode, true, true);
    let ops: Vec<Op> =
        msgs.iter().enumerate().map(|(i, (n, c))| msg(NAMES[i], w.user(*n, c))).collect();
    let honest = Honest::new(&w, 0, 0, false);
    let nums: Vec<u64> = msgs.iter().map(|m| m.0).collect();
    scenario(
        &format!("{}, {:?}", name, mode),
        0,
        &format!("message numbers {:?}, all sequences with repetition of length {}{}", nums, depth,
            if early { ", ACK at any position, held back messages fetched at any later position" } else { ", after completion" }),
        move |cx| {
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[7])?;
            if !early {
                honest.apply(cx, &mut d, &mut p, H::A)?;
            }
            let mut n = 0;
            while n < depth && !d.m.failed {
                // alphabet: messages, then ACK / drain when possible
                let can_ack = !p.a;
                let can_drain = mode == Mode::Min && !d.m.held.is_empty() && d.m.success();
                let k = cx.choose(ops.len() + can_ack as usize + can_drain as usize);
                if k < ops.len() {
                    n += 1;
                    d.op(cx, &ops[k])?;
                } else if can_ack && k == ops.len() {
                    honest.apply(cx, &mut d, &mut p, H::A)?;
                } else {
                    d.op(cx, &Op::Drain)?;
                }
            }
            if d.m.failed {
                return Ok(());
            }
            if !p.a {
                honest.apply(cx, &mut d, &mut p, H::A)?;
            }
            d.op(cx, &Op::Drain)?;
            d.op(cx, &Op::Drain)?;
            // everything once more
            for o in &ops {
                d.op(cx, o)?;
                d.op(cx, o)?;
            }
            d.op(cx, &Op::Drain)?;
            // the property itself, independently of the model: at most one delivery per message number
            let users: Vec<&Ev> = d.delivered.iter().filter(|e| matches!(e, Ev::User { .. })).collect();
            let distinct: std::collections::BTreeSet<u64> = nums.iter().cloned().collect();
            cx.check(users.len() <= distinct.len(), "delivered-twice", || {
                format!("{} deliveries of {} message numbers", users.len(), distinct.len())
            })
        },
    )
}

/// Long histories: every message of a long stream is replayed, at once, while earlier messages are missing,
/// when the gaps have been filled and long after.
fn long(mode: Mode, n: usize, sizes: &'static [usize]) -> Scenario {
    let w = World::std(mode, true, false);
    let ops: Vec<Op> = (0..n as u64).map(|i| msg("USER", w.user(i, &i.to_be_bytes()))).collect();
    let honest = Honest::new(&w, 0, 0, false);
    scenario(
        &format!("long history replayed, {} messages, {:?}", n, mode),
        0,
        &format!("{} messages received in blocks of {:?}, each block in order, reversed, rotated or scattered; the ACK before, among or after the first of them; every message replayed right after its block, right before the block is completed or only at the end", n, sizes),
        move |cx| {
            // a block is never longer than the window lets it be
            let size = (*cx.pick_from(sizes)).min(n);
            let order = if size == 1 { 0 } else { 1 + cx.choose(3) };
            let early = *cx.pick_from(&[0usize, 3, n / 2]);
            let replay = cx.choose(3);
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[7])?;
            let at = |i: usize| {
                let (block, k) = (i / size * size, i % size);
                let len = size.min(n - block);
                block
                    + match order {
                        0 => k,
                        1 => len - 1 - k,
                        2 => (k + 1) % len,
                        // first to last, second to last but one...; the first number comes last
                        _ => {
                            let j = len - 1 - k;
                            if j % 2 == 0 { j / 2 } else { len - 1 - j / 2 }
                        }
                    }
            };
            for i in 0..n {
                if i == early {
                    honest.apply(cx, &mut d, &mut p, H::A)?;
                    d.op(cx, &Op::Drain)?;
                }
                let last = i % size == size - 1 || i == n - 1;
                if replay == 1 && last {
                    for j in i / size * size..i {
                        d.op(cx, &ops[at(j)])?;
                    }
                }
                d.op(cx, &ops[at(i)])?;
                if replay == 0 && last {
                    for j in i / size * size..=i {
                        d.op(cx, &ops[at(j)])?;
                    }
                }
                d.op(cx, &ops[at(i)])?;
            }
            for o in &ops {
                d.op(cx, o)?;
            }
            d.op(cx, &Op::Drain)?;
            cx.check(
                !d.m.failed && d.delivered.iter().filter(|e| matches!(e, Ev::User { .. })).count() == n,
                "delivered-twice",
                || "wrong number of deliveries".into(),
            )
        },
    )
}

/// As many messages ahead of missing ones as the window allows, all of them replayed.
fn full_window(mode: Mode, thorough: bool) -> Scenario {
    let w = World::std(mode, true, true);
    let honest = Honest::new(&w, 0, 0, false);
    let far: u64 = 1 << 40;
    let near: Vec<Op> = (0..2 * WINDOW as u64 + 100).map(|i| msg("USER", w.user(i, &i.to_be_bytes()))).collect();
    let away: Vec<Op> = (0..WINDOW as u64 + 1).map(|i| msg("USER far away", w.user(far + i * i, &(far + i).to_be_bytes()))).collect();
    let counts: Vec<usize> = if thorough {
        vec![1, 2, 100, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4096, 5000, 9_998, 9_999, WINDOW]
    } else {
        vec![1, 100, 256, 1000, 1024, 4097, 9_999, WINDOW]
    };
    scenario(
        &format!("full window replayed, {:?}", mode),
        0,
        "up to 10,000 messages ahead of one or two missing ones (consecutive, every second one, far away), all of them replayed in both directions while the gaps are open, after each gap is filled and after later messages; before the ACK or after it",
        move |cx| {
            let count = *cx.pick_from(&counts);
            let pattern = cx.choose(4);
            let late_ack = cx.flag();
            let mut d = w.drv();
            let mut p = honest.prog();
            honest.to_stage(cx, &mut d, &mut p, &STAGES[7])?;
            if !late_ack {
                honest.apply(cx, &mut d, &mut p, H::A)?;
            }
            let ahead: Vec<&Op> = (0..count)
                .map(|i| match pattern {
                    0 => &near[1 + i],
                    1 => &near[2 * i + 1],
                    2 => &near[2 + i],
                    _ => &away[i],
                })
                .collect();
            let again = |cx: &mut Ctx, d: &mut Drv| -> R {
                for o in ahead.iter() {
                    d.op(cx, o)?;
                }
                for o in ahead.iter().rev() {
                    d.op(cx, o)?;
                }
                Ok(())
            };
            for o in &ahead {
                d.op(cx, o)?;
            }
            again(cx, &mut d)?;
            if late_ack {
                honest.apply(cx, &mut d, &mut p, H::A)?;
                d.op(cx, &Op::Drain)?;
                again(cx, &mut d)?;
            }
            let gaps: &[usize] = match pattern {
                0 => &[0],
                1 => &[0, 2, 4],
                2 => &[1, 0],
                _ => &[0, 1, 2],
            };
            for &g in gaps {
                if d.m.ahead.len() == WINDOW && d.m.next_read != g as u64 {
                    continue;
                }
                d.op(cx, &near[g])?;
                again(cx, &mut d)?;
            }
            let next = d.m.next_read;
            if (next as usize) < near.len() {
                d.op(cx, &near[next as usize])?;
                again(cx, &mut d)?;
            }
            cx.check(!d.m.failed, "failed", || "the connection failed".into())?;
            let mut seen = std::collections::BTreeSet::new();
            for e in &d.delivered {
                if let Ev::User { data } = e {
                    cx.check(seen.insert(data.clone()), "delivered-twice", || "a message was delivered twice".into())?;
                }
            }
            Ok(())
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C03",
        level: "model_checking",
        rule: "All delivery sequences with repetition over small sets of genuine messages, with the completion of the negotiation at any point, executed in lock step with the reference receive window.",
        assumptions: &["Longer sequences are covered through fixed patterns only"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            let t = thorough as usize;
            for &m in &MODES {
                v.push(sequences("first numbers", m, vec![(0, b"m0"), (1, b"m1"), (2, b"m2"), (3, b"m3")], 5 + t, true));
                v.push(sequences(
                    "same number, other content",
                    m,
                    vec![(0, b"A0"), (0, b"B0"), (1, b"A1"), (1, b"B1"), (2, b"A2")],
                    4 + t,
                    true,
                ));
                v.push(sequences(
                    "boundary numbers",
                    m,
                    vec![
                        (0, b"n0"),
                        (1, b"n1"),
                        (255, b"n255"),
                        (256, b"n256"),
                        (1 << 16, b"n2^16"),
                        (1 << 32, b"n2^32"),
                        ((1 << 32) + 1, b"n2^32+1"),
                        (1 << 63, b"n2^63"),
                        (u64::max_value() - 1, b"max-1"),
                        (u64::max_value(), b"max"),
                    ],
                    3 + t,
                    false,
                ));
                v.push(sequences(
                    "boundary numbers held back",
                    m,
                    vec![(0, b"n0"), (256, b"n256"), (1 << 32, b"n2^32"), (u64::max_value(), b"max")],
                    4 + t,
                    true,
                ));
                const ALL: &[usize] = &[1, 2, 7, 8, 64, 65, 128, 257, 1000, 1025, 4096, 4097, WINDOW + 1];
                v.push(long(m, 600, ALL));
                v.push(long(m, 20_500, ALL));
                v.push(long(m, if thorough { 140_000 } else { 66_000 }, if thorough { ALL } else { &[1, 1000] }));
                v.push(full_window(m, thorough));
            }
            v
        },
    }
}
