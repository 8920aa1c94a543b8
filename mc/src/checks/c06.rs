//! Negotiation discipline: every sequence of local calls and incoming messages against the reference model.
use super::Check;
use crate::engine::{scenario, Scenario};
use crate::ep::Mode;
use crate::model::*;

fn alphabet(w: &World) -> Vec<Op> {
    let mut v = vec![
        Op::Connect(None),
        msg("CONNECT", w.connect(None)),
        Op::Ack(None),
        msg("ACK", w.ack(None)),
        msg("USER 0", w.user(0, b"zero")),
        Op::User(b"out".to_vec()),
        msg("USER 1", w.user(1, b"one")),
        Op::CloneDrop,
    ];
    if w.mode == Mode::Min {
        v.push(Op::TakeAck);
        v.push(Op::Drain);
    }
    v
}

fn sequences(mode: Mode, pinned: bool, depth: usize, after_fail: usize) -> Scenario {
    let w = World::std(mode, pinned, true);
    let ops = alphabet(&w);
    scenario(
        &format!("all call sequences, {}", w.name),
        0,
        &format!("{} operations, depth {}, {} further calls after a failure", ops.len(), depth, after_fail),
        move |cx| {
            let mut d = w.drv();
            let mut left = after_fail;
            for _ in 0..depth {
                let op = &ops[cx.choose(ops.len())];
                let was = d.m.failed;
                d.op(cx, op)?;
                if was {
                    if left == 0 {
                        break;
                    }
                    left -= 1;
                }
            }
            // what the endpoint is able to do at the end
            d.op(cx, &Op::CloneDrop)?;
            d.op(cx, &Op::User(b"probe".to_vec()))
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C06",
        level: "model_checking",
        rule: "Every sequence of local calls and genuine peer messages up to the depth is executed on a fresh endpoint in lock step with the reference model; each result, delivery and emission is compared.",
        assumptions: &["Calls and messages beyond the alphabet and depth are not covered here (see C07, C08, C09)"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            for &m in &crate::ep::MODES {
                for &p in &[false, true] {
                    v.push(sequences(m, p, if thorough { 8 } else { 6 }, 1));
                }
            }
            v
        },
    }
}
