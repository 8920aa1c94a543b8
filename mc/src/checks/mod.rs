//! One module per property.
use crate::engine::{Ctx, Scenario, R};
use crate::ep::Mode;
use crate::model::*;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub single_thread: bool,
    pub scenarios: fn(bool) -> Vec<Scenario>,
}

/// The honest environment of one endpoint: all its own steps and all deliveries of the peer's messages,
/// in every order an honest peer and a reordering network can produce.
#[derive(Clone)]
pub struct Honest {
    pub own_c: Op,
    pub own_a: Op,
    pub c: Op,
    pub a: Op,
    pub users: Vec<Op>,
    pub outs: Vec<Op>,
    /// user messages may be delivered in any order
    pub any_order: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum H {
    OwnC,
    C,
    OwnA,
    A,
    U(usize),
    Out,
    Take,
    Drain,
}
#[derive(Clone, Default, Hash)]
pub struct Prog {
    pub c: bool,
    pub a: bool,
    pub users: Vec<bool>,
    pub outs: usize,
}
impl Honest {
    pub fn new(w: &World, users: usize, outs: usize, data: bool) -> Honest {
        let d = |s: &'static [u8]| if data { Some(s) } else { None };
        Honest {
            own_c: Op::Connect(d(b"my connect").map(|x| x.to_vec())),
            own_a: Op::Ack(d(b"my ack").map(|x| x.to_vec())),
            c: msg("CONNECT", w.connect(d(b"peer connect"))),
            a: msg("ACK", w.ack(d(b"peer ack"))),
            users: (0..users)
                .map(|i| {
                    msg(
                        ["USER 0", "USER 1", "USER 2", "USER 3", "USER 4", "USER 5", "USER 6", "USER 7"][i],
                        w.user(i as u64, format!("user {}", i).as_bytes()),
                    )
                })
                .collect(),
            outs: (0..outs).map(|i| Op::User(format!("out {}", i).into_bytes())).collect(),
            any_order: true,
        }
    }
    pub fn prog(&self) -> Prog {
        Prog { users: vec![false; self.users.len()], ..Prog::default() }
    }
    pub fn menu(&self, m: &Model, p: &Prog) -> Vec<H> {
        let mut v = vec![];
        if !m.sent_c {
            v.push(H::OwnC);
        }
        if !p.c {
            v.push(H::C);
        }
        if m.peer.is_some() && !m.sent_a {
            v.push(H::OwnA);
        }
        // the peer acknowledges what it has received
        if m.sent_c && !p.a {
            v.push(H::A);
        }
        if m.mode == Mode::Min && m.stash.is_some() && m.peer.is_some() {
            v.push(H::Take);
        }
        if m.mode == Mode::Min && !m.held.is_empty() && m.success() {
            v.push(H::Drain);
        }
        if m.sent_c && m.sent_a {
            for i in 0..self.users.len() {
                if !p.users[i] {
                    v.push(H::U(i));
                    if !self.any_order {
                        break;
                    }
                }
            }
        }
        if m.success() && p.outs < self.outs.len() {
            v.push(H::Out);
        }
        v
    }
    pub fn apply(&self, cx: &mut Ctx, d: &mut Drv, p: &mut Prog, h: H) -> R {
        match h {
            H::OwnC => d.op(cx, &self.own_c),
            H::OwnA => d.op(cx, &self.own_a),
            H::C => {
                p.c = true;
                d.op(cx, &self.c)
            }
            H::A => {
                p.a = true;
                d.op(cx, &self.a)
            }
            H::U(i) => {
                p.users[i] = true;
                d.op(cx, &self.users[i])
            }
            H::Out => {
                p.outs += 1;
                d.op(cx, &self.outs[p.outs - 1])
            }
            H::Take => d.op(cx, &Op::TakeAck),
            H::Drain => d.op(cx, &Op::Drain),
        }
    }
    /// Runs the remaining honest steps in the first order.
    pub fn finish(&self, cx: &mut Ctx, d: &mut Drv, p: &mut Prog) -> R {
        loop {
            let m = self.menu(&d.m, p);
            if d.m.failed {
                // nothing can change any more: everything that is left is tried once
                for h in m {
                    self.apply(cx, d, p, h)?;
                }
                return Ok(());
            }
            match m.first() {
                None => return Ok(()),
                Some(&h) => self.apply(cx, d, p, h)?,
            }
        }
    }
    /// Drives the endpoint along the plain order up to a named stage.
    pub fn to_stage(&self, cx: &mut Ctx, d: &mut Drv, p: &mut Prog, stage: &Stage) -> R {
        for &h in stage.steps {
            self.apply(cx, d, p, h)?;
        }
        Ok(())
    }
}

pub struct Stage {
    pub name: &'static str,
    pub steps: &'static [H],
}
/// Every distinguishable situation of the negotiation.
pub const STAGES: &[Stage] = &[
    Stage { name: "fresh", steps: &[] },
    Stage { name: "CONNECT sent", steps: &[H::OwnC] },
    Stage { name: "CONNECT received", steps: &[H::C] },
    Stage { name: "CONNECT sent and received", steps: &[H::OwnC, H::C] },
    Stage { name: "ACK sent, own CONNECT not", steps: &[H::C, H::OwnA] },
    Stage { name: "ACK received first", steps: &[H::OwnC, H::A] },
    Stage { name: "ACK received, own ACK not sent", steps: &[H::OwnC, H::C, H::A] },
    Stage { name: "ACK sent, waiting for ACK", steps: &[H::OwnC, H::C, H::OwnA] },
    Stage { name: "user messages held back", steps: &[H::OwnC, H::C, H::OwnA, H::U(0), H::U(2)] },
    Stage { name: "completed", steps: &[H::OwnC, H::C, H::OwnA, H::A] },
    Stage { name: "completed, messages read and written", steps: &[H::OwnC, H::C, H::OwnA, H::A, H::U(0), H::Out, H::U(2)] },
];
/// Stages in which the session key is known.
pub fn keyed(s: &Stage) -> bool {
    s.steps.contains(&H::C)
}

macro_rules! checks {
    ($($m:ident),*) => {
        $(mod $m;)*
        pub fn all() -> Vec<Check> {
            vec![$($m::check()),*]
        }
    };
}
checks!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22);
pub use self::c22::race;
