//! Output faults: short, interrupted and failing writes at every write call.
use super::*;
use crate::engine::scenario;
use crate::ep::*;
use crate::sut::call;
use std::io::{self, BufWriter, Write};

/// The output under fault injection. Every write call asks the explorer how to behave.
struct Sink {
    cx: *mut Ctx<'static>,
    on: bool,
    /// accepts at most so many bytes per call
    chunk: usize,
    /// every second call is interrupted
    flaky: bool,
    /// total number of bytes accepted before every call fails
    limit: usize,
    /// a write kept failing from here on
    dead: bool,
    /// an error was reported by this output
    hard: bool,
    calls: usize,
    /// what its errors look like
    err: fn() -> io::Error,
    out: Vec<u8>,
}
impl Sink {
    fn new(cx: &mut Ctx) -> Sink {
        Sink {
            // the sink never outlives the execution it belongs to
            cx: unsafe { std::mem::transmute::<*mut Ctx<'_>, *mut Ctx<'static>>(cx as *mut _) },
            on: true,
            chunk: usize::max_value(),
            flaky: false,
            limit: usize::max_value(),
            dead: false,
            hard: false,
            calls: 0,
            err: broken,
            out: vec![],
        }
    }
}
fn broken() -> io::Error {
    io::Error::new(io::ErrorKind::BrokenPipe, "injected")
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() || !self.on {
            self.out.extend_from_slice(b);
            return Ok(b.len());
        }
        self.calls += 1;
        if self.dead {
            return Err((self.err)());
        }
        if self.out.len() >= self.limit {
            self.hard = true;
            return Err((self.err)());
        }
        if self.flaky && self.calls % 2 == 1 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.chunk).min(self.limit - self.out.len());
        let cx = unsafe { &mut *self.cx };
        match cx.deviate(8) {
            0 => (),
            1 => n = n.min(1),
            2 => n = n.min((b.len() + 1) / 2),
            3 => n = n.min(b.len().saturating_sub(1).max(1)),
            4 => {
                cx.log(|| format!("output call {}: interrupted", self.calls));
                return Err(io::ErrorKind::Interrupted.into());
            }
            5 => {
                cx.log(|| format!("output call {}: accepts nothing", self.calls));
                self.hard = true;
                return Ok(0);
            }
            6 => {
                cx.log(|| format!("output call {}: error, once", self.calls));
                self.hard = true;
                return Err((self.err)());
            }
            _ => {
                cx.log(|| format!("output call {}: error, from now on", self.calls));
                self.hard = true;
                self.dead = true;
                return Err((self.err)());
            }
        }
        if n < b.len() {
            let calls = self.calls;
            cx.log(|| format!("output call {}: accepts {} of {} bytes", calls, n, b.len()));
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind {
    Connect,
    Ack,
    AckFirst,
    User,
    UserClone,
    /// the same through the typed functions
    TypedConnect,
    TypedAck,
    TypedUser,
}
impl Kind {
    fn typed(self) -> bool {
        self == Kind::TypedConnect || self == Kind::TypedAck || self == Kind::TypedUser
    }
}
fn text(data: &[u8]) -> String {
    data.iter().map(|b| (b'a' + b % 26) as char).collect()
}
/// The bytes the peer must get for this payload.
fn payload(k: Kind, data: &[u8]) -> Vec<u8> {
    if k.typed() {
        let mut v = vec![0, 0, 0, 2];
        v.extend(format!("\"{}\"", text(data)).into_bytes());
        v
    } else {
        data.to_vec()
    }
}
fn write(ep: &mut Ep, k: Kind, data: &[u8], w: &mut BufWriter<Sink>) -> Res<()> {
    let r = match &mut ep.inner {
        Inner::Min(m) => call(|| m.write_message(data, w)),
        Inner::Cmp(c) => match k {
            Kind::Connect => call(|| c.write_connect_msg_bin(Some(data), w)),
            Kind::Ack | Kind::AckFirst => call(|| c.write_ack_msg_bin(Some(data), w)),
            Kind::TypedConnect => call(|| c.write_connect_msg(Some(&text(data)), w)),
            Kind::TypedAck => call(|| c.write_ack_msg(Some(&text(data)), w)),
            Kind::TypedUser => call(|| c.write(&text(data), w)),
            _ => call(|| c.write_bin(data, w)),
        },
    };
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(Fault::Err(format!("{:?}", e))),
        Err(p) => Err(Fault::Panic(p)),
    }
}

fn filled(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(19) as u8).collect()
}

/// Writes `sizes.len()` messages through one buffered writer whose output is `prep`ared, and checks everything.
fn body(
    cx: &mut Ctx,
    w: &World,
    k: Kind,
    sizes: &[usize],
    cap: usize,
    prep: &dyn Fn(&mut Sink),
) -> R {
    let honest = Honest::new(w, 2, 0, false);
    let mut d = w.drv();
    let mut p = honest.prog();
    let stage: &[H] = match k {
        Kind::Connect | Kind::TypedConnect => &[],
        Kind::Ack | Kind::TypedAck => &[H::OwnC, H::C],
        Kind::AckFirst => &[H::C],
        _ => &[H::OwnC, H::C, H::OwnA, H::A],
    };
    for &h in stage {
        honest.apply(cx, &mut d, &mut p, h)?;
    }
    if k.typed() {
        let mut c = config(0);
        c.message_format = pkstl::MessageFormat::Utf8Json;
        if d.ep.set_config(c).is_err() {
            return cx.report("config-refused", || "change_config refused".into());
        }
    }
    if k == Kind::UserClone {
        d.op(cx, &Op::CloneSwap)?;
    }
    let mut sink = Sink::new(cx);
    prep(&mut sink);
    let mut wr = BufWriter::with_capacity(cap, sink);
    let mut bounds = vec![0];
    let mut failed = false;
    for &n in sizes {
        let data = filled(n);
        cx.step();
        let r = write(&mut d.ep, k, &data, &mut wr);
        cx.log(|| format!("write {:?} of {} bytes, buffer of {} -> {}", k, n, cap, if r.is_ok() { "Ok" } else { "Err" }));
        if let Err(Fault::Panic(p)) = &r {
            return cx.report("panic", || format!("writing panics: {}", p));
        }
        cx.observe(&r.is_ok());
        let hard = wr.get_ref().hard;
        match &r {
            Ok(()) => {
                cx.check(!hard, "error-hidden", || {
                    format!("writing a {:?} of {} bytes returns success although the output failed", k, n)
                })?;
                bounds.push(wr.get_ref().out.len() + wr.buffer().len());
            }
            Err(e) => {
                cx.check(hard, "spurious-error", || {
                    format!("writing a {:?} of {} bytes fails although the output only splits or delays: {:?}", k, n, e)
                })?;
                failed = true;
                break;
            }
        }
    }
    wr.get_mut().on = false;
    if !failed {
        if wr.flush().is_err() {
            return Ok(());
        }
        let out = wr.get_ref().out.clone();
        for (i, &n) in sizes.iter().enumerate() {
            let b = &out[bounds[i].min(out.len())..bounds[i + 1].min(out.len())];
            let data = payload(k, &filled(n));
            let o = Some(data.clone());
            let res = match k {
                Kind::Connect | Kind::TypedConnect => check_connect(&d.m, b, &o),
                Kind::Ack | Kind::AckFirst | Kind::TypedAck => check_ack(&d.m, b, &o),
                _ => check_user(&d.m, b, i as u64, &data),
            };
            cx.count("messages verified");
            if let Err(e) = res {
                return cx.report("incomplete", || {
                    format!("writing a {:?} of {} bytes returns success but the output received something else ({} bytes): {}", k, n, b.len(), e)
                });
            }
        }
        cx.check(out.len() == *bounds.last().unwrap(), "incomplete", || {
            format!("the output received {} bytes instead of {}", out.len(), bounds.last().unwrap())
        })?;
        // and the session goes on
        match k {
            Kind::Connect | Kind::TypedConnect => d.m.sent_c = true,
            Kind::Ack | Kind::AckFirst | Kind::TypedAck => d.m.sent_a = true,
            _ => d.m.next_write.set(sizes.len() as u64),
        }
        honest.finish(cx, &mut d, &mut p)?;
        return d.op(cx, &Op::User(b"afterwards".to_vec()));
    }
    cx.count("failed writes");
    // nothing comes out of this endpoint any more
    d.m.failed = true;
    let base = d.delivered.len();
    let negotiating = match k {
        Kind::User | Kind::UserClone | Kind::TypedUser => false,
        _ => true,
    };
    let order = cx.choose(if negotiating { 3 } else { 2 });
    if order == 2 {
        honest.finish(cx, &mut d, &mut p)?;
    }
    for i in 0..4 {
        match if order == 0 { i } else { 3 - i } {
            0 => d.op(cx, &Op::User(b"later".to_vec()))?,
            1 => d.op(cx, &Op::Ack(None))?,
            2 => d.op(cx, &Op::Connect(None))?,
            _ => d.op(cx, &Op::CloneDrop)?,
        }
    }
    if order != 2 {
        honest.finish(cx, &mut d, &mut p)?;
    }
    cx.check(d.delivered.len() == base, "delivered-after-failure", || "delivers after an output failure".into())
}

fn faults(w: World, k: Kind, dev: u32, sizes: Vec<Vec<usize>>, caps: Vec<usize>) -> Scenario {
    scenario(
        &format!("up to {} faults at output calls, {} messages, {:?}, {}", dev, if sizes[0][0] > 1000 { "large" } else { "small" }, k, w.name),
        dev,
        &format!(
            "message sizes {:?}, buffer capacities {:?}; up to {} faults at any output calls: accepts 1 byte / half / all but one, interrupted, accepts nothing, error once, error from then on",
            sizes, caps, dev
        ),
        move |cx| {
            let s = cx.pick_from(&sizes).clone();
            let cap = *cx.pick_from(&caps);
            body(cx, &w, k, &s, cap, &|_| ())
        },
    )
}
/// Every kind of error an output can report (an interruption is none).
const ERRORS: [fn() -> io::Error; 18] = [
    broken,
    || io::ErrorKind::WouldBlock.into(),
    || io::ErrorKind::TimedOut.into(),
    || io::ErrorKind::WriteZero.into(),
    || io::ErrorKind::UnexpectedEof.into(),
    || io::ErrorKind::Other.into(),
    || io::ErrorKind::ConnectionReset.into(),
    || io::ErrorKind::ConnectionAborted.into(),
    || io::ErrorKind::ConnectionRefused.into(),
    || io::ErrorKind::NotConnected.into(),
    || io::ErrorKind::InvalidInput.into(),
    || io::ErrorKind::InvalidData.into(),
    || io::ErrorKind::PermissionDenied.into(),
    || io::ErrorKind::AlreadyExists.into(),
    || io::ErrorKind::NotFound.into(),
    || io::Error::from_raw_os_error(11),
    || io::Error::from_raw_os_error(28),
    || io::Error::from_raw_os_error(32),
];
fn kinds(w: World, k: Kind) -> Scenario {
    scenario(
        &format!("every kind of error at every output call, {:?}, {}", k, w.name),
        1,
        &format!("{} kinds of errors, one or two messages of 0, 100 and 9000 bytes, buffer capacities 0, 64 and 8192; one fault at any output call", ERRORS.len()),
        move |cx| {
            let user = k == Kind::User || k == Kind::UserClone || k == Kind::TypedUser;
            let n = *cx.pick_from(&[0usize, 100, 9000]);
            let s = if user { vec![n, 10] } else { vec![n] };
            let cap = *cx.pick_from(&[0usize, 64, 8192]);
            let err = *cx.pick_from(&ERRORS);
            cx.log(|| format!("errors of the output: {:?}", err()));
            body(cx, &w, k, &s, cap, &|x| x.err = err)
        },
    )
}
/// Several messages of all kinds in one buffered writer that is flushed at the end only.
fn together(w: World, n: usize) -> Scenario {
    scenario(
        &format!("messages of all kinds in one buffered writer, {}", w.name),
        0,
        &format!("CONNECT, ACK and {} user messages (CONNECT or ACK first, written by the endpoint or its clone) of 0, 10, 300 or 9000 bytes each, buffer capacities 0 to 20000", n),
        move |cx| {
            let cap = *cx.pick_from(&[0usize, 1, 64, 200, 1000, 8192, 20_000]);
            let honest = Honest::new(&w, 0, 0, false);
            let mut d = w.drv();
            let mut p = honest.prog();
            let mut wr = BufWriter::with_capacity(cap, Sink::new(cx));
            wr.get_mut().on = false;
            let mut kinds = vec![];
            if w.mode == Mode::Cmp {
                kinds.push(Kind::Connect);
                kinds.push(Kind::Ack);
                if cx.flag() {
                    kinds.swap(0, 1);
                }
            } else {
                honest.to_stage(cx, &mut d, &mut p, &STAGES[9])?;
            }
            kinds.extend(vec![Kind::User; n]);
            let at = cx.choose(n + 1) + kinds.len() - n;
            let mut done: Vec<(Kind, usize)> = vec![];
            // a twin writes the same messages one by one: it tells where each one ends
            let mut twin = w.drv();
            let mut q = honest.prog();
            if w.mode == Mode::Min {
                honest.to_stage(cx, &mut twin, &mut q, &STAGES[9])?;
            }
            let mut lens = vec![];
            for (i, &k) in kinds.iter().enumerate() {
                if i == at && n > 0 {
                    d.op(cx, &Op::CloneSwap)?;
                }
                if w.mode == Mode::Cmp {
                    if k == Kind::Ack {
                        honest.apply(cx, &mut d, &mut p, H::C)?;
                        honest.apply(cx, &mut twin, &mut q, H::C)?;
                    } else if k == Kind::User && done.len() == 2 {
                        honest.apply(cx, &mut d, &mut p, H::A)?;
                        honest.apply(cx, &mut twin, &mut q, H::A)?;
                    }
                }
                let s = *cx.pick_from(&[0usize, 10, 300, 9000]);
                let r = write(&mut d.ep, k, &filled(s), &mut wr);
                cx.step();
                cx.log(|| format!("write {:?} of {} bytes, buffer of {} -> {}", k, s, cap, if r.is_ok() { "Ok" } else { "Err" }));
                if r.is_err() {
                    return cx.report("spurious-error", || format!("writing a {:?} of {} bytes fails: {:?}", k, s, r));
                }
                let data = filled(s);
                let o = match k {
                    Kind::Connect => twin.ep.connect(Some(&data)),
                    Kind::Ack => twin.ep.ack(Some(&data)),
                    _ => twin.ep.user(&data),
                };
                lens.push(o.bytes.len());
                for x in vec![&mut d, &mut twin] {
                    match k {
                        Kind::Connect => x.m.sent_c = true,
                        Kind::Ack => x.m.sent_a = true,
                        _ => x.m.next_write.set(x.m.next_write.get() + 1),
                    }
                }
                done.push((k, s));
            }
            if wr.flush().is_err() {
                return Ok(());
            }
            // the output holds exactly these messages, in this order
            let out = wr.get_ref().out.clone();
            let mut pos = 0;
            let mut number = 0;
            for (i, &(k, s)) in done.iter().enumerate() {
                let data = filled(s);
                let b = &out[pos.min(out.len())..(pos + lens[i]).min(out.len())];
                pos += lens[i];
                let o = Some(data.clone());
                let res = match k {
                    Kind::Connect => check_connect(&d.m, b, &o),
                    Kind::Ack => check_ack(&d.m, b, &o),
                    _ => check_user(&d.m, b, number, &data),
                };
                if k == Kind::User {
                    number += 1;
                }
                cx.count("messages verified");
                cx.check(res.is_ok(), "mixed-up", || {
                    format!("message {} of {} ({:?} of {} bytes) is not what comes next in the output: {:?}", i + 1, done.len(), k, s, res)
                })?;
            }
            cx.check(pos == out.len(), "mixed-up", || format!("the output holds {} bytes instead of {}", out.len(), pos))
        },
    )
}
fn chunks(w: World, k: Kind, sizes: Vec<Vec<usize>>, caps: Vec<usize>) -> Scenario {
    scenario(
        &format!("output accepts few bytes per call, {:?}, {}", k, w.name),
        0,
        &format!("message sizes {:?}, buffer capacities {:?}; at most 1, 2, 3, 5, 16, 63, 64, 1000 bytes per call, with and without interruptions", sizes, caps),
        move |cx| {
            let s = cx.pick_from(&sizes).clone();
            let cap = *cx.pick_from(&caps);
            let chunk = *cx.pick_from(&[1, 2, 3, 5, 16, 63, 64, 1000]);
            let flaky = cx.flag();
            body(cx, &w, k, &s, cap, &|x| {
                x.chunk = chunk;
                x.flaky = flaky;
            })
        },
    )
}
fn full(w: World, k: Kind, size: usize, caps: Vec<usize>, max: usize) -> Scenario {
    scenario(
        &format!("output full after n bytes, {:?} of {} bytes, {}", k, size, w.name),
        0,
        &format!("every n up to {}, buffer capacities {:?}", max, caps),
        move |cx| {
            let cap = *cx.pick_from(&caps);
            let n = cx.choose(max + 1);
            body(cx, &w, k, &[size, size], cap, &|x| x.limit = n)
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C11",
        level: "fault_enumeration",
        rule: "The output behind the buffered writer asks the explorer at every write call how to behave: take everything, a part, be interrupted, take nothing, fail once or for ever. Every combination of up to the stated number of faults is executed for every message kind, size and buffer capacity, and outputs that take only n bytes in all for every n. Success must mean that the output received the complete message (parsed, verified and decrypted by the reference implementation) and that it reported no error; an error must mean that the output reported one and that the endpoint emits and delivers nothing more.",
        assumptions: &["An error seen only when the caller flushes the buffered writer itself is the caller's to handle"],
        single_thread: false,
        scenarios: |thorough| {
            let mut v = vec![];
            let ks = [
                (Mode::Cmp, Kind::Connect),
                (Mode::Cmp, Kind::Ack),
                (Mode::Cmp, Kind::AckFirst),
                (Mode::Cmp, Kind::User),
                (Mode::Min, Kind::User),
                (Mode::Cmp, Kind::UserClone),
                (Mode::Min, Kind::UserClone),
                (Mode::Cmp, Kind::TypedConnect),
                (Mode::Cmp, Kind::TypedAck),
                (Mode::Cmp, Kind::TypedUser),
            ];
            for &m in &MODES {
                v.push(together(World::std(m, false, true), if thorough { 3 } else { 2 }));
            }
            for &(m, k) in &ks {
                let w = || World::std(m, false, true);
                let user = k == Kind::User || k == Kind::UserClone || k == Kind::TypedUser;
                let wrapv = |l: &[usize]| -> Vec<Vec<usize>> { l.iter().map(|&n| vec![n]).collect() };
                let mut s = wrapv(&[0, 1, 100]);
                let mut large = wrapv(&[9000]);
                if user {
                    s.extend(vec![vec![0, 0, 5], vec![150, 1]]);
                    large.push(vec![20_000, 30]);
                }
                let caps = vec![0, 1, 7, 64, 200, 8192];
                let big = if thorough && !(user && m == Mode::Min) { 2 } else { 1 };
                v.push(faults(w(), k, if thorough { 4 } else { 3 }, s.clone(), caps.clone()));
                v.push(faults(w(), k, big, large.clone(), caps.clone()));
                v.push(kinds(w(), k));
                s.extend(large);
                v.push(chunks(w(), k, s, caps.clone()));
                let (size, max) = if thorough { (600, 1700) } else { (60, 500) };
                if user {
                    v.push(full(w(), k, size, caps, max));
                } else {
                    v.push(full_one(w(), k, size, caps, max));
                }
            }
            v
        },
    }
}
fn full_one(w: World, k: Kind, size: usize, caps: Vec<usize>, max: usize) -> Scenario {
    scenario(
        &format!("output full after n bytes, {:?} of {} bytes, {}", k, size, w.name),
        0,
        &format!("every n up to {}, buffer capacities {:?}", max, caps),
        move |cx| {
            let cap = *cx.pick_from(&caps);
            let n = cx.choose(max + 1);
            body(cx, &w, k, &[size], cap, &|x| x.limit = n)
        },
    )
}
