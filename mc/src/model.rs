//! Reference model of one endpoint, and the driver that runs it in lock step with the code under test.
use crate::engine::{Ctx, Stop, R};
use crate::ep::*;
use crate::refp::*;
use pkstl::SecureLayerConfig;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

pub const WINDOW: usize = 10_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// Must succeed with exactly these events
    Ok(Vec<Ev>),
    /// Must be refused with an error
    Refuse,
    /// Error or success, delivering nothing outside of these events; the model does not follow further
    Loose(Vec<Ev>),
    /// Error or success without events; the model follows
    Nothing,
}

#[derive(Clone)]
pub struct Model {
    pub mode: Mode,
    pub own_epk: [u8; 32],
    pub own_pk: Vec<u8>,
    eph: [u8; 32],
    pub pinned: Option<Vec<u8>>,
    pub failed: bool,
    pub sent_c: bool,
    pub sent_a: bool,
    pub peer: Option<(Vec<u8>, [u8; 32])>,
    pub key: Option<SessionKey>,
    pub got_a: bool,
    pub stash: Option<Vec<u8>>,
    pub next_read: u64,
    pub ahead: BTreeSet<u64>,
    pub held: Vec<Ev>,
    /// shared by an endpoint and its clones
    pub next_write: Rc<Cell<u64>>,
    pub cloned: bool,
    /// keys already derived, by peer EPK
    cache: Arc<BTreeMap<[u8; 32], SessionKey>>,
}

impl Model {
    pub fn new(s: &EpSpec, cache: Arc<BTreeMap<[u8; 32], SessionKey>>) -> Model {
        Model {
            mode: s.mode,
            own_epk: epk_cached(s.eph),
            own_pk: s.id.pk.clone(),
            eph: s.eph,
            pinned: s.expected.clone(),
            failed: false,
            sent_c: false,
            sent_a: false,
            peer: None,
            key: None,
            got_a: false,
            stash: None,
            next_read: 0,
            ahead: BTreeSet::new(),
            held: vec![],
            next_write: Rc::new(Cell::new(0)),
            cloned: false,
            cache,
        }
    }
    pub fn success(&self) -> bool {
        !self.failed && self.sent_c && self.sent_a && self.peer.is_some() && self.got_a
    }
    pub fn known_key(&self) -> Option<&Vec<u8>> {
        self.pinned.as_ref().or_else(|| self.peer.as_ref().map(|p| &p.0))
    }
    fn fail(&mut self) -> Expect {
        self.failed = true;
        Expect::Refuse
    }
    fn dead(&self) -> Expect {
        Expect::Nothing
    }
    pub fn abs(&self) -> impl std::hash::Hash {
        (
            (self.mode, self.failed, self.sent_c, self.sent_a, self.got_a, self.stash.is_some(), self.cloned),
            (self.peer.clone(), self.pinned.is_some(), self.next_read, self.next_write.get()),
            (
                self.ahead.len(),
                self.ahead.iter().take(64).cloned().collect::<Vec<_>>(),
                self.ahead.iter().next_back().cloned(),
                self.held.len(),
                self.held.iter().take(64).cloned().collect::<Vec<_>>(),
            ),
        )
    }
    fn session_key(&self, epk: &[u8; 32]) -> Option<SessionKey> {
        match self.cache.get(epk) {
            Some(k) => Some(k.clone()),
            None => session_key(self.eph, epk),
        }
    }

    // ---- incoming
    pub fn recv(&mut self, bytes: &[u8]) -> Expect {
        if self.failed {
            return self.dead();
        }
        if bytes.len() >= 4 && bytes[..4] == MAGIC {
            match parse(bytes) {
                Ok(Parsed::Connect { epk, pk, body, signed }) => {
                    self.recv_connect(epk, pk, body, verify_cached(bytes, signed))
                }
                Ok(Parsed::Ack { .. }) => self.recv_ack(bytes),
                // clear user message, or malformed
                _ => self.fail(),
            }
        } else {
            let clear = match &self.key {
                Some(k) => k.open(bytes),
                None => None,
            };
            match clear.as_ref().map(|c| parse(c)) {
                Some(Ok(Parsed::User { nonce, body, hash_ok })) => self.recv_user(nonce, body, hash_ok),
                _ => self.fail(),
            }
        }
    }
    fn recv_connect(&mut self, epk: [u8; 32], pk: Vec<u8>, body: Vec<u8>, sig_ok: bool) -> Expect {
        if epk == self.own_epk {
            return Expect::Refuse;
        }
        if let Some(k) = self.known_key() {
            if *k != pk {
                return Expect::Refuse;
            }
        }
        if !sig_ok {
            return Expect::Refuse;
        }
        if self.peer.is_some() {
            return self.fail();
        }
        match self.session_key(&epk) {
            Some(k) => self.key = Some(k),
            None => return self.fail(),
        }
        self.peer = Some((pk.clone(), epk));
        let data = match unwrap(self.mode, &body) {
            Some(d) => d,
            None => return Expect::Loose(vec![]),
        };
        let mut evs = vec![Ev::Connect { key: pk, data }];
        if self.mode == Mode::Cmp {
            if let Some(b) = self.stash.take() {
                match self.recv_ack(&b) {
                    Expect::Ok(v) => evs.extend(v),
                    // a forged ACK is dropped
                    Expect::Refuse if !self.failed => (),
                    Expect::Refuse => return Expect::Refuse,
                    _ => return Expect::Loose(evs),
                }
            }
        }
        Expect::Ok(evs)
    }
    fn recv_ack(&mut self, bytes: &[u8]) -> Expect {
        let (challenge, body, signed) = match parse(bytes) {
            Ok(Parsed::Ack { challenge, body, signed }) => (challenge, body, signed),
            _ => unreachable!(),
        };
        if challenge != sha256(&self.own_epk) {
            return Expect::Refuse;
        }
        let key = match self.known_key() {
            Some(k) => k.clone(),
            None => {
                if self.stash.is_some() {
                    return self.fail();
                }
                self.stash = Some(bytes.to_vec());
                return Expect::Ok(vec![]);
            }
        };
        if !verify_with_cached(&key, bytes, signed) {
            return Expect::Refuse;
        }
        if !self.sent_c || self.got_a {
            return self.fail();
        }
        self.got_a = true;
        let data = match unwrap(self.mode, &body) {
            Some(d) => d,
            None => return Expect::Loose(vec![]),
        };
        let mut evs = vec![Ev::Ack { data }];
        if self.mode == Mode::Cmp {
            evs.append(&mut self.held);
        }
        Expect::Ok(evs)
    }
    fn recv_user(&mut self, nonce: u64, body: Vec<u8>, hash_ok: bool) -> Expect {
        if nonce < self.next_read || self.ahead.contains(&nonce) {
            return Expect::Refuse;
        }
        let holding = self.sent_c && self.sent_a && !self.got_a;
        if !holding && !self.success() {
            return self.fail();
        }
        if !hash_ok {
            return Expect::Loose(vec![]);
        }
        if nonce == self.next_read {
            self.next_read += 1;
            while self.ahead.remove(&self.next_read) {
                self.next_read += 1;
            }
        } else {
            if self.ahead.len() >= WINDOW {
                return self.fail();
            }
            self.ahead.insert(nonce);
        }
        let data = match unwrap(self.mode, &body) {
            Some(d) => d.unwrap_or_default(),
            None => return Expect::Loose(vec![]),
        };
        let ev = Ev::User { data };
        if holding {
            self.held.push(ev);
            Expect::Ok(vec![])
        } else {
            Expect::Ok(vec![ev])
        }
    }
    pub fn take_ack(&mut self) -> Expect {
        if self.mode == Mode::Cmp {
            return Expect::Ok(vec![]);
        }
        match self.stash.take() {
            None => Expect::Ok(vec![]),
            Some(_) if self.failed => self.dead(),
            Some(b) => self.recv_ack(&b),
        }
    }
    pub fn drain(&mut self) -> Expect {
        if self.mode == Mode::Cmp {
            return Expect::Ok(vec![]);
        }
        if self.failed {
            return self.dead();
        }
        if self.success() {
            Expect::Ok(std::mem::replace(&mut self.held, vec![]))
        } else {
            Expect::Ok(vec![])
        }
    }
    // ---- local calls: Ok(()) = must succeed
    pub fn connect(&mut self) -> bool {
        if self.failed || self.sent_c {
            return false;
        }
        self.sent_c = true;
        true
    }
    pub fn ack(&mut self) -> bool {
        if self.failed || self.peer.is_none() || self.sent_a {
            return false;
        }
        self.sent_a = true;
        true
    }
    pub fn user(&mut self) -> bool {
        if !self.success() {
            self.failed = true;
            return false;
        }
        self.next_write.set(self.next_write.get() + 1);
        true
    }
}

// Signature verification dominates the cost of the model: it is memoised.
use std::cell::RefCell;
use std::collections::HashMap;
thread_local! {
    static VERIFIED: RefCell<HashMap<(u64, u64), bool>> = RefCell::new(HashMap::new());
    static EPKS: RefCell<HashMap<[u8; 32], [u8; 32]>> = RefCell::new(HashMap::new());
}
pub fn epk_cached(seed: [u8; 32]) -> [u8; 32] {
    EPKS.with(|m| *m.borrow_mut().entry(seed).or_insert_with(|| epk_of(seed)))
}
fn hash2(a: &[u8], b: &[u8]) -> (u64, u64) {
    (crate::engine::h64(&(a, b)), crate::engine::h64(&(b, 7u8, a)))
}
pub fn verify_with_cached(pk: &[u8], bytes: &[u8], signed: usize) -> bool {
    let k = hash2(pk, bytes);
    VERIFIED.with(|m| {
        if m.borrow().len() > 200_000 {
            m.borrow_mut().clear();
        }
        *m.borrow_mut().entry(k).or_insert_with(|| verify(pk, &bytes[..signed], &bytes[signed..]))
    })
}
/// CONNECT: verified with the key it carries
fn verify_cached(bytes: &[u8], signed: usize) -> bool {
    verify_with_cached(&bytes[54..86], bytes, signed)
}

/// The endpoint under test in lock step with its model.
pub struct Drv {
    pub ep: Ep,
    pub m: Model,
    /// every event delivered so far
    pub delivered: Vec<Ev>,
    /// bytes of own emitted messages
    pub emitted: Vec<Vec<u8>>,
    /// an accepted change of configuration keeps the message format
    config: SecureLayerConfig,
}

#[derive(Clone)]
pub enum Op {
    Connect(Option<Vec<u8>>),
    Ack(Option<Vec<u8>>),
    User(Vec<u8>),
    Recv(&'static str, Arc<Vec<u8>>),
    TakeAck,
    Drain,
    /// clone and drop the clone
    CloneDrop,
    /// clone and go on with the clone
    CloneSwap,
    Config(u8),
    /// write CONNECT, ACK (complete mode) or a user message to an output that fails after so many bytes
    Broken(char, usize),
    /// a local call that must be refused without effect
    Bad(&'static str, BadCall),
}
pub type BadCall = Arc<dyn Fn(&mut Ep) -> WOut + Send + Sync>;
pub fn msg(name: &'static str, b: Vec<u8>) -> Op {
    Op::Recv(name, Arc::new(b))
}

pub fn config(i: u8) -> SecureLayerConfig {
    let mut c = SecureLayerConfig::default();
    match i {
        0 => (),
        1 => {
            c.compression = flate2::Compression::best();
            c.compression_min_size = 0;
        }
        _ => {
            c.compression = flate2::Compression::none();
            c.compression_min_size = 1 << 30;
        }
    }
    c
}

impl Drv {
    pub fn new(s: &EpSpec, cache: &Arc<BTreeMap<[u8; 32], SessionKey>>) -> Drv {
        Drv { ep: s.build(), m: Model::new(s, cache.clone()), delivered: vec![], emitted: vec![], config: s.config }
    }
    fn events(&mut self, cx: &mut Ctx, what: &str, exp: Expect, got: Res<Vec<Ev>>) -> R {
        cx.log(|| {
            format!(
                "{} -> {}",
                what,
                match &got {
                    Ok(v) => format!("Ok{}", show(v)),
                    Err(Fault::Err(e)) => format!("Err({})", e.chars().take(60).collect::<String>()),
                    Err(Fault::Panic(e)) => format!("PANIC({})", e),
                }
            )
        });
        if let Err(Fault::Panic(p)) = &got {
            return cx.report("panic", || format!("{} panics: {}", what, p));
        }
        if let Ok(v) = &got {
            self.delivered.extend(v.iter().cloned());
            cx.observe(v);
        } else {
            cx.observe("E");
        }
        match (&exp, &got) {
            (Expect::Ok(v), Ok(w)) if v == w => Ok(()),
            (Expect::Refuse, Err(_)) => Ok(()),
            (Expect::Nothing, Err(_)) => Ok(()),
            (Expect::Nothing, Ok(w)) if w.is_empty() => Ok(()),
            (Expect::Loose(_), Err(_)) => Err(Stop::Prune),
            (Expect::Loose(a), Ok(w)) if w.iter().all(|e| a.contains(e)) => Err(Stop::Prune),
            _ => {
                let key = match (&exp, &got) {
                    (Expect::Ok(_), Err(_)) => "refused",
                    (Expect::Ok(_), Ok(_)) => "wrong-delivery",
                    _ => "accepted",
                };
                cx.report(key, || {
                    format!(
                        "{}: expected {}, got {}",
                        what,
                        match &exp {
                            Expect::Ok(v) => format!("Ok{}", show(v)),
                            Expect::Refuse => "a refusal".into(),
                            _ => "no delivery".into(),
                        },
                        match &got {
                            Ok(v) => format!("Ok{}", show(v)),
                            Err(e) => format!("{:?}", e),
                        }
                    )
                })
            }
        }
    }
    fn emission<F: Fn(&Model, &[u8]) -> Result<(), String>>(
        &mut self,
        cx: &mut Ctx,
        what: &str,
        expected: bool,
        out: WOut,
        check: F,
    ) -> R {
        cx.log(|| {
            format!(
                "{} -> {}{}",
                what,
                match &out.res {
                    Ok(()) => "Ok".into(),
                    Err(Fault::Err(e)) => format!("Err({})", e.chars().take(60).collect::<String>()),
                    Err(Fault::Panic(e)) => format!("PANIC({})", e),
                },
                if out.bytes.is_empty() { String::new() } else { format!(", {} bytes", out.bytes.len()) }
            )
        });
        if let Err(Fault::Panic(p)) = &out.res {
            return cx.report("panic", || format!("{} panics: {}", what, p));
        }
        cx.observe(&(out.res.is_ok(), out.bytes.len()));
        if expected {
            if out.res.is_err() {
                return cx.report("local-refused", || format!("{} is refused: {:?}", what, out.res));
            }
            if let Err(e) = check(&self.m, &out.bytes) {
                return cx.report("bad-emission", || format!("{} emits a wrong message: {}", what, e));
            }
            self.emitted.push(out.bytes);
        } else {
            cx.check(out.bytes.is_empty(), "emitted", || {
                format!("{} emits {} bytes although it must be refused", what, out.bytes.len())
            })?;
            cx.check(out.res.is_err(), "local-accepted", || format!("{} succeeds although it must be refused", what))?;
        }
        Ok(())
    }
    pub fn op(&mut self, cx: &mut Ctx, op: &Op) -> R {
        cx.step();
        let r = self.op_inner(cx, op);
        let st = self.m.abs();
        cx.state(&st);
        r
    }
    fn op_inner(&mut self, cx: &mut Ctx, op: &Op) -> R {
        match op {
            Op::Connect(d) => {
                let e = self.m.connect();
                let o = self.ep.connect(d.as_ref().map(|d| &d[..]));
                self.emission(cx, "create CONNECT", e, o, |m, b| check_connect(m, b, d))
            }
            Op::Ack(d) => {
                let e = self.m.ack();
                let o = self.ep.ack(d.as_ref().map(|d| &d[..]));
                self.emission(cx, "create ACK", e, o, |m, b| check_ack(m, b, d))
            }
            Op::User(d) => {
                let e = self.m.user();
                let o = self.ep.user(d);
                self.emission(cx, "write USER", e, o, |m, b| check_user(m, b, m.next_write.get() - 1, d))
            }
            Op::Recv(name, b) => {
                let e = self.m.recv(b);
                let g = self.ep.recv(b);
                let what = format!("receive {}", name);
                self.events(cx, &what, e, g)
            }
            Op::Bad(name, f) => {
                let o = f(&mut self.ep);
                self.emission(cx, name, false, o, |_, _| Ok(()))
            }
            Op::Broken(what, after) => {
                let d = vec![0x5a; 300];
                let may = match what {
                    'C' => self.m.connect(),
                    'A' => self.m.ack(),
                    _ => self.m.user(),
                };
                let r = self.ep.write_broken(*what, &d, *after);
                cx.log(|| format!("write {} to an output that fails after {} bytes -> {:?}", what, after, r));
                cx.observe(&r.is_ok());
                if let Err(Fault::Panic(p)) = &r {
                    return cx.report("panic", || format!("write panics: {}", p));
                }
                if may {
                    self.m.failed = true;
                }
                cx.check(r.is_err(), "lost-output", || "a write succeeds although the output fails".into())
            }
            Op::TakeAck => {
                let e = self.m.take_ack();
                let g = self.ep.take_ack();
                self.events(cx, "take early ACK", e, g)
            }
            Op::Drain => {
                let e = self.m.drain();
                let g = self.ep.drain();
                self.events(cx, "drain", e, g)
            }
            Op::CloneDrop | Op::CloneSwap => {
                let e = self.m.success();
                let g = self.ep.try_clone();
                cx.log(|| format!("clone -> {}", if g.is_ok() { "Ok" } else { "Err" }));
                cx.observe(&g.is_ok());
                if let Err(Fault::Panic(p)) = &g {
                    return cx.report("panic", || format!("clone panics: {}", p));
                }
                match (e, g) {
                    (true, Ok(c)) => {
                        self.m.cloned = true;
                        if let Op::CloneSwap = op {
                            self.ep = c;
                            self.m.stash = None;
                        }
                        Ok(())
                    }
                    (false, Err(_)) => Ok(()),
                    (true, Err(x)) => {
                        cx.report("clone-refused", || format!("clone refused after a completed negotiation: {:?}", x))
                    }
                    (false, Ok(_)) => {
                        cx.report("clone-accepted", || "clone succeeds although the negotiation is not completed".into())
                    }
                }
            }
            Op::Config(i) => {
                let mut c = config(*i);
                if !self.m.cloned {
                    c.message_format = self.config.message_format;
                }
                let g = self.ep.set_config(c);
                cx.log(|| format!("change_config({}) -> {:?}", i, g));
                if let Err(Fault::Panic(p)) = &g {
                    return cx.report("panic", || format!("change_config panics: {}", p));
                }
                if self.m.cloned {
                    cx.check(g.is_err(), "config-accepted", || "configuration changed after cloning".into())
                } else if self.m.failed {
                    Ok(())
                } else {
                    cx.check(g.is_ok(), "config-refused", || format!("change_config refused: {:?}", g))
                }
            }
        }
    }
}

impl Drv {
    /// Clones the endpoint: the second handle with its own model.
    pub fn fork(&mut self, cx: &mut Ctx) -> Result<Option<Drv>, Stop> {
        cx.step();
        let g = self.ep.try_clone();
        cx.log(|| format!("clone -> {}", if g.is_ok() { "Ok" } else { "Err" }));
        match (self.m.success(), g) {
            (true, Ok(c)) => {
                self.m.cloned = true;
                let mut m = self.m.clone();
                m.stash = None;
                Ok(Some(Drv { ep: c, m, delivered: self.delivered.clone(), emitted: vec![], config: self.config }))
            }
            (false, Err(Fault::Err(_))) => Ok(None),
            (_, Err(Fault::Panic(p))) => {
                cx.report("panic", || format!("clone panics: {}", p))?;
                Ok(None)
            }
            (true, Err(e)) => {
                cx.report("clone-refused", || format!("clone refused after a completed negotiation: {:?}", e))?;
                Ok(None)
            }
            (false, Ok(_)) => {
                cx.report("clone-accepted", || "clone succeeds although the negotiation is not completed".into())?;
                Ok(None)
            }
        }
    }
}

pub fn check_connect(m: &Model, b: &[u8], d: &Option<Vec<u8>>) -> Result<(), String> {
    match parse(b) {
        Ok(Parsed::Connect { epk, pk, body, signed }) => {
            if epk != m.own_epk {
                return Err("other ephemeral key".into());
            }
            if pk != m.own_pk {
                return Err("other signature key".into());
            }
            if !verify_with_cached(&pk, b, signed) {
                return Err("bad signature".into());
            }
            same(m.mode, &body, d)
        }
        o => Err(format!("not a CONNECT message: {:?}", o)),
    }
}
pub fn check_ack(m: &Model, b: &[u8], d: &Option<Vec<u8>>) -> Result<(), String> {
    match parse(b) {
        Ok(Parsed::Ack { challenge, body, signed }) => {
            if challenge != sha256(&m.peer.as_ref().unwrap().1) {
                return Err("wrong challenge".into());
            }
            if !verify_with_cached(&m.own_pk, b, signed) {
                return Err("bad signature".into());
            }
            same(m.mode, &body, d)
        }
        o => Err(format!("not an ACK message: {:?}", o)),
    }
}
pub fn check_user(m: &Model, b: &[u8], n: u64, d: &[u8]) -> Result<(), String> {
    let c = m.key.as_ref().unwrap().open(b).ok_or("cannot be decrypted with the session key")?;
    match parse(&c) {
        Ok(Parsed::User { nonce, body, hash_ok }) => {
            if !hash_ok {
                return Err("bad hash".into());
            }
            if nonce != n {
                return Err(format!("message number {} instead of {}", nonce, n));
            }
            match unwrap(m.mode, &body) {
                Some(x) if x.clone().unwrap_or_default() == d => Ok(()),
                _ => Err("other content".into()),
            }
        }
        o => Err(format!("not a USER message: {:?}", o)),
    }
}
fn same(mode: Mode, body: &[u8], d: &Option<Vec<u8>>) -> Result<(), String> {
    let want = match (mode, d) {
        (Mode::Min, Some(d)) if d.is_empty() => None,
        _ => d.clone(),
    };
    match unwrap(mode, body) {
        Some(x) if x == want => Ok(()),
        x => Err(format!("custom data {:?} instead of {:?}", x, want)),
    }
}

/// A fixed setting: one endpoint under test and one reference peer, with all their keys.
pub struct World {
    pub name: String,
    pub spec: EpSpec,
    pub mode: Mode,
    pub epk: [u8; 32],
    pub p: Peer,
    pub key: SessionKey,
    pub keys: Arc<BTreeMap<[u8; 32], SessionKey>>,
}
pub fn seed(n: u8) -> [u8; 32] {
    let mut s = [n; 32];
    for (i, b) in s.iter_mut().enumerate() {
        *b = b.wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(n | 1)).wrapping_add(7);
    }
    s
}
impl World {
    pub fn new(mode: Mode, pinned: bool, eph_e: [u8; 32], eph_p: [u8; 32]) -> World {
        let e_id = Id::new(seed(201));
        let p_id = Id::new(seed(202));
        let p = Peer::new(&p_id, eph_p);
        let spec = EpSpec::new(mode, &e_id, eph_e, if pinned { Some(p_id.pk.clone()) } else { None });
        let epk = epk_of(eph_e);
        let key = p.key(&epk);
        let mut keys = BTreeMap::new();
        keys.insert(p.epk, key.clone());
        World {
            name: format!("{:?}{}", mode, if pinned { ", peer key known" } else { "" }),
            spec,
            mode,
            epk,
            p,
            key,
            keys: Arc::new(keys),
        }
    }
    /// The standard setting; `gt`: own ephemeral key larger than the peer's.
    pub fn std(mode: Mode, pinned: bool, gt: bool) -> World {
        let (a, b) = (seed(1), seed(2));
        if (epk_of(a) > epk_of(b)) == gt {
            World::new(mode, pinned, a, b)
        } else {
            World::new(mode, pinned, b, a)
        }
    }
    pub fn add_key(&mut self, p: &Peer) {
        let k = p.key(&self.epk);
        Arc::make_mut(&mut self.keys).insert(p.epk, k);
    }
    pub fn drv(&self) -> Drv {
        Drv::new(&self.spec, &self.keys)
    }
    pub fn wrap(&self, d: Option<&[u8]>) -> Vec<u8> {
        wrap(self.mode, d)
    }
    pub fn connect(&self, d: Option<&[u8]>) -> Vec<u8> {
        self.p.connect(&self.wrap(d))
    }
    pub fn ack(&self, d: Option<&[u8]>) -> Vec<u8> {
        self.p.ack(&self.epk, &self.wrap(d))
    }
    pub fn user(&self, n: u64, d: &[u8]) -> Vec<u8> {
        self.key.user(n, &self.wrap(Some(d)))
    }
}
