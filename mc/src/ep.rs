//! One endpoint of the code under test (either mode) behind a uniform interface.
use crate::refp::{inflate, Id};
use crate::sut::{call, with_seed};
use pkstl::{IncomingBinaryMessage, Message, MinimalSecureLayer, SecureLayer, SecureLayerConfig, Seed32};
use std::io::BufWriter;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    Min,
    Cmp,
}
pub const MODES: [Mode; 2] = [Mode::Min, Mode::Cmp];

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    Connect { key: Vec<u8>, data: Option<Vec<u8>> },
    Ack { data: Option<Vec<u8>> },
    User { data: Vec<u8> },
}
pub fn short(d: &[u8]) -> String {
    let h: String = d.iter().take(6).map(|b| format!("{:02x}", b)).collect();
    if d.len() > 6 {
        format!("{}..({}B)", h, d.len())
    } else {
        h
    }
}
impl Ev {
    pub fn show(&self) -> String {
        let o = |d: &Option<Vec<u8>>| d.as_ref().map(|d| short(d)).unwrap_or_else(|| "-".into());
        match self {
            Ev::Connect { key, data } => format!("CONNECT key={} data={}", short(key), o(data)),
            Ev::Ack { data } => format!("ACK data={}", o(data)),
            Ev::User { data } => format!("USER {}", short(data)),
        }
    }
}
pub fn show(e: &[Ev]) -> String {
    let v: Vec<_> = e.iter().map(Ev::show).collect();
    format!("[{}]", v.join(", "))
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Fault {
    Err(String),
    Panic(String),
}
impl Fault {
    pub fn is_panic(&self) -> bool {
        if let Fault::Panic(_) = self {
            true
        } else {
            false
        }
    }
}
pub type Res<T> = Result<T, Fault>;

/// Result of a write: outcome plus the bytes that reached the output in any case.
pub struct WOut {
    pub res: Res<()>,
    pub bytes: Vec<u8>,
}

pub enum Inner {
    Min(Box<MinimalSecureLayer>),
    Cmp(Box<SecureLayer>),
}
pub struct Ep {
    pub inner: Inner,
    pub id: Arc<Id>,
}

#[derive(Clone)]
pub struct EpSpec {
    pub mode: Mode,
    pub id: Arc<Id>,
    pub eph: [u8; 32],
    pub expected: Option<Vec<u8>>,
    pub config: SecureLayerConfig,
}
impl EpSpec {
    pub fn new(mode: Mode, id: &Arc<Id>, eph: [u8; 32], expected: Option<Vec<u8>>) -> Self {
        EpSpec { mode, id: id.clone(), eph, expected, config: SecureLayerConfig::default() }
    }
    pub fn build(&self) -> Ep {
        with_seed(self.eph, || self.build_random())
    }
    /// With whatever randomness is currently configured.
    pub fn build_random(&self) -> Ep {
        match self.try_build_random() {
            Ok(e) => e,
            Err(f) => panic!("create: {:?}", f),
        }
    }
    pub fn try_build(&self) -> Res<Ep> {
        with_seed(self.eph, || self.try_build_random())
    }
    fn try_build_random(&self) -> Res<Ep> {
        let inner = match self.mode {
            Mode::Min => {
                Inner::Min(Box::new(flat(call(|| MinimalSecureLayer::create(self.config, self.expected.clone())))?))
            }
            Mode::Cmp => Inner::Cmp(Box::new(flat(call(|| {
                SecureLayer::create(self.config, Some(Seed32::new(self.id.seed)), self.expected.clone())
            }))?)),
        };
        Ok(Ep { inner, id: self.id.clone() })
    }
}

fn flat<T>(r: Result<pkstl::Result<T>, String>) -> Res<T> {
    match r {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(Fault::Err(format!("{:?}", e))),
        Err(p) => Err(Fault::Panic(p)),
    }
}
pub fn min_ev(m: Message) -> Ev {
    match m {
        Message::Connect { custom_data, sig_pubkey, .. } => Ev::Connect { key: sig_pubkey, data: custom_data },
        Message::Ack { custom_data } => Ev::Ack { data: custom_data },
        Message::Message { custom_data } => Ev::User { data: custom_data.unwrap_or_default() },
    }
}
pub fn cmp_ev(m: IncomingBinaryMessage) -> Ev {
    match m {
        IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => {
            Ev::Connect { key: peer_sig_public_key, data: custom_data }
        }
        IncomingBinaryMessage::Ack { custom_data } => Ev::Ack { data: custom_data },
        IncomingBinaryMessage::Message { data } => Ev::User { data: data.unwrap_or_default() },
    }
}

pub fn wout<F: FnOnce(&mut BufWriter<Vec<u8>>) -> pkstl::Result<()>>(f: F) -> WOut {
    let mut w = BufWriter::new(Vec::new());
    let r = flat(call(|| f(&mut w)));
    let bytes = w.into_inner().unwrap_or_default();
    WOut { res: r, bytes }
}

/// An output that fails after some bytes.
struct Failing(usize);
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Ep {
    /// Nothing is buffered, so that the error occurs during the call. Minimal mode writes only user messages.
    pub fn write_broken(&mut self, what: char, data: &[u8], after: usize) -> Res<()> {
        let mut w = BufWriter::with_capacity(0, Failing(after));
        flat(call(|| match (&mut self.inner, what) {
            (Inner::Cmp(s), 'C') => s.write_connect_msg_bin(Some(data), &mut w),
            (Inner::Cmp(s), 'A') => s.write_ack_msg_bin(Some(data), &mut w),
            (Inner::Cmp(s), _) => s.write_bin(data, &mut w),
            (Inner::Min(s), _) => s.write_message(data, &mut w),
        }))
    }
    pub fn mode(&self) -> Mode {
        match self.inner {
            Inner::Min(_) => Mode::Min,
            Inner::Cmp(_) => Mode::Cmp,
        }
    }
    pub fn connect(&mut self, data: Option<&[u8]>) -> WOut {
        let id = self.id.clone();
        match &mut self.inner {
            Inner::Min(m) => match flat(call(|| m.create_connect_message(&id.pk, data))) {
                Ok(b) => WOut { res: Ok(()), bytes: id.signed(b) },
                Err(e) => WOut { res: Err(e), bytes: vec![] },
            },
            Inner::Cmp(c) => wout(|w| c.write_connect_msg_bin(data, w)),
        }
    }
    pub fn ack(&mut self, data: Option<&[u8]>) -> WOut {
        let id = self.id.clone();
        match &mut self.inner {
            Inner::Min(m) => match flat(call(|| m.create_ack_message(data))) {
                Ok(b) => WOut { res: Ok(()), bytes: id.signed(b) },
                Err(e) => WOut { res: Err(e), bytes: vec![] },
            },
            Inner::Cmp(c) => wout(|w| c.write_ack_msg_bin(data, w)),
        }
    }
    pub fn user(&mut self, data: &[u8]) -> WOut {
        match &mut self.inner {
            Inner::Min(m) => wout(|w| m.write_message(data, w)),
            Inner::Cmp(c) => wout(|w| c.write_bin(data, w)),
        }
    }
    pub fn recv(&mut self, bytes: &[u8]) -> Res<Vec<Ev>> {
        match &mut self.inner {
            Inner::Min(m) => flat(call(|| m.read(bytes))).map(|o| o.into_iter().map(min_ev).collect()),
            Inner::Cmp(c) => flat(call(|| c.read_bin(bytes))).map(|v| v.into_iter().map(cmp_ev).collect()),
        }
    }
    pub fn take_ack(&mut self) -> Res<Vec<Ev>> {
        match &mut self.inner {
            Inner::Min(m) => {
                flat(call(|| m.take_ack_msg_recv_too_early())).map(|o| o.into_iter().map(min_ev).collect())
            }
            Inner::Cmp(_) => Ok(vec![]),
        }
    }
    pub fn drain(&mut self) -> Res<Vec<Ev>> {
        match &mut self.inner {
            Inner::Min(m) => {
                flat(call(|| m.drain_tmp_stack_user_msgs())).map(|o| o.into_iter().map(min_ev).collect())
            }
            Inner::Cmp(_) => Ok(vec![]),
        }
    }
    /// Receives as an application does: after each read the held back messages are fetched (minimal mode;
    /// complete mode does it by itself).
    pub fn recv_poll(&mut self, bytes: &[u8]) -> Res<Vec<Ev>> {
        let mut v = self.recv(bytes)?;
        if self.mode() == Mode::Min {
            if v.iter().any(|e| matches!(e, Ev::Connect { .. })) {
                v.extend(self.take_ack()?);
            }
            if v.iter().any(|e| matches!(e, Ev::Ack { .. })) {
                v.extend(self.drain()?);
            }
        }
        Ok(v)
    }
    pub fn try_clone(&mut self) -> Res<Ep> {
        let id = self.id.clone();
        match &mut self.inner {
            Inner::Min(m) => {
                flat(call(|| m.try_clone())).map(|c| Ep { inner: Inner::Min(Box::new(c)), id })
            }
            Inner::Cmp(m) => {
                flat(call(|| m.try_clone())).map(|c| Ep { inner: Inner::Cmp(Box::new(c)), id })
            }
        }
    }
    pub fn set_config(&mut self, c: SecureLayerConfig) -> Res<()> {
        match &mut self.inner {
            Inner::Min(m) => flat(call(|| m.change_config(c))),
            Inner::Cmp(m) => flat(call(|| m.change_config(c))),
        }
    }
}

/// How custom data travels in the body of a frame.
pub fn wrap(mode: Mode, d: Option<&[u8]>) -> Vec<u8> {
    match (mode, d) {
        (_, None) => vec![],
        (Mode::Min, Some(d)) => d.to_vec(),
        (Mode::Cmp, Some(d)) => crate::refp::deflate(d),
    }
}
/// Inverse of `wrap`: outer None = not decodable
pub fn unwrap(mode: Mode, body: &[u8]) -> Option<Option<Vec<u8>>> {
    if body.is_empty() {
        return Some(None);
    }
    match mode {
        Mode::Min => Some(Some(body.to_vec())),
        Mode::Cmp => inflate(body).map(Some),
    }
}
