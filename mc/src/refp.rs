//! Independent implementation of the documented wire format and key schedule (oracle side).
//! Built on ring primitives only; shares no code with pkstl and uses another AEAD implementation than pkstl.
use flate2::write::{DeflateDecoder, DeflateEncoder};
use ring::{aead, agreement, digest, pbkdf2, rand, signature};
use signature::KeyPair;
use std::io::Write;
use std::num::NonZeroU32;
use std::sync::Arc;

pub const MAGIC: [u8; 4] = [0xE2, 0xC2, 0xE2, 0xD2];
pub const VERSION: [u8; 4] = [0, 0, 0, 1];
pub const SIG_ALGO: [u8; 4] = [0, 0, 0, 0];
pub const T_USER: u16 = 0;
pub const T_CONNECT: u16 = 1;
pub const T_ACK: u16 = 2;
/// 16 header + 2 type + 32 EPK + 4 algo + 32 key
pub const CONNECT_FIXED: usize = 86;
/// 16 header + 2 type + 32 challenge
pub const ACK_FIXED: usize = 50;
/// 16 header + 2 type + 8 nonce
pub const USER_FIXED: usize = 26;

pub fn sha256(d: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o.copy_from_slice(digest::digest(&digest::SHA256, d).as_ref());
    o
}
pub fn verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    signature::UnparsedPublicKey::new(&signature::ED25519, pk).verify(msg, sig).is_ok()
}
pub fn deflate(d: &[u8]) -> Vec<u8> {
    let mut e = DeflateEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
pub fn inflate(d: &[u8]) -> Option<Vec<u8>> {
    let mut e = DeflateDecoder::new(Vec::new());
    e.write_all(d).ok()?;
    e.finish().ok()
}

/// Header + type + headers + body with the length field computed.
pub fn frame(ty: u16, headers: &[u8], body: &[u8]) -> Vec<u8> {
    frame_len(ty, headers, body, (2 + headers.len() + body.len()) as u64)
}
pub fn frame_len(ty: u16, headers: &[u8], body: &[u8], len: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(18 + headers.len() + body.len() + 64);
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&VERSION);
    v.extend_from_slice(&len.to_be_bytes());
    v.extend_from_slice(&ty.to_be_bytes());
    v.extend_from_slice(headers);
    v.extend_from_slice(body);
    v
}
pub fn hashed(mut v: Vec<u8>) -> Vec<u8> {
    let h = sha256(&v);
    v.extend_from_slice(&h);
    v
}
pub fn connect_headers(epk: &[u8], algo: &[u8], pk: &[u8]) -> Vec<u8> {
    let mut v = epk.to_vec();
    v.extend_from_slice(algo);
    v.extend_from_slice(pk);
    v
}
pub fn user_clear(nonce: u64, body: &[u8]) -> Vec<u8> {
    hashed(frame(T_USER, &nonce.to_be_bytes(), body))
}

/// Signature identity
pub struct Id {
    pub seed: [u8; 32],
    pub kp: signature::Ed25519KeyPair,
    pub pk: Vec<u8>,
}
impl Id {
    pub fn new(seed: [u8; 32]) -> Arc<Id> {
        let kp = signature::Ed25519KeyPair::from_seed_unchecked(&seed).unwrap();
        let pk = kp.public_key().as_ref().to_vec();
        Arc::new(Id { seed, kp, pk })
    }
    pub fn signed(&self, mut v: Vec<u8>) -> Vec<u8> {
        let s = self.kp.sign(&v);
        v.extend_from_slice(s.as_ref());
        v
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SessionKey(pub [u8; 48]);
impl SessionKey {
    pub fn derive(secret: &[u8], epk_a: &[u8], epk_b: &[u8]) -> Self {
        let salt = if epk_a > epk_b { epk_a } else { epk_b };
        let mut o = [0u8; 48];
        pbkdf2::derive(pbkdf2::PBKDF2_HMAC_SHA384, NonZeroU32::new(3).unwrap(), salt, secret, &mut o);
        SessionKey(o)
    }
    fn ring_key(&self) -> (aead::LessSafeKey, aead::Nonce) {
        let k = aead::LessSafeKey::new(aead::UnboundKey::new(&aead::CHACHA20_POLY1305, &self.0[..32]).unwrap());
        let mut n = [0u8; 12];
        n.copy_from_slice(&self.0[32..44]);
        (k, aead::Nonce::assume_unique_for_key(n))
    }
    pub fn seal(&self, clear: &[u8]) -> Vec<u8> {
        let (k, n) = self.ring_key();
        let mut v = clear.to_vec();
        k.seal_in_place_append_tag(n, aead::Aad::from(&self.0[44..48]), &mut v).unwrap();
        v
    }
    pub fn open(&self, enc: &[u8]) -> Option<Vec<u8>> {
        if enc.len() < 16 {
            return None;
        }
        let (k, n) = self.ring_key();
        let mut v = enc.to_vec();
        let l = k.open_in_place(n, aead::Aad::from(&self.0[44..48]), &mut v).ok()?.len();
        v.truncate(l);
        Some(v)
    }
    pub fn user(&self, nonce: u64, body: &[u8]) -> Vec<u8> {
        self.seal(&user_clear(nonce, body))
    }
}

fn x25519(seed: [u8; 32]) -> agreement::EphemeralPrivateKey {
    crate::sut::with_seed(seed, || {
        agreement::EphemeralPrivateKey::generate(&agreement::X25519, &rand::SystemRandom::new()).unwrap()
    })
}
pub fn epk_of(seed: [u8; 32]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o.copy_from_slice(x25519(seed).compute_public_key().unwrap().as_ref());
    o
}
/// Session key between the holder of the ephemeral seed and the ephemeral public key `other`.
pub fn session_key(seed: [u8; 32], other: &[u8]) -> Option<SessionKey> {
    let own = epk_of(seed);
    agreement::agree_ephemeral(
        x25519(seed),
        &agreement::UnparsedPublicKey::new(&agreement::X25519, other),
        (),
        |s| Ok(SessionKey::derive(s, &own, other)),
    )
    .ok()
}
pub fn dh_secret(seed: [u8; 32], other: &[u8]) -> Option<Vec<u8>> {
    agreement::agree_ephemeral(
        x25519(seed),
        &agreement::UnparsedPublicKey::new(&agreement::X25519, other),
        (),
        |s| Ok(s.to_vec()),
    )
    .ok()
}

/// One session of a reference principal.
#[derive(Clone)]
pub struct Peer {
    pub id: Arc<Id>,
    pub eph: [u8; 32],
    pub epk: [u8; 32],
}
impl Peer {
    pub fn new(id: &Arc<Id>, eph: [u8; 32]) -> Peer {
        Peer { id: id.clone(), eph, epk: epk_of(eph) }
    }
    pub fn connect(&self, body: &[u8]) -> Vec<u8> {
        self.id.signed(frame(T_CONNECT, &connect_headers(&self.epk, &SIG_ALGO, &self.id.pk), body))
    }
    /// ACK for the endpoint whose ephemeral key is `epk`
    pub fn ack(&self, epk: &[u8], body: &[u8]) -> Vec<u8> {
        self.id.signed(frame(T_ACK, &sha256(epk), body))
    }
    pub fn key(&self, epk: &[u8]) -> SessionKey {
        session_key(self.eph, epk).expect("usable key")
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Parsed {
    Connect { epk: [u8; 32], pk: Vec<u8>, body: Vec<u8>, signed: usize },
    Ack { challenge: [u8; 32], body: Vec<u8>, signed: usize },
    User { nonce: u64, body: Vec<u8>, hash_ok: bool },
}
/// Parser of a clear frame; the signature is v[signed..].
pub fn parse(v: &[u8]) -> Result<Parsed, &'static str> {
    if v.len() < 18 {
        return Err("too short");
    }
    if v[..4] != MAGIC {
        return Err("magic");
    }
    if v[4..8] != VERSION {
        return Err("version");
    }
    let mut l = [0u8; 8];
    l.copy_from_slice(&v[8..16]);
    let l = u64::from_be_bytes(l);
    match &v[16..18] {
        [0, 0] | [0, 1] | [0, 2] => (),
        _ => return Err("type"),
    }
    // what follows is the signature or hash: of a wrong length, it is not valid
    if l > v.len() as u64 - 16 {
        return Err("length");
    }
    let end = 16 + l as usize;
    let mut a = [0u8; 32];
    match &v[16..18] {
        [0, 0] => {
            if end < USER_FIXED {
                return Err("user headers");
            }
            let mut n = [0u8; 8];
            n.copy_from_slice(&v[18..26]);
            Ok(Parsed::User {
                nonce: u64::from_be_bytes(n),
                body: v[26..end].to_vec(),
                hash_ok: sha256(&v[..end]) == v[end..],
            })
        }
        [0, 1] => {
            if end < CONNECT_FIXED {
                return Err("connect headers");
            }
            a.copy_from_slice(&v[18..50]);
            if v[50..54] != SIG_ALGO {
                return Err("signature algorithm");
            }
            Ok(Parsed::Connect { epk: a, pk: v[54..86].to_vec(), body: v[86..end].to_vec(), signed: end })
        }
        _ => {
            if end < ACK_FIXED {
                return Err("ack headers");
            }
            a.copy_from_slice(&v[18..50]);
            Ok(Parsed::Ack { challenge: a, body: v[50..end].to_vec(), signed: end })
        }
    }
}

/// Ephemeral public keys of low order (the shared secret would be all zero).
pub fn low_order() -> Vec<[u8; 32]> {
    let mut one = [0u8; 32];
    one[0] = 1;
    let h = |s: &str| {
        let mut o = [0u8; 32];
        for i in 0..32 {
            o[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
        }
        o
    };
    vec![
        [0u8; 32],
        one,
        h("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
        h("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
        h("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
        h("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
        h("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
    ]
}
