//! Message types of the agent.  Payloads are determined by (id, len).
use ipmb::{
    BytesMessage, EndpointReceiver, EndpointSender, JoinError, MemoryRegion, Message, MessageBox,
    Object, Options, RecvError,
};
use serde::{Deserialize, Serialize};
use std::time::Duration;
use type_uuid::TypeUuid;

pub use ipmb::MessageBox as _;

#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "0c6ad4a5-7d1b-4b6a-9a1d-000000000001"]
pub struct A {
    pub id: u64,
    #[serde(with = "serde_bytes")]
    pub data: Vec<u8>,
}

#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "0c6ad4a5-7d1b-4b6a-9a1d-000000000002"]
pub struct B {
    pub text: String,
    pub id: u64,
    pub opt: Option<i64>,
}

/// Carries the id of A, but is no A
#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "0c6ad4a5-7d1b-4b6a-9a1d-000000000001"]
pub struct BadA {}

/// Carries the id of BytesMessage, but is none
#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "dd95ba8e-1279-47cf-925e-83e614e79588"]
pub struct BadY {}

#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "0c6ad4a5-7d1b-4b6a-9a1d-000000000003"]
pub struct C {
    pub id: u64,
}

/// A message whose encoding is its content
pub struct R(pub Vec<u8>);
pub const R_UUID: type_uuid::Bytes = [0x5a; 16];

impl MessageBox for R {
    fn decode(uuid: type_uuid::Bytes, data: &[u8]) -> Result<Self, ipmb::Error> {
        if uuid == R_UUID {
            Ok(R(data.to_vec()))
        } else {
            Err(ipmb::Error::TypeUuidNotFound)
        }
    }
    fn encode(&self) -> Result<Vec<u8>, ipmb::Error> {
        Ok(self.0.clone())
    }
    fn uuid(&self) -> type_uuid::Bytes {
        R_UUID
    }
}

/// Zeros, ones, a pattern or noise, according to id
pub fn content(id: u64, len: usize) -> Vec<u8> {
    match id % 4 {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => pad(id, len),
        _ => {
            let mut x = id.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
            (0..len)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 24) as u8
                })
                .collect()
        }
    }
}

/// Fits into the numbers of JSON
pub fn sum(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    h >> 12
}

/// Only used to send
pub enum SendBox {
    R(R),
    A(A),
    B(B),
    C(C),
    Y(BytesMessage),
    BadA(BadA),
    BadY(BadY),
}

impl MessageBox for SendBox {
    fn decode(_: type_uuid::Bytes, _: &[u8]) -> Result<Self, ipmb::Error> {
        Err(ipmb::Error::TypeUuidNotFound)
    }
    fn encode(&self) -> Result<Vec<u8>, ipmb::Error> {
        match self {
            SendBox::R(x) => x.encode(),
            SendBox::A(x) => x.encode(),
            SendBox::B(x) => x.encode(),
            SendBox::C(x) => x.encode(),
            SendBox::Y(x) => x.encode(),
            SendBox::BadA(x) => x.encode(),
            SendBox::BadY(x) => x.encode(),
        }
    }
    fn uuid(&self) -> type_uuid::Bytes {
        match self {
            SendBox::R(_) => R_UUID,
            SendBox::A(_) => A::UUID,
            SendBox::B(_) => B::UUID,
            SendBox::C(_) => C::UUID,
            SendBox::Y(_) => BytesMessage::UUID,
            SendBox::BadA(_) => BadA::UUID,
            SendBox::BadY(_) => BadY::UUID,
        }
    }
}

#[derive(Debug, MessageBox)]
pub enum BoxAb {
    A(A),
    B(B),
}

#[derive(Debug, MessageBox)]
pub enum BoxBca {
    B(B),
    C(C),
    A(A),
}

#[derive(Debug, MessageBox)]
pub enum BoxAll {
    Y(BytesMessage),
    C(C),
    B(B),
    A(A),
}

pub fn pad(id: u64, len: usize) -> Vec<u8> {
    (0..len)
        .map(|i| (id * 31 + i as u64 * 7 + (i as u64 >> 8) * 13 + (i as u64 >> 16) * 17) as u8)
        .collect()
}

fn text(id: u64, len: usize) -> String {
    pad(id, len).iter().map(|b| char::from(b'a' + b % 26)).collect()
}

fn opt(id: u64) -> Option<i64> {
    (id % 2 == 0).then_some(-(id as i64))
}

pub fn payload(ty: &str, id: u64, len: usize) -> SendBox {
    match ty {
        "R" => SendBox::R(R(content(id, len))),
        "A" => SendBox::A(A { id, data: pad(id, len) }),
        "B" => SendBox::B(B { text: text(id, len), id, opt: opt(id) }),
        "C" => SendBox::C(C { id }),
        "Y" => SendBox::Y(BytesMessage { format: id as u16, data: pad(id, len) }),
        "BadA" => SendBox::BadA(BadA {}),
        "BadY" => SendBox::BadY(BadY {}),
        x => panic!("harness: type {x}"),
    }
}

pub struct Got {
    pub ty: &'static str,
    pub id: u64,
    pub len: usize,
    pub intact: bool,
    pub objects: Vec<Object>,
    pub regions: Vec<MemoryRegion>,
}

type Seen = (&'static str, u64, usize, bool);
fn see_a(x: &A) -> Seen {
    ("A", x.id, x.data.len(), x.data == pad(x.id, x.data.len()))
}
fn see_b(x: &B) -> Seen {
    ("B", x.id, x.text.len(), x.text == text(x.id, x.text.len()) && x.opt == opt(x.id))
}
fn see_c(x: &C) -> Seen {
    ("C", x.id, 0, true)
}
fn see_y(x: &BytesMessage) -> Seen {
    ("Y", x.format as u64, x.data.len(), x.data == pad(x.format as u64, x.data.len()))
}

pub trait See {
    fn see(&self) -> Seen;
}
impl See for R {
    fn see(&self) -> Seen {
        ("R", sum(&self.0), self.0.len(), true)
    }
}
impl See for A {
    fn see(&self) -> Seen {
        see_a(self)
    }
}
impl See for B {
    fn see(&self) -> Seen {
        see_b(self)
    }
}
impl See for BytesMessage {
    fn see(&self) -> Seen {
        see_y(self)
    }
}
impl See for BoxAb {
    fn see(&self) -> Seen {
        match self {
            BoxAb::A(x) => see_a(x),
            BoxAb::B(x) => see_b(x),
        }
    }
}
impl See for BoxBca {
    fn see(&self) -> Seen {
        match self {
            BoxBca::A(x) => see_a(x),
            BoxBca::B(x) => see_b(x),
            BoxBca::C(x) => see_c(x),
        }
    }
}
impl See for BoxAll {
    fn see(&self) -> Seen {
        match self {
            BoxAll::A(x) => see_a(x),
            BoxAll::B(x) => see_b(x),
            BoxAll::C(x) => see_c(x),
            BoxAll::Y(x) => see_y(x),
        }
    }
}

pub type Tx = EndpointSender<SendBox>;

pub trait Rx: Send {
    fn recv(&mut self, timeout: Option<Duration>) -> Result<Got, String>;
}

impl<R: MessageBox + See> Rx for EndpointReceiver<R> {
    fn recv(&mut self, timeout: Option<Duration>) -> Result<Got, String> {
        match EndpointReceiver::recv(self, timeout) {
            Ok(m) => {
                let Message { payload, objects, memory_regions, .. } = m;
                let (ty, id, len, intact) = payload.see();
                Ok(Got { ty, id, len, intact, objects, regions: memory_regions })
            }
            Err(RecvError::Decode(_)) => Err("Decode".into()),
            Err(e) => Err(format!("{e:?}")),
        }
    }
}

fn join_err(e: JoinError) -> String {
    match e {
        JoinError::VersionMismatch(v) => format!("VersionMismatch {v}"),
        e => format!("{e:?}"),
    }
}

pub fn join(
    types: &str,
    options: Options,
    timeout: Option<Duration>,
) -> Result<(Tx, Box<dyn Rx>), String> {
    fn go<R: MessageBox + See>(
        o: Options,
        t: Option<Duration>,
    ) -> Result<(Tx, Box<dyn Rx>), String> {
        ipmb::join::<SendBox, R>(o, t)
            .map(|(s, r)| (s, Box::new(r) as Box<dyn Rx>))
            .map_err(join_err)
    }
    match types {
        "R" => go::<R>(options, timeout),
        "A" => go::<A>(options, timeout),
        "B" => go::<B>(options, timeout),
        "Y" => go::<BytesMessage>(options, timeout),
        "AB" => go::<BoxAb>(options, timeout),
        "ABC" => go::<BoxBca>(options, timeout),
        "ABY" | "ABCY" => go::<BoxAll>(options, timeout),
        x => panic!("harness: types {x}"),
    }
}
