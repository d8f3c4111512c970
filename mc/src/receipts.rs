//! C04 receipts: table-driven model of the eleven kinds, layout, round trip, accessors.
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::shared::{serde_rt, std_hash};
use crate::{ensure, ensure_eq};
use fuel_asm::InstructionResult;
use fuel_tx::{Receipt, ScriptExecutionResult};
use fuel_types::bytes::SizedBytes;
#[cfg(feature = "full")]
use fuel_types::bytes::{Deserializable, SerializableVec};
use fuel_types::MessageId;
#[cfg(feature = "full")]
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    B,
    W,
    D,
}
use T::*;
pub const TABLE: [(&str, &[(&str, T)]); 11] = [
    ("Call", &[("id", B), ("to", B), ("amount", W), ("asset", B), ("gas", W), ("param1", W), ("param2", W), ("pc", W), ("is", W)]),
    ("Return", &[("id", B), ("val", W), ("pc", W), ("is", W)]),
    ("ReturnData", &[("id", B), ("ptr", W), ("len", W), ("digest", B), ("data", D), ("pc", W), ("is", W)]),
    ("Panic", &[("id", B), ("reason", W), ("pc", W), ("is", W)]),
    ("Revert", &[("id", B), ("ra", W), ("pc", W), ("is", W)]),
    ("Log", &[("id", B), ("ra", W), ("rb", W), ("rc", W), ("rd", W), ("pc", W), ("is", W)]),
    ("LogData", &[("id", B), ("ra", W), ("rb", W), ("ptr", W), ("len", W), ("digest", B), ("data", D), ("pc", W), ("is", W)]),
    ("Transfer", &[("id", B), ("to", B), ("amount", W), ("asset", B), ("pc", W), ("is", W)]),
    ("TransferOut", &[("id", B), ("to_address", B), ("amount", W), ("asset", B), ("pc", W), ("is", W)]),
    ("ScriptResult", &[("result", W), ("gas_used", W)]),
    ("MessageOut", &[("mid", B), ("sender", B), ("recipient", B), ("amount", W), ("nonce", B), ("len", W), ("digest", B), ("data", D)]),
];
pub const RC_KINDS: usize = 11;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum F {
    B(B32),
    W(u64),
    D(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MRc {
    pub kind: usize,
    pub f: Vec<F>,
}
impl MRc {
    pub fn pos(&self, n: &str) -> Option<usize> {
        TABLE[self.kind].1.iter().position(|(m, _)| *m == n)
    }
    pub fn b(&self, n: &str) -> Option<B32> {
        self.pos(n).map(|i| if let F::B(b) = &self.f[i] { *b } else { unreachable!() })
    }
    pub fn w(&self, n: &str) -> Option<u64> {
        self.pos(n).map(|i| if let F::W(b) = &self.f[i] { *b } else { unreachable!() })
    }
    pub fn d(&self, n: &str) -> Option<Vec<u8>> {
        self.pos(n).map(|i| if let F::D(b) = &self.f[i] { b.clone() } else { unreachable!() })
    }
}
/// Reasons and instructions that the word form can carry.
pub fn panic_words() -> Vec<u64> {
    let mut v = vec![];
    for r in 0..=0xffu64 {
        for ins in [0u64, 0x1041_0040, 0x24_00_00_00, 0x47_00_00_00, 0xffff_ffff, 0x5004_0ffe] {
            let w = (r << 56) | (ins << 24);
            let ir = InstructionResult::from(w);
            let w2 = u64::from(ir);
            if InstructionResult::from(w2) == ir && !v.contains(&w2) {
                v.push(w2);
            }
        }
    }
    v
}
pub fn def_rc(kind: usize, n: usize) -> MRc {
    let f = TABLE[kind]
        .1
        .iter()
        .enumerate()
        .map(|(i, (name, t))| match t {
            B => F::B(pat(0x20 + i as u8, kind)),
            W if *name == "reason" => F::W(0x0b << 56),
            W if *name == "result" => F::W(2),
            W => F::W(word(0x60 + i as u8, kind)),
            D => F::D(bytes(0x70 + kind as u8, n)),
        })
        .collect();
    MRc { kind, f }
}
pub fn enc_rc(r: &MRc) -> Vec<u8> {
    let mut v = (r.kind as u64).to_be_bytes().to_vec();
    for f in &r.f {
        match f {
            F::B(b) => v.extend_from_slice(b),
            F::W(w) => v.extend_from_slice(&w.to_be_bytes()),
            F::D(d) => {
                v.extend_from_slice(&(d.len() as u64).to_be_bytes());
                v.extend_from_slice(d);
                while v.len() % 8 != 0 {
                    v.push(0)
                }
            }
        }
    }
    v
}
fn result(w: u64) -> ScriptExecutionResult {
    match w {
        0 => ScriptExecutionResult::Success,
        1 => ScriptExecutionResult::Revert,
        2 => ScriptExecutionResult::Panic,
        w => ScriptExecutionResult::GenericFailure(w),
    }
}
pub fn r_rc(r: &MRc) -> Receipt {
    let c = |n: &str| cid(&r.b(n).unwrap());
    let a = |n: &str| addr(&r.b(n).unwrap());
    let w = |n: &str| r.w(n).unwrap();
    let s = |n: &str| asset(&r.b(n).unwrap());
    let h = |n: &str| b32(&r.b(n).unwrap());
    let d = |n: &str| r.d(n).unwrap();
    match r.kind {
        0 => Receipt::call(c("id"), c("to"), w("amount"), s("asset"), w("gas"), w("param1"), w("param2"), w("pc"), w("is")),
        1 => Receipt::ret(c("id"), w("val"), w("pc"), w("is")),
        2 => Receipt::return_data_with_len(c("id"), w("ptr"), w("len"), h("digest"), d("data"), w("pc"), w("is")),
        3 => Receipt::panic(c("id"), InstructionResult::from(w("reason")), w("pc"), w("is")),
        4 => Receipt::revert(c("id"), w("ra"), w("pc"), w("is")),
        5 => Receipt::log(c("id"), w("ra"), w("rb"), w("rc"), w("rd"), w("pc"), w("is")),
        6 => Receipt::log_data_with_len(c("id"), w("ra"), w("rb"), w("ptr"), w("len"), h("digest"), d("data"), w("pc"), w("is")),
        7 => Receipt::transfer(c("id"), c("to"), w("amount"), s("asset"), w("pc"), w("is")),
        8 => Receipt::transfer_out(c("id"), a("to_address"), w("amount"), s("asset"), w("pc"), w("is")),
        9 => Receipt::script_result(result(w("result")), w("gas_used")),
        _ => Receipt::message_out_with_len(MessageId::from(r.b("mid").unwrap()), a("sender"), a("recipient"), w("amount"), h("nonce"), w("len"), h("digest"), d("data")),
    }
}
/// Field-exact reading of a real receipt (pattern matching on the public enum).
pub fn m_rc(r: &Receipt) -> MRc {
    let (kind, f) = match r.clone() {
        Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => (0, vec![F::B(*id), F::B(*to), F::W(amount), F::B(*asset_id), F::W(gas), F::W(param1), F::W(param2), F::W(pc), F::W(is)]),
        Receipt::Return { id, val, pc, is } => (1, vec![F::B(*id), F::W(val), F::W(pc), F::W(is)]),
        Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => (2, vec![F::B(*id), F::W(ptr), F::W(len), F::B(*digest), F::D(data), F::W(pc), F::W(is)]),
        Receipt::Panic { id, reason, pc, is, .. } => (3, vec![F::B(*id), F::W(reason.into()), F::W(pc), F::W(is)]),
        Receipt::Revert { id, ra, pc, is } => (4, vec![F::B(*id), F::W(ra), F::W(pc), F::W(is)]),
        Receipt::Log { id, ra, rb, rc, rd, pc, is } => (5, vec![F::B(*id), F::W(ra), F::W(rb), F::W(rc), F::W(rd), F::W(pc), F::W(is)]),
        Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => {
            (6, vec![F::B(*id), F::W(ra), F::W(rb), F::W(ptr), F::W(len), F::B(*digest), F::D(data), F::W(pc), F::W(is)])
        }
        Receipt::Transfer { id, to, amount, asset_id, pc, is } => (7, vec![F::B(*id), F::B(*to), F::W(amount), F::B(*asset_id), F::W(pc), F::W(is)]),
        Receipt::TransferOut { id, to, amount, asset_id, pc, is } => (8, vec![F::B(*id), F::B(*to), F::W(amount), F::B(*asset_id), F::W(pc), F::W(is)]),
        Receipt::ScriptResult { result, gas_used } => (9, vec![F::W(result.into()), F::W(gas_used)]),
        Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => {
            (10, vec![F::B(*message_id), F::B(*sender), F::B(*recipient), F::W(amount), F::B(*nonce), F::W(len), F::B(*digest), F::D(data)])
        }
    };
    MRc { kind, f }
}
pub fn dev_rc(ch: &mut Ch, mut r: MRc, pw: &[u64]) -> MRc {
    let kind = r.kind;
    for (i, f) in r.f.iter_mut().enumerate() {
        let name = TABLE[kind].1[i].0;
        match f {
            F::B(b) => *b = dev_b32(ch, *b, Z),
            F::W(w) if name == "reason" => {
                let k = ch.pick(pw.len() + 1);
                if k > 0 {
                    *w = pw[k - 1]
                }
            }
            F::W(w) if name == "result" => *w = [2, 0, 1, 3, 4, 0xff, 0x1_0000_0000, 1 << 63, u64::MAX][ch.pick(9)],
            F::W(w) => *w = dev_word(ch, *w),
            F::D(d) => *d = dev_vec(ch, std::mem::take(d), 0x77),
        }
    }
    r
}

#[cfg(feature = "full")]
pub fn c04(ch: &mut Ch, m: &MRc, short_buffers: bool) -> R {
    let name = TABLE[m.kind].0;
    let r = r_rc(m);
    let want = enc_rc(m);
    ensure!(m_rc(&r) == *m, "{name}: constructor changed the fields of {m:?}: {r:?}");
    let mut w = r.clone();
    let b = w.to_bytes();
    ensure!(w == r, "{name}: encoding changed the receipt");
    ensure_eq!(b.len(), r.serialized_size(), "{name}: encoded length vs advertised size");
    ensure!(b.len() >= want.len() && b[..want.len()] == want[..], "{name}: encoding differs from the layout at byte {:?}: {m:?}", b.iter().zip(&want).position(|(a, b)| a != b));
    ensure!(m.kind == 9 || m.kind == 10 || b.len() == want.len(), "{name}: encoding has {} bytes, layout {}", b.len(), want.len());
    ensure!(b[want.len()..].iter().all(|x| *x == 0), "{name}: unused bytes are not zero");
    for (extra, fill) in [(0usize, 0xffu8), (0, 0x55), (11, 0xff), (8, 0)] {
        let mut buf = vec![fill; b.len() + extra];
        let n = w.read(&mut buf).map_err(|e| format!("{name}: refused a sufficient buffer: {e}"))?;
        ensure_eq!(n, b.len(), "{name}: bytes written");
        ensure!(buf[..n] == b[..], "{name}: the bytes returned depend on the buffer's old content: {m:?}");
        ensure!(buf[n..].iter().all(|x| *x == fill), "{name}: wrote beyond the advertised size");
        ch.step(1);
    }
    if short_buffers {
        for l in 0..b.len() {
            let mut buf = vec![0x5a; l];
            ensure!(w.read(&mut buf).is_err(), "{name}: accepted a buffer of {l} < {} bytes", b.len());
            ch.step(1);
        }
        for l in 0..b.len() {
            ensure!(Receipt::from_bytes(&b[..l]).is_err(), "{name}: decoded from a prefix of {l} of {} bytes", b.len());
            ch.step(1);
        }
    }
    let d = Receipt::from_bytes(&b).map_err(|e| format!("{name}: own encoding rejected: {e}"))?;
    ensure!(d == r && m_rc(&d) == *m, "{name}: round trip changed {r:?} into {d:?}");
    ensure!(std_hash(&d) == std_hash(&r), "{name}: hash of equal receipts differs");
    let mut dst = r_rc(&def_rc((m.kind + 3) % 11, 9));
    let mut long = b.clone();
    long.extend_from_slice(&[0xee; 40]);
    let n = dst.write(&long).map_err(|e| format!("{name}: trailing bytes rejected: {e}"))?;
    ensure_eq!(n, b.len(), "{name}: bytes consumed");
    ensure!(dst == r, "{name}: trailing bytes changed the result");
    ch.step(6);
    accessors(m, &r)?;
    accessors(m, &d)?;
    ch.outcome(name);
    ch.traced();
    ch.sample(|| format!("{m:?}"));
    Ok(())
}
pub fn accessors(m: &MRc, r: &Receipt) -> R {
    macro_rules! same {
        ($n:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("accessor {} of {:?}: got {:?}, expected {:?}", $n, r, g, w).into());
            }
        }};
    }
    same!("id", r.id().map(|x| **x), m.b("id"));
    same!("pc", r.pc(), m.w("pc"));
    same!("is", r.is(), m.w("is"));
    same!("to", r.to().map(|x| **x), m.b("to"));
    same!("to_address", r.to_address().map(|x| **x), m.b("to_address"));
    same!("amount", r.amount(), m.w("amount"));
    same!("asset_id", r.asset_id().map(|x| **x), m.b("asset"));
    same!("gas", r.gas(), m.w("gas"));
    same!("param1", r.param1(), m.w("param1"));
    same!("param2", r.param2(), m.w("param2"));
    same!("val", r.val(), m.w("val"));
    same!("ptr", r.ptr(), m.w("ptr"));
    same!("len", r.len(), m.w("len"));
    same!("is_empty", r.is_empty(), m.w("len").map(|l| l == 0));
    same!("digest", r.digest().map(|x| **x), m.b("digest"));
    same!("data", r.data().map(|x| x.to_vec()), m.d("data"));
    same!("reason", r.reason().map(u64::from), m.w("reason"));
    same!("ra", r.ra(), m.w("ra"));
    same!("rb", r.rb(), m.w("rb"));
    same!("rc", r.rc(), m.w("rc"));
    same!("rd", r.rd(), m.w("rd"));
    same!("result", r.result().map(|x| u64::from(*x)), m.w("result"));
    same!("gas_used", r.gas_used(), m.w("gas_used"));
    same!("message_id", r.message_id().map(|x| **x), m.b("mid"));
    same!("sender", r.sender().map(|x| **x), m.b("sender"));
    same!("recipient", r.recipient().map(|x| **x), m.b("recipient"));
    same!("nonce", r.nonce().map(|x| **x), m.b("nonce"));
    same!("contract_id", r.contract_id().map(|x| **x), None);
    // only a panic carries a contract id
    let c = pat(0x99, 1);
    let with = r.clone().with_panic_contract_id(Some(cid(&c)));
    same!("contract_id set", with.contract_id().map(|x| **x), if m.kind == 3 { Some(c) } else { None });
    ensure!(m_rc(&with) == *m, "with_panic_contract_id changed another field of {r:?}: {with:?}");
    let without = with.with_panic_contract_id(None);
    same!("contract_id reset", without.contract_id().map(|x| **x), None);
    Ok(())
}
/// What can be said without the std feature: construction, advertised size, accessors, equality.
pub fn reduced(ch: &mut Ch, m: &MRc) -> R {
    let r = r_rc(m);
    let name = TABLE[m.kind].0;
    ensure!(m_rc(&r) == *m, "{name}: constructor changed the fields of {m:?}: {r:?}");
    let want = enc_rc(m).len() + if m.kind >= 9 { 48 } else { 0 };
    ensure_eq!(r.serialized_size(), want, "{name}: advertised size of {m:?}");
    let c = r.clone();
    ensure!(c == r && std_hash(&c) == std_hash(&r), "{name}: a copy differs");
    accessors(m, &r)?;
    ch.step(3);
    ch.outcome(name);
    ch.traced();
    ch.sample(|| format!("{m:?}"));
    Ok(())
}
/// Constructors that compute the length word.
pub fn c04_ctor(ch: &mut Ch, n: usize) -> R {
    let pl = ((n + 7) / 8 * 8) as u64;
    for kind in [2usize, 6, 10] {
        let mut m = def_rc(kind, n);
        let i = m.pos("len").unwrap();
        m.f[i] = F::W(pl);
        let g = |k: &str| m.b(k).unwrap();
        let w = |k: &str| m.w(k).unwrap();
        let d = m.d("data").unwrap();
        let r = match kind {
            2 => Receipt::return_data(cid(&g("id")), w("ptr"), b32(&g("digest")), d, w("pc"), w("is")),
            6 => Receipt::log_data(cid(&g("id")), w("ra"), w("rb"), w("ptr"), b32(&g("digest")), d, w("pc"), w("is")),
            _ => Receipt::message_out(MessageId::from(g("mid")), addr(&g("sender")), addr(&g("recipient")), w("amount"), b32(&g("nonce")), b32(&g("digest")), d),
        };
        ensure!(m_rc(&r) == m, "constructor of {} with {n} data bytes: {r:?}, expected {m:?}", TABLE[kind].0);
        #[cfg(feature = "full")]
        c04(ch, &m, false)?;
        #[cfg(not(feature = "full"))]
        reduced(ch, &m)?;
    }
    Ok(())
}
pub fn c19_rc(ch: &mut Ch, m: &MRc) -> R {
    let r = r_rc(m);
    let (a, c) = serde_rt(ch, "Receipt", &r)?;
    ensure!(m_rc(&a) == *m && m_rc(&c) == *m, "receipt fields changed by serde: {m:?}");
    if m.kind == 3 {
        let r = r.with_panic_contract_id(Some(cid(&pat(0x98, 1))));
        let (a, c) = serde_rt(ch, "Receipt", &r)?;
        ensure!(a.contract_id() == r.contract_id() && c.contract_id() == r.contract_id(), "panic contract id lost by serde");
    }
    ch.traced();
    Ok(())
}
pub fn rc_spaces(th: bool, d: u32, f: impl Fn(&mut Ch, &MRc) -> R + Send + Sync + Clone + 'static) -> Vec<Space> {
    let mut v = vec![];
    let (g, pw) = (f.clone(), panic_words());
    v.push(space("receipt-fields", d, &format!("every receipt kind, every combination of <= {d} field deviations over boundary alphabets, {} panic words", pw.len()), move |ch| {
        let kind = ch.free(RC_KINDS);
        let m = dev_rc(ch, def_rc(kind, 13), &pw);
        ch.state(&m);
        g(ch, &m)
    }));
    let g = f;
    let hi = if th { 4200 } else { 300 };
    v.push(space("receipt-data-lengths", 0, &format!("data-bearing kinds, data length 0..={hi} and {BIG:?} x 3 fillings"), move |ch| {
        let kind = ch.of(&[2usize, 6, 10]);
        let i = ch.free(hi + 1 + BIG.len());
        let n = if i <= hi { i } else { BIG[i - hi - 1] };
        let mut m = def_rc(kind, 0);
        let p = m.pos("data").unwrap();
        m.f[p] = F::D(match ch.free(3) {
            0 => bytes(3, n),
            1 => vec![0; n],
            _ => vec![0xff; n],
        });
        ch.state(&m);
        g(ch, &m)
    }));
    v
}
#[cfg(feature = "full")]
pub fn c04_spaces(th: bool) -> Vec<Space> {
    let mut v = rc_spaces(th, if th { 3 } else { 2 }, |ch, m| c04(ch, m, false));
    v.push(space("receipt-buffers", 0, "every kind x data length 0..=40: every shorter buffer and every prefix", |ch| {
        let kind = ch.free(RC_KINDS);
        let n = ch.free(if TABLE[kind].1.iter().any(|x| x.1 == D) { 41 } else { 1 });
        let m = def_rc(kind, n);
        ch.state(&m);
        c04(ch, &m, true)
    }));
    v.push(space("receipt-constructors", 0, "constructors computing the length word, data length 0..=600", |ch| {
        let n = ch.free(601);
        ch.state(&n);
        c04_ctor(ch, n)
    }));
    v
}
