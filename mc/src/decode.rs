//! C03: decoding arbitrary bytes.
use crate::alloc_guard::limited;
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::receipts::*;
use crate::{ensure, ensure_eq};
use fuel_tx::{Create, Input, Mint, Output, Receipt, Script, StorageSlot, Transaction, TxPointer, UtxoId, Witness};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::fmt::Debug;
use std::io::{Read, Write};

pub const NAMES: [&str; 11] = ["Transaction", "Script", "Create", "Mint", "Input", "Output", "Witness", "StorageSlot", "UtxoId", "TxPointer", "Receipt"];

/// Slack for small fixed-size buffers, plus a generous factor: a decoded element (about 200 bytes in
/// memory) can come from 8 bytes of input, and vectors double when they grow.
fn budget(len: usize) -> u64 {
    (1 << 20) + 512 * len as u64
}

fn one<T>(ch: &mut Ch, name: &str, b: &[u8], dirty: impl Fn() -> T) -> Result<Option<usize>, Fail>
where
    T: Clone + PartialEq + Debug + SizedBytes + Read + Write + Deserializable + SerializableVec,
{
    let mut dst = dirty();
    let r = limited(budget(b.len()), || dst.write(b));
    let f = limited(budget(b.len()), || T::from_bytes(b));
    ch.step(2);
    let n = match (r, f) {
        (Err(_), Err(_)) => return Ok(None),
        (Ok(_), Err(e)) | (Err(e), Ok(_)) => return Err(format!("{name}: decoding in place and from_bytes disagree ({e}) on {}", hex(b)).into()),
        (Ok(n), Ok(v)) => {
            ensure!(v == dst, "{name}: decoding in place and from_bytes give different values for {}", hex(b));
            n
        }
    };
    ensure!(n <= b.len(), "{name}: reported {n} bytes consumed of {} given: {}", b.len(), hex(b));
    let mut v = dst;
    let c = v.to_bytes();
    ensure_eq!(c.len(), v.serialized_size(), "{name}: size of a decoded value");
    let mut again = T::from_bytes(&c).map_err(|e| format!("{name}: canonical form of a decoded value is rejected ({e}); input {}", hex(b)))?;
    ensure!(again == v, "{name}: canonical form decodes to another value; input {}: {:?} vs {:?}", hex(b), v, again);
    ensure!(again.to_bytes() == c, "{name}: canonical form is not stable; input {}", hex(b));
    let mut dst = dirty();
    let m = dst.write(&c).map_err(|e| e.to_string())?;
    ensure_eq!(m, c.len(), "{name}: bytes consumed of a canonical form");
    // the value does not depend on what follows the consumed bytes
    let w = T::from_bytes(&b[..n]).map_err(|e| format!("{name}: consumed {n} bytes of {} but rejects exactly those ({e}): {}", b.len(), hex(b)))?;
    ensure!(w == v, "{name}: value depends on bytes after the {n} consumed ones: {}", hex(b));
    ch.step(5);
    Ok(Some(n))
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
    if b.len() > 400 {
        s += &format!("...({} bytes)", b.len());
    }
    s
}
/// Decode `b` as target `t`.
pub fn decode(ch: &mut Ch, t: usize, b: &[u8]) -> Result<Option<usize>, Fail> {
    match t {
        0 => {
            let r = one(ch, NAMES[0], b, || r_tx(&rich_small(Kind::Create)))?;
            let q = limited(budget(b.len()), || Transaction::try_from_bytes(b));
            match (q, r) {
                (Ok((n, _)), Some(m)) => ensure_eq!(n, m, "try_from_bytes: consumed"),
                (Err(_), None) => {}
                _ => return Err(format!("try_from_bytes and from_bytes disagree on {}", hex(b)).into()),
            }
            // the specific kinds agree with the generic one
            let k = [one(ch, NAMES[1], b, || r_script(&rich_small(Kind::Script)))?, one(ch, NAMES[2], b, || r_create(&rich_small(Kind::Create)))?, one(ch, NAMES[3], b, || r_mint(&rich_small(Kind::Mint)))?];
            let yes: Vec<usize> = k.iter().flatten().copied().collect();
            match r {
                Some(n) => ensure!(yes == [n], "Transaction consumed {n}, specific kinds {k:?}: {}", hex(b)),
                None => ensure!(yes.is_empty(), "Transaction rejects what a specific kind accepts: {k:?}: {}", hex(b)),
            }
            Ok(r)
        }
        1 => one(ch, NAMES[1], b, || r_script(&rich_small(Kind::Script))),
        2 => one(ch, NAMES[2], b, || r_create(&rich_small(Kind::Create))),
        3 => one(ch, NAMES[3], b, || r_mint(&rich_small(Kind::Mint))),
        4 => one::<Input>(ch, NAMES[4], b, || r_in(&def_in(4, 1, [3, 4, 5]))),
        5 => one::<Output>(ch, NAMES[5], b, || r_out(&def_out(1, 1))),
        6 => one::<Witness>(ch, NAMES[6], b, || r_wit(&[1, 2, 3])),
        7 => one(ch, NAMES[7], b, || StorageSlot::default()),
        8 => one(ch, NAMES[8], b, || UtxoId::new(b32(&pat(1, 1)), 7)),
        9 => one(ch, NAMES[9], b, || TxPointer::new(7, 7)),
        _ => receipt(ch, b),
    }
}
fn receipt(ch: &mut Ch, b: &[u8]) -> Result<Option<usize>, Fail> {
    one::<RcWrap>(ch, NAMES[10], b, || RcWrap(r_rc(&def_rc(10, 5))))
}
/// Receipt has no Default; same byte interface through a thin wrapper. A panic's instruction is
/// compared by its word form: fuel-asm's decomposed `Instruction` keeps bits of an undefined opcode
/// that its own word form drops, which is not this crate's doing.
#[derive(Clone, Debug)]
struct RcWrap(Receipt);
impl PartialEq for RcWrap {
    fn eq(&self, o: &RcWrap) -> bool {
        m_rc(&self.0) == m_rc(&o.0)
    }
}
impl SizedBytes for RcWrap {
    fn serialized_size(&self) -> usize {
        self.0.serialized_size()
    }
}
impl Read for RcWrap {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl Write for RcWrap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
impl Default for RcWrap {
    fn default() -> Self {
        RcWrap(r_rc(&def_rc(1, 0)))
    }
}
fn rich_small(kind: Kind) -> MTx {
    let mut t = def_head(kind);
    t.outs = vec![def_out(0, 0)];
    if kind != Kind::Mint {
        t.wit = vec![vec![1, 2]];
    }
    t
}
#[allow(unused)]
fn _t(_: Script, _: Create, _: Mint) {}

/// A canonical encoding: target, bytes, offsets of identifier words with the number of valid identifiers.
pub struct Doc {
    pub t: usize,
    pub what: String,
    pub b: Vec<u8>,
    pub tags: Vec<(usize, u64)>,
}
fn tags_of(e: &Enc) -> Vec<(usize, u64)> {
    e.spans
        .iter()
        .filter_map(|s| match s.0 {
            "tag" | "in.tag" => Some((s.2, 3)),
            "out.tag" => Some((s.2, 6)),
            _ => None,
        })
        .collect()
}
pub fn docs() -> Vec<Doc> {
    let mut v = vec![];
    for k in 0..IN_KINDS {
        for l in [[0, 1, 0], [5, 8, 3]] {
            let e = enc_in(&def_in(k, 1, l));
            v.push(Doc { t: 4, what: format!("input {k} {l:?}"), tags: tags_of(&e), b: e.b });
        }
    }
    for k in 0..OUT_KINDS {
        let e = enc_out(&def_out(k, 1));
        v.push(Doc { t: 5, what: format!("output {k}"), tags: tags_of(&e), b: e.b });
    }
    for n in [0, 1, 8, 13] {
        v.push(Doc { t: 6, what: format!("witness {n}"), tags: vec![], b: enc_wit(&bytes(3, n)).b });
    }
    v.push(Doc { t: 7, what: "slot".into(), tags: vec![], b: [pat(1, 1), pat(2, 2)].concat() });
    v.push(Doc { t: 8, what: "utxo id".into(), tags: vec![], b: [pat(1, 1).to_vec(), 9u64.to_be_bytes().to_vec()].concat() });
    v.push(Doc { t: 9, what: "pointer".into(), tags: vec![], b: [9u64.to_be_bytes(), 8u64.to_be_bytes()].concat() });
    for k in 0..RC_KINDS {
        for n in if TABLE[k].1.iter().any(|x| x.1 == T::D) { vec![0usize, 5, 16] } else { vec![0] } {
            let mut b = enc_rc(&def_rc(k, n));
            if k >= 9 {
                let mut r = r_rc(&def_rc(k, n));
                b.resize(r.to_bytes().len().max(b.len()), 0);
            }
            v.push(Doc { t: 10, what: format!("receipt {} {n}", TABLE[k].0), tags: vec![(0, 11)], b });
        }
    }
    for t in tx_docs() {
        let e = enc_tx_spans(&t);
        v.push(Doc { t: 0, what: format!("{:?} with {} inputs {} outputs {} witnesses", t.kind, t.ins.len(), t.outs.len(), t.wit.len()), tags: tags_of(&e), b: e.b });
    }
    v
}
fn tx_docs() -> Vec<MTx> {
    let mut v = vec![];
    for kind in KINDS {
        let mut t = def_head(kind);
        t.script.truncate(3);
        t.sdata.truncate(9);
        t.slots.truncate(1);
        v.push({
            let mut t = t.clone();
            t.script.clear();
            t.sdata.clear();
            t.slots.clear();
            t
        });
        t.outs = vec![def_out(2, 0), def_out(1, 1)];
        if kind != Kind::Mint {
            t.ins = vec![def_in(1, 0, [0, 3, 1]), def_in(3, 1, [4, 0, 0])];
            t.wit = vec![bytes(1, 3), vec![]];
        }
        v.push(t.clone());
        v.push(rich(kind));
    }
    v
}
pub fn alphabet(len: usize) -> Vec<u64> {
    let l = len as u64;
    let mut v = vec![0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 63, 64, 65, 0xff, 0x100, 0x101, 0xffff, 0x1_0000, 0xffff_ffff, 0x1_0000_0000, 1 << 56, (1 << 63) - 1, 1 << 63, (1 << 63) + 1];
    v.extend((0..10).map(|k| u64::MAX - k));
    v.extend([u64::MAX / 8, u64::MAX / 64, u64::MAX / 64 + 1, u64::MAX / 2 - 7, (1 << 61), (1 << 58), (1 << 57) + 1, isize::MAX as u64 - 7]);
    for d in [1u64, 7, 8, 9, 16] {
        v.push(l + d);
        v.push(l.saturating_sub(d));
    }
    v.push(l);
    v.sort();
    v.dedup();
    v
}

fn finish(ch: &mut Ch, d: &Doc, b: &[u8], bad_tag: bool) -> R {
    let r = decode(ch, d.t, b)?;
    ensure!(!(bad_tag && r.is_some()), "{}: an unknown kind identifier was accepted: {}", NAMES[d.t], hex(b));
    ch.outcome(match r {
        None => "rejected",
        Some(n) if n == b.len() => "decoded, all bytes",
        Some(_) => "decoded, some bytes left",
    });
    ch.traced();
    ch.sample(|| format!("{} <- {} ({:?})", d.what, hex(b), r));
    Ok(())
}

pub fn spaces(th: bool) -> Vec<Space> {
    use std::sync::Arc;
    let all: Arc<Vec<Doc>> = Arc::new(docs());
    let mut v = vec![];
    let a = all.clone();
    v.push(space("truncations", 0, &format!("{} canonical encodings of every kind: every strict prefix is rejected; the whole is accepted with 0..=16 trailing bytes", a.len()), move |ch| {
        let d = &a[ch.free(a.len())];
        let l = ch.free(d.b.len() + 17);
        ch.state(&(d.what.as_str(), l));
        let mut b = d.b.clone();
        b.resize(l, 0xa5);
        let r = decode(ch, d.t, &b)?;
        if l < d.b.len() {
            ensure!(r.is_none(), "{}: accepted a prefix of {l} of {} bytes", d.what, d.b.len());
            ch.outcome("prefix rejected");
        } else {
            ensure!(r == Some(d.b.len()), "{}: canonical encoding with {} trailing bytes: {r:?}", d.what, l - d.b.len());
            ch.outcome("whole accepted");
        }
        ch.traced();
        Ok(())
    }));
    // word forgeries, with and without truncation
    let a = all.clone();
    v.push(space(
        "forged-words",
        if th { 2 } else { 1 },
        &format!("every canonical encoding with up to {} 8-byte words replaced by boundary numbers (tags, lengths, counts, overflow frontiers)", if th { 2 } else { 1 }),
        move |ch| {
            let d = &a[ch.free(a.len())];
            let al = alphabet(d.b.len());
            let mut b = d.b.clone();
            let mut bad = false;
            for w in 0..b.len() / 8 {
                let i = ch.pick(al.len() + 1);
                if i > 0 {
                    b[w * 8..w * 8 + 8].copy_from_slice(&al[i - 1].to_be_bytes());
                    // an identifier only has to be seen when nothing before it moved
                    if ch.trace.iter().filter(|t| !t.2 && t.0 != 0).count() == 1 {
                        bad = d.tags.iter().any(|(p, n)| *p == w * 8 && al[i - 1] >= *n);
                    }
                }
            }
            if ch.trace.iter().filter(|t| !t.2 && t.0 != 0).count() > 1 {
                bad = false;
            }
            ch.state(&b);
            finish(ch, d, &b, bad)
        },
    ));
    let a = all.clone();
    v.push(space("forged-pairs", 0, "every encoding up to 400 bytes: every pair of words replaced by a short list of boundary numbers", move |ch| {
        let small: Vec<&Doc> = a.iter().filter(|d| d.b.len() <= 400 && d.b.len() >= 16).collect();
        let d = small[ch.free(small.len())];
        let l = d.b.len() as u64;
        let al = [0u64, 1, 2, 3, 8, 9, 0x1_0000, 1 << 63, u64::MAX - 7, u64::MAX, l];
        let n = d.b.len() / 8;
        let i = ch.free(n - 1);
        let j = i + 1 + ch.free(n - 1 - i);
        let mut b = d.b.clone();
        for p in [i, j] {
            let x = ch.of(&al);
            b[p * 8..p * 8 + 8].copy_from_slice(&x.to_be_bytes());
        }
        ch.state(&b);
        finish(ch, d, &b, false)
    }));
    let a = all.clone();
    v.push(space("forged-then-cut", 0, "every canonical encoding, one word replaced, then cut at every word boundary and one byte before and after it", move |ch| {
        let d = &a[ch.free(a.len())];
        if d.b.len() > 700 && !th {
            return Ok(());
        }
        let l = d.b.len() as u64;
        let al = [0u64, 1, 2, 7, 8, 9, 16, 0x100, 0x1_0000, u64::MAX, l];
        let w = ch.free(d.b.len() / 8);
        let x = ch.of(&al);
        let cut = ch.free(d.b.len() / 8 + 1) * 8;
        let off = ch.free(3);
        let mut b = d.b.clone();
        b[w * 8..w * 8 + 8].copy_from_slice(&x.to_be_bytes());
        let cut = (cut + off).saturating_sub(1).min(b.len());
        b.truncate(cut);
        ch.state(&b);
        finish(ch, d, &b, false)
    }));
    let a = all.clone();
    v.push(space("byte-edits", 0, "every canonical encoding: every byte replaced by several values, deleted, or doubled", move |ch| {
        let d = &a[ch.free(a.len())];
        let i = ch.free(d.b.len());
        let mut b = d.b.clone();
        match ch.free(11) {
            0 => b[i] ^= 0x01,
            1 => b[i] ^= 0x80,
            2 => b[i] = 0,
            3 => b[i] = 0xff,
            4 => b[i] = b[i].wrapping_add(1),
            5 => b[i] = b[i].wrapping_sub(1),
            6 => b[i] = 0x7f,
            7 => b[i] = 2,
            8 => b[i] = 3,
            9 => {
                b.remove(i);
            }
            _ => {
                let x = b[i];
                b.insert(i, x);
            }
        }
        ch.state(&b);
        finish(ch, d, &b, false)
    }));
    let n = if th { 8 } else { 6 };
    v.push(space("word-strings", 0, &format!("all strings of <= {n} words over an 7-value alphabet, each with 0..=7 stray bytes, as every type"), move |ch| {
        let al = [0u64, 1, 2, 3, 8, 0x1_0000, u64::MAX];
        let k = ch.free(n + 1);
        let mut b = vec![];
        for _ in 0..k {
            b.extend_from_slice(&ch.of(&al).to_be_bytes());
        }
        let e = if k == n { 0 } else { ch.of(&[0usize, 1, 4, 7]) };
        b.extend(std::iter::repeat(3u8).take(e));
        ch.state(&b);
        let mut ok = 0;
        for t in 0..NAMES.len() {
            if (1..=3).contains(&t) {
                continue; // covered by Transaction
            }
            if decode(ch, t, &b)?.is_some() {
                ok += 1
            }
        }
        ch.outcome(&format!("{ok} types accept"));
        ch.traced();
        Ok(())
    }));
    // headers of each kind followed by counts that promise more than there is
    v.push(space("forged-headers", 0, "a transaction header with every combination of counts and lengths from an overflow alphabet, followed by 0..=4 elements' worth of bytes", |ch| {
        let al = [0u64, 1, 2, 0x1_0000, 1 << 32, (1 << 58) + 1, 1 << 63, u64::MAX];
        let kind = ch.free(3);
        let mut b = (kind as u64).to_be_bytes().to_vec();
        let (plain, counts) = [(3, 5), (5, 4), (2, 1)][kind];
        for _ in 0..plain {
            b.extend_from_slice(&1u64.to_be_bytes());
        }
        for _ in 0..counts {
            b.extend_from_slice(&ch.of(&al).to_be_bytes());
        }
        if kind != 2 {
            b.extend_from_slice(&pat(9, 9));
        }
        let tail = ch.free(4);
        b.extend(std::iter::repeat(0u8).take([0usize, 8, 64, 300][tail]));
        ch.state(&b);
        let r = decode(ch, 0, &b)?;
        ch.outcome(if r.is_some() { "decoded" } else { "rejected" });
        ch.traced();
        Ok(())
    }));
    v
}
