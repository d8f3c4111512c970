//! C01 round trip, C02 layout, C05 id, C06 cache transparency (per value), C07 offsets, C19 serde.
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
pub use crate::shared::*;
use crate::{ensure, ensure_eq};
use fuel_tx::{Cacheable, Input, Output, StorageSlot, Transaction, TxPointer, UniqueIdentifier, UtxoId};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::fmt::Debug;
use std::io::{Read, Write};


pub trait Wire: Clone + PartialEq + Debug + SizedBytes + Read + Write + Deserializable {}
impl<T: Clone + PartialEq + Debug + SizedBytes + Read + Write + Deserializable> Wire for T {}


/// Round trip of one value: size, equality, consumption, independence from trailing bytes and from
/// the destination's previous content.
pub fn round_trip<T: Wire>(name: &str, v: &T, back: &T, dirty: &T) -> R {
    let mut w = v.clone();
    let b = w.to_bytes();
    ensure!(&w == v, "{name}: encoding changed the value {}", short(v));
    ensure_eq!(b.len(), v.serialized_size(), "{name}: encoded length vs advertised size of {}", short(v));
    let mut big = vec![0xeeu8; b.len() + 24];
    let n = w.read(&mut big).map_err(|e| format!("{name}: encoding into a larger buffer failed: {e}"))?;
    ensure_eq!(n, b.len(), "{name}: bytes reported as written");
    ensure!(big[..n] == b[..], "{name}: encoding depends on the buffer's previous content or size: {}", short(v));
    let d = T::from_bytes(&b).map_err(|e| format!("{name}: decoding its own encoding failed: {e}: {}", short(v)))?;
    ensure!(&d == back, "{name}: round trip changed the value: {} -> {}", short(v), short(&d));
    let mut dst = dirty.clone();
    let n = dst.write(&big).map_err(|e| format!("{name}: decoding with trailing bytes failed: {e}: {}", short(v)))?;
    ensure_eq!(n, b.len(), "{name}: bytes consumed decoding {}", short(v));
    ensure!(&dst == back, "{name}: trailing bytes or the destination's old content changed the decoded value of {}: {}", short(v), short(&dst));
    let mut dst2 = dirty.clone();
    let n = dst2.write(&b).map_err(|e| format!("{name}: decoding failed: {e}"))?;
    ensure_eq!(n, b.len(), "{name}: bytes consumed");
    ensure!(&dst2 == back, "{name}: decoding into an existing value");
    // a second generation is stable
    let mut d2 = d;
    let b2 = d2.to_bytes();
    let d3 = T::from_bytes(&b2).map_err(|e| format!("{name}: second decode failed {e}"))?;
    ensure!(&d3 == back, "{name}: second generation differs");
    Ok(())
}

pub fn c01_tx(ch: &mut Ch, t: &MTx) -> R {
    let tx = r_tx(t);
    let w = wire_tx(t);
    let back = r_tx(&w);
    let dirty = r_tx(&rich(if t.kind == Kind::Create { Kind::Script } else { Kind::Create }));
    ch.sample(|| format!("{t:?}"));
    round_trip("Transaction", &tx, &back, &dirty)?;
    let mut tt = tx.clone();
    let b = tt.to_bytes();
    let (n, d) = Transaction::try_from_bytes(&b).map_err(|e| format!("try_from_bytes: {e}"))?;
    ensure_eq!(n, b.len(), "try_from_bytes consumed");
    ensure!(m_tx(&d) == w, "decoded fields differ: {} expected {}", short(&d), short(&back));
    match (tx, back) {
        (Transaction::Script(v), Transaction::Script(k)) => {
            ensure_eq!(v.serialized_size(), b.len(), "script size vs transaction size");
            round_trip("Script", &v, &k, &r_script(&rich(Kind::Script)))?
        }
        (Transaction::Create(v), Transaction::Create(k)) => {
            ensure_eq!(v.serialized_size(), b.len(), "create size vs transaction size");
            round_trip("Create", &v, &k, &r_create(&rich(Kind::Create)))?
        }
        (Transaction::Mint(v), Transaction::Mint(k)) => {
            ensure_eq!(v.serialized_size(), b.len(), "mint size vs transaction size");
            round_trip("Mint", &v, &k, &r_mint(&rich(Kind::Mint)))?
        }
        _ => unreachable!(),
    }
    ch.step(12);
    ch.traced();
    ch.outcome(if w == *t { "identical" } else { "empty-predicate normal form" });
    Ok(())
}
pub fn c01_in(ch: &mut Ch, x: &MIn) -> R {
    let v = r_in(x);
    let w = wire_in(x);
    round_trip("Input", &v, &r_in(&w), &r_in(&def_in(4, 3, [3, 4, 5])))?;
    let mut vv = v.clone();
    let d = Input::from_bytes(&vv.to_bytes()).map_err(|e| e.to_string())?;
    ensure!(m_in(&d) == w, "input fields differ: {}", short(&d));
    ch.step(6);
    ch.traced();
    ch.sample(|| format!("{x:?}"));
    ch.outcome(if w == *x { "identical" } else { "empty-predicate normal form" });
    Ok(())
}
pub fn c01_out(ch: &mut Ch, x: &MOut) -> R {
    let v = r_out(x);
    round_trip("Output", &v, &v, &r_out(&def_out(1, 3)))?;
    let mut vv = v;
    let d = Output::from_bytes(&vv.to_bytes()).map_err(|e| e.to_string())?;
    ensure!(m_out(&d) == *x, "output fields differ: {}", short(&d));
    ch.step(6);
    ch.traced();
    ch.sample(|| format!("{x:?}"));
    ch.outcome("identical");
    Ok(())
}

pub fn c01_elem(ch: &mut Ch, e: &Elem) -> R {
    match e {
        Elem::In(x) => c01_in(ch, x),
        Elem::Out(x) => c01_out(ch, x),
        Elem::Wit(w) => {
            let v = r_wit(w);
            round_trip("Witness", &v, &v, &r_wit(&[1, 2, 3]))?;
            ensure_eq!(v.as_ref().to_vec(), *w, "witness content");
            ch.step(6);
            ch.traced();
            Ok(())
        }
        Elem::Slot(k, v) => {
            let s = r_slot(&(*k, *v));
            round_trip("StorageSlot", &s, &s, &StorageSlot::default())?;
            let b64: fuel_tx::Bytes64 = (&s).into();
            let s2 = StorageSlot::from(&b64);
            ensure!(s2 == s && s2.key() == &b32(k) && s2.value() == &b32(v), "slot <-> 64 bytes conversion of {s:?}");
            ensure!(b64[..32] == k[..] && b64[32..] == v[..], "slot bytes {b64:?}");
            ch.step(6);
            ch.traced();
            Ok(())
        }
        Elem::Utxo(a, i) => {
            let u = r_utxo(&(*a, *i));
            round_trip("UtxoId", &u, &u, &UtxoId::default())?;
            ensure!(m_utxo(&u) == (*a, *i), "utxo id parts");
            let mut r = u;
            r.replace_tx_id(b32(&pat(9, 9)));
            ensure!(m_utxo(&r) == (pat(9, 9), *i), "replace_tx_id");
            ch.step(6);
            ch.traced();
            Ok(())
        }
        Elem::Ptr(h, i) => {
            let p = TxPointer::new(*h, *i);
            round_trip("TxPointer", &p, &p, &TxPointer::new(7, 7))?;
            ensure!(m_ptr(&p) == (*h, *i), "pointer parts");
            ch.step(6);
            ch.traced();
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------------ C02
/// Layout against the reference bytes and the caller-buffer contract.
pub fn layout<T: Wire>(ch: &mut Ch, name: &str, v: &T, want: &[u8], all_short: bool) -> R {
    let mut w = v.clone();
    let b = w.to_bytes();
    if b != want {
        let i = b.iter().zip(want).position(|(a, b)| a != b).unwrap_or(b.len().min(want.len()));
        return Err(format!("{name}: byte {i} of the encoding differs from the layout (lengths {} vs {}) for {}", b.len(), want.len(), short(v)).into());
    }
    ensure_eq!(v.serialized_size(), want.len(), "{name}: advertised size");
    ch.step(2);
    for extra in [0usize, 1, 8, 17] {
        for fill in [0u8, 0xff] {
            let mut buf = vec![fill; want.len() + extra];
            let n = w.read(&mut buf).map_err(|e| format!("{name}: refused a buffer of {} bytes: {e}", want.len() + extra))?;
            ensure_eq!(n, want.len(), "{name}: bytes written");
            ensure!(&buf[..n] == want, "{name}: encoding into a dirty buffer (fill {fill:#x}) differs: {}", short(v));
            ensure!(buf[n..].iter().all(|x| *x == fill), "{name}: wrote beyond the advertised size");
            ch.step(1);
        }
    }
    let mut sizes: Vec<usize> = if all_short { (0..want.len()).collect() } else { vec![0, 7, 8, want.len() / 2, want.len().saturating_sub(8), want.len() - 1] };
    sizes.retain(|s| *s < want.len());
    for s in sizes {
        let mut buf = vec![0xa5u8; s];
        ensure!(w.read(&mut buf).is_err(), "{name}: a buffer of {s} bytes was accepted for an encoding of {}", want.len());
        ch.step(1);
    }
    Ok(())
}
pub fn c02_tx_with(ch: &mut Ch, t: &MTx, all_short: bool) -> R {
    let want = enc_tx(t);
    let tx = r_tx(t);
    layout(ch, "Transaction", &tx, &want, all_short)?;
    match &tx {
        Transaction::Script(v) => layout(ch, "Script", v, &want, false)?,
        Transaction::Create(v) => layout(ch, "Create", v, &want, false)?,
        Transaction::Mint(v) => layout(ch, "Mint", v, &want, false)?,
    }
    // the specified bytes mean the value
    let d = Transaction::from_bytes(&want).map_err(|e| format!("specified encoding rejected: {e}: {}", short(t)))?;
    ensure!(m_tx(&d) == wire_tx(t), "specified encoding decodes to another value: {}", short(&d));
    ch.sample(|| format!("{} bytes: {t:?}", want.len()));
    ch.outcome(match want.len() {
        0..=255 => "<256 bytes",
        256..=1023 => "<1 KiB",
        1024..=65535 => "<64 KiB",
        _ => ">=64 KiB",
    });
    ch.traced();
    Ok(())
}
pub fn c02_tx(ch: &mut Ch, t: &MTx) -> R {
    c02_tx_with(ch, t, false)
}
pub fn c02_elem(ch: &mut Ch, e: &Elem) -> R {
    fn go<T: Wire>(ch: &mut Ch, n: &str, v: T, want: &[u8], back: Option<T>) -> R {
        layout(ch, n, &v, want, want.len() < 700)?;
        let d = T::from_bytes(want).map_err(|e| format!("{n}: specified encoding rejected: {e}"))?;
        ensure!(d == back.unwrap_or(v), "{n}: specified encoding decodes to {}", short(&d));
        ch.traced();
        Ok(())
    }
    match e {
        Elem::In(x) => go(ch, "Input", r_in(x), &enc_in(x).b, Some(r_in(&wire_in(x)))),
        Elem::Out(x) => go(ch, "Output", r_out(x), &enc_out(x).b, None),
        Elem::Wit(w) => go(ch, "Witness", r_wit(w), &enc_wit(w).b, None),
        Elem::Slot(k, v) => go(ch, "StorageSlot", r_slot(&(*k, *v)), &[*k, *v].concat(), None),
        Elem::Utxo(a, i) => go(ch, "UtxoId", r_utxo(&(*a, *i)), &[&a[..], &(*i as u64).to_be_bytes()].concat(), None),
        Elem::Ptr(h, i) => go(ch, "TxPointer", TxPointer::new(*h, *i), &[(*h as u64).to_be_bytes(), (*i as u64).to_be_bytes()].concat(), None),
    }
}

// ------------------------------------------------------------------------------------------ C05
pub fn c05_tx(ch: &mut Ch, t: &MTx) -> R {
    let want = b32(&model_id(t));
    let tx = r_tx(t);
    ensure_eq!(tx.id(), want, "id of {}", short(t));
    let mut cached = tx.clone();
    cached.precompute();
    ensure_eq!(cached.id(), want, "id after precompute of {}", short(t));
    match &tx {
        Transaction::Script(v) => ensure_eq!(v.id(), want, "script id"),
        Transaction::Create(v) => ensure_eq!(v.id(), want, "create id"),
        Transaction::Mint(v) => ensure_eq!(v.id(), want, "mint id"),
    }
    ch.step(4);
    ch.traced();
    ch.sample(|| format!("id {want:?} of {t:?}"));
    Ok(())
}
/// Relation between the id of a base and of a deviating transaction.
pub fn c05_pair(ch: &mut Ch, base: &MTx, base_id: &B32, t: &MTx) -> R {
    c05_tx(ch, t)?;
    let same_form = enc_tx(&sign_form(base)) == enc_tx(&sign_form(t));
    let id = r_tx(t).id();
    ensure!((*id == *base_id) == same_form, "id {} although the committed content {} between {} and {}", if *id == *base_id { "unchanged" } else { "changed" }, if same_form { "is the same" } else { "differs" }, short(base), short(t));
    ch.outcome(if base == t {
        "base"
    } else if same_form {
        "malleable change, same id"
    } else {
        "committed change, new id"
    });
    Ok(())
}

// ------------------------------------------------------------------------------------------ C06
/// Encoding into a buffer of any size gives the same outcome, count and buffer with and without a cache.
fn encode_alike<T: Wire>(fresh: &T, cached: &T) -> R {
    let (mut f, mut c) = (fresh.clone(), cached.clone());
    let n = f.serialized_size();
    let lens: &[usize] = if n < 20_000 { &[0, 8, n - 8, n - 1, n, n + 1, n + 8, n + 40] } else { &[n - 8, n + 8] };
    for &len in lens {
        let (mut bf, mut bc) = (vec![0xeeu8; len], vec![0xeeu8; len]);
        let (rf, rc) = (f.read(&mut bf), c.read(&mut bc));
        match (&rf, &rc) {
            (Ok(a), Ok(b)) => ensure!(a == b && *a == n, "encoding {n} bytes into {len} reported {a} without and {b} with a cache"),
            (Err(a), Err(b)) => ensure!(a.kind() == b.kind() && len < n, "encoding {n} bytes into {len} failed with {a} and {b}"),
            _ => return Err(format!("encoding {n} bytes into {len}: {rf:?} without and {rc:?} with a cache").into()),
        }
        ensure!(bf == bc, "encoding {n} bytes into {len} left another buffer with a cache");
    }
    // decoding over a cached value takes the same bytes
    let mut b = fresh.clone().to_bytes();
    b.extend([0xee; 16]);
    let (x, y) = (f.write(&b), c.write(&b));
    ensure!(matches!((&x, &y), (Ok(a), Ok(b)) if a == b && *a == n), "decoding in place consumed {x:?} without and {y:?} with a cache");
    ensure!(f == *fresh && c == f, "decoding in place over a cached value gave another value");
    Ok(())
}
pub fn cache_transparent(t: &MTx, fresh: &Transaction, cached: &Transaction) -> R {
    ensure!(cached.is_computed(), "not computed after precompute");
    ensure!(fresh == cached && cached == fresh, "equality depends on the cache: {}", short(t));
    ensure!(std_hash(fresh) == std_hash(cached), "hash depends on the cache: {}", short(t));
    let (mut f, mut c) = (fresh.clone(), cached.clone());
    let (bf, bc) = (f.to_bytes(), c.to_bytes());
    ensure!(bf == bc, "binary form depends on the cache: {}", short(t));
    ensure_eq!(cached.serialized_size(), fresh.serialized_size(), "size with cache");
    let (jf, jc) = (fresh.to_json(), cached.to_json());
    ensure!(jf == jc, "JSON depends on the cache");
    ensure_eq!(cached.id(), fresh.id(), "id with cache");
    offsets_equal(fresh, cached)?;
    let d = Transaction::from_bytes(&bc).map_err(|e| e.to_string())?;
    ensure!(!d.is_computed(), "a decoded transaction claims to have a cache");
    encode_alike(fresh, cached)?;
    match (fresh, cached) {
        (Transaction::Script(a), Transaction::Script(b)) => encode_alike(a, b)?,
        (Transaction::Create(a), Transaction::Create(b)) => encode_alike(a, b)?,
        (Transaction::Mint(a), Transaction::Mint(b)) => encode_alike(a, b)?,
        _ => return Err("precompute changed the kind".into()),
    }
    // decoding into a value that has a cache drops it
    let mut dst = cached.clone();
    let _ = dst.write(&bc).map_err(|e| e.to_string())?;
    ensure!(!dst.is_computed(), "decoding in place kept the destination's cache");
    match cached.clone() {
        Transaction::Script(mut s) => {
            let b = s.to_bytes();
            let _ = s.write(&b).map_err(|e| e.to_string())?;
            ensure!(!s.is_computed(), "decoding a script in place kept its cache");
        }
        Transaction::Create(mut s) => {
            let b = s.to_bytes();
            let _ = s.write(&b).map_err(|e| e.to_string())?;
            ensure!(!s.is_computed(), "decoding a create in place kept its cache");
        }
        Transaction::Mint(mut s) => {
            let b = s.to_bytes();
            let _ = s.write(&b).map_err(|e| e.to_string())?;
            ensure!(!s.is_computed(), "decoding a mint in place kept its cache");
        }
    }
    let j = Transaction::from_json(&jc).ok_or("own JSON rejected")?;
    ensure!(!j.is_computed(), "JSON carried a cache over");
    Ok(())
}

// ------------------------------------------------------------------------------------------ C07
pub fn c07_tx(ch: &mut Ch, t: &MTx) -> R {
    let e = enc_tx_spans(t);
    let span = spans(&e);
    let mut tx = r_tx(t);
    let real_bytes = tx.to_bytes();
    for cached in [false, true] {
        if cached {
            tx.precompute();
        }
        for (l, i, got) in all_offsets(&tx) {
            let want = offset_of(t, &span, l, i);
            ensure!(got == want, "offset of {l}[{i}] (cache: {cached}): got {got:?}, expected {want:?} in {}", short(t));
            ch.step(1);
            // the bytes found there in the real encoding are the named item
            if let (Some(o), false) = (got, l == "metered" || l == "in.pred.len" || cached) {
                let len = span[&(l, i)].1;
                ensure!(real_bytes.get(o..o + len) == Some(&e.b[o..o + len]), "bytes at the offset of {l}[{i}] are not that item in {}", short(t));
            }
        }
        ch.outcome(if cached { "cached" } else { "uncached" });
    }
    if t.ins.len() + t.outs.len() < 1000 {
        in_offsets(ch, t, &e)?;
    }
    ch.sample(|| format!("{:?}", e.spans));
    ch.traced();
    Ok(())
}
