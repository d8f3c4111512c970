//! C16 contract ids, code roots, state roots; C24 message ids, nonces and digests. Independent RFC 6962
//! binary Merkle and sparse Merkle implementations.
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use fuel_tx::field::*;
use fuel_tx::{Bytes32, CheckError, Contract, Input, MessageId, Output, Receipt, Salt as RSalt, StorageSlot, Transaction};
#[cfg(feature = "full")]
use fuel_tx::{Cacheable, UniqueIdentifier};

// ------------------------------------------------------------------------------------ Merkle models
fn mth(leaves: &[[u8; 8]]) -> B32 {
    match leaves.len() {
        0 => sha(&[]),
        1 => sha(&[&[0], &leaves[0]]),
        n => {
            let mut k = 1;
            while k * 2 < n {
                k *= 2;
            }
            sha(&[&[1], &mth(&leaves[..k]), &mth(&leaves[k..])])
        }
    }
}
pub fn code_root(code: &[u8]) -> B32 {
    let leaves: Vec<[u8; 8]> = code
        .chunks(8)
        .map(|c| {
            let mut l = [0u8; 8];
            l[..c.len()].copy_from_slice(c);
            l
        })
        .collect();
    mth(&leaves)
}
fn bit(k: &B32, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
fn smt(slots: &[(B32, B32)], depth: usize) -> B32 {
    match slots.len() {
        0 => Z,
        1 => sha(&[&[0], &slots[0].0, &sha(&[&slots[0].1])]),
        _ => {
            let (l, r): (Vec<_>, Vec<_>) = slots.iter().partition(|s| !bit(&s.0, depth));
            sha(&[&[1], &smt(&l, depth + 1), &smt(&r, depth + 1)])
        }
    }
}
/// Slots with distinct keys, any order.
pub fn state_root(slots: &[(B32, B32)]) -> B32 {
    smt(slots, 0)
}
pub fn contract_id(salt: &B32, root: &B32, st: &B32) -> B32 {
    sha(&[&[0x46, 0x55, 0x45, 0x4C], salt, root, st])
}

// -------------------------------------------------------------------------------------------- C16
fn c16_code(ch: &mut Ch, code: &[u8]) -> R {
    let want = code_root(code);
    let got = Contract::root_from_code(code);
    ensure_eq!(*got, want, "code root of {} bytes", code.len());
    let c = Contract::from(code);
    ensure_eq!(*c.root(), want, "Contract::root of {} bytes", code.len());
    ensure_eq!(c.as_ref(), code, "contract bytes");
    ensure_eq!(Contract::from(code.to_vec()), c, "contract from a vector");
    ensure_eq!(Contract::from(&mut code.to_vec()[..]), c, "contract from a mutable slice");
    ensure_eq!(Vec::<u8>::from(c), code.to_vec(), "vector from a contract");
    ensure_eq!(*Input::predicate_owner(code), want, "predicate owner of {} bytes", code.len());
    #[cfg(feature = "full")]
    owner(code, want)?;
    ch.step(8);
    ch.traced();
    ch.outcome("code root");
    ch.sample(|| format!("{} bytes -> {:02x?}", code.len(), want));
    Ok(())
}
#[cfg(feature = "full")]
fn owner(code: &[u8], want: B32) -> R {
    ensure!(Input::is_predicate_owner_valid(&addr(&want), code), "the root is not accepted as owner of {} bytes", code.len());
    let mut o = want;
    o[code.len() % 32] ^= 1 << (code.len() / 32 % 8);
    ensure!(!Input::is_predicate_owner_valid(&addr(&o), code), "a wrong owner is accepted for {} bytes", code.len());
    Ok(())
}
fn c16_state(ch: &mut Ch, slots: &[(B32, B32)]) -> R {
    let rs: Vec<StorageSlot> = slots.iter().map(r_slot).collect();
    let want = state_root(slots);
    let got = Contract::initial_state_root(rs.iter());
    ensure_eq!(*got, want, "state root of {slots:02x?}");
    ch.step(1);
    ch.traced();
    ch.outcome("state root");
    ch.sample(|| format!("{} slots {slots:02x?}", slots.len()));
    Ok(())
}
fn flip(mut k: B32, i: usize) -> B32 {
    k[i / 8] ^= 0x80 >> (i % 8);
    k
}
/// Keys around a base that part at chosen bits, deep and shallow.
fn keys() -> Vec<B32> {
    let b = Z;
    let mut v = vec![b, flip(b, 0), flip(b, 1), flip(b, 255), flip(flip(b, 0), 255), flip(b, 254), flip(b, 128), [0xff; 32], flip([0xff; 32], 255), pat(5, 5), flip(b, 7), flip(b, 8)];
    v.truncate(12);
    v
}
fn slots_space(ch: &mut Ch, max: usize) -> R {
    let ks = keys();
    let mut slots = vec![];
    let mut used = vec![false; ks.len()];
    // every ordered sequence of distinct keys of length <= max
    for n in 0..max {
        let left: Vec<usize> = (0..ks.len()).filter(|i| !used[*i]).collect();
        let c = ch.free(left.len() + 1);
        if c == 0 {
            break;
        }
        let k = left[c - 1];
        used[k] = true;
        let v = match ch.pick(4) {
            0 => pat(0x60 + k as u8, 2),
            1 => Z,
            2 => pat(0x60, 2),
            _ => ks[(k + 1) % ks.len()],
        };
        slots.push((ks[k], v));
        let _ = n;
    }
    ch.state(&slots);
    c16_state(ch, &slots)
}
fn from_create(ch: &mut Ch, t: &MTx, cached: bool) -> R {
    #[allow(unused_mut)]
    let mut tx = r_tx(t);
    if cached {
        #[cfg(feature = "full")]
        tx.precompute();
    }
    let want = if t.kind == Kind::Create { t.wit.get(t.bcwi as usize).ok_or(CheckError::TransactionCreateBytecodeWitnessIndex) } else { Err(CheckError::TransactionScriptOutputContractCreated { index: 0 }) };
    let got = Contract::try_from(&tx);
    match (&got, &want) {
        (Ok(c), Ok(w)) => {
            ensure_eq!(c.as_ref(), w.as_slice(), "contract of {t:?}");
            ensure_eq!(*c.root(), code_root(w), "code root of the contract of {t:?}");
            let st = Contract::initial_state_root(if let Transaction::Create(c) = &tx { c.storage_slots().iter() } else { unreachable!() });
            let mut m = std::collections::BTreeMap::new();
            t.slots.iter().for_each(|s| {
                m.insert(s.0, s.1);
            });
            let ws: Vec<(B32, B32)> = m.into_iter().collect();
            ensure_eq!(*st, state_root(&ws), "state root of {t:?}");
            let id = c.id(&RSalt::from(t.salt), &c.root(), &st);
            ensure_eq!(*id, contract_id(&t.salt, &code_root(w), &state_root(&ws)), "contract id of {t:?}");
            ch.step(3);
        }
        (Err(e), Err(w)) => ensure!(e == w || t.kind != Kind::Create, "error {e:?}, expected {w:?} for {t:?}"),
        _ => return Err(format!("contract of the transaction is {got:?}, expected {want:?}: {t:?}").into()),
    }
    if let Transaction::Create(c) = &tx {
        ensure_eq!(Contract::try_from(c), got, "through the specific type");
        ch.step(1);
    }
    ch.step(1);
    ch.traced();
    ch.outcome(if got.is_ok() { "contract" } else { "no contract" });
    ch.sample(|| format!("{got:?}"));
    Ok(())
}
pub fn c16_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let hi = if th { 20000 } else { 4200 };
    v.push(space("code-lengths", 0, &format!("bytecode of every length 0..={hi} and the big lengths x 5 fillings"), move |ch| {
        let i = ch.free(hi + 1 + BIG.len());
        let n = if i <= hi { i } else { BIG[i - hi - 1] };
        let f = ch.free(if n <= 600 { 5 } else { 2 });
        let code = match f {
            0 => bytes(0x21, n),
            1 => (0..n).map(|k| (k / 8) as u8 ^ (k / 2048) as u8).collect(),
            2 => vec![0; n],
            3 => vec![0xff; n],
            _ => {
                let mut c = bytes(0x21, n);
                if let Some(x) = c.last_mut() {
                    *x = 0
                }
                c
            }
        };
        ch.state(&code);
        c16_code(ch, &code)
    }));
    let n = if th { 200 } else { 72 };
    v.push(space("code-content", 0, &format!("every length 0..={n}: every single byte changed to 0, 1, 0xff and one bit flipped, adjacent chunks swapped"), move |ch| {
        let l = ch.free(n + 1);
        let mut c = bytes(0x37, l);
        if l > 0 {
            let i = ch.free(l);
            match ch.free(5) {
                0 => c[i] = 0,
                1 => c[i] = 1,
                2 => c[i] = 0xff,
                3 => c[i] ^= 0x40,
                _ => {
                    let j = (i + 8) % l;
                    c.swap(i, j)
                }
            }
        }
        ch.state(&c);
        c16_code(ch, &c)
    }));
    #[cfg(feature = "full")]
    v.push(space("predicate-owner-bits", 0, "predicates of length 0..=33: every single-bit change of the owner, other derived owners, and the roots of 1..=9 bytes less or zeros more, is refused", move |ch| {
        let l = ch.free(34);
        let code = bytes(0x44, l);
        let o = code_root(&code);
        let k = ch.free(256 + 4 + 18);
        let bad = match k {
            0..=255 => flip(o, k),
            256 => Z,
            257 => sha(&[&code]),
            258 => contract_id(&Z, &o, &Z),
            259 => sha(&[&[0x46, 0x55, 0x45, 0x4C], &o]),
            260..=268 => code_root(&code[..l.saturating_sub(k - 259)]),
            _ => code_root(&[&code[..], &vec![0; k - 268]].concat()),
        };
        let bad = if bad == o { flip(o, 3) } else { bad };
        ch.state(&(l, k));
        ch.step(2);
        ch.traced();
        ensure!(Input::is_predicate_owner_valid(&addr(&o), &code), "right owner refused for {l} bytes");
        ensure!(!Input::is_predicate_owner_valid(&addr(&bad), &code), "owner {bad:02x?} accepted for {l} bytes (root {o:02x?})");
        ch.outcome("owner decision");
        Ok(())
    }));
    let (m, b) = if th { (5, 1) } else { (4, 1) };
    v.push(space("slot-sets", b, &format!("every ordered sequence of <= {m} distinct keys out of 12 keys parting at bits 0,1,7,8,128,254,255; <= {b} values deviating"), move |ch| slots_space(ch, m)));
    v.push(space("slot-pairs", 0, "two keys parting at every bit 0..=255, both orders, 3 base keys, and a third key parting from them at every bit", move |ch| {
        let b = [Z, [0xff; 32], pat(0x29, 7)][ch.free(3)];
        let i = ch.free(256);
        let j = ch.free(257);
        let mut s = vec![(b, pat(1, 1)), (flip(b, i), pat(2, 2))];
        if j < 256 && j != i {
            s.push((flip(b, j), Z));
        }
        if ch.flag() {
            s.reverse();
        }
        ch.state(&s);
        c16_state(ch, &s)
    }));
    let nmax = if th { 512 } else { 256 };
    v.push(space("slot-counts", 0, &format!("every number of slots 0..={nmax}: spread keys, sequential keys, sharing 248 bits; ascending, descending and interleaved order"), move |ch| {
        let n = ch.free(nmax + 1);
        let how = ch.free(3);
        let mut s: Vec<(B32, B32)> = (0..n)
            .map(|i| {
                let mut k = Z;
                match how {
                    0 => k = sha(&[&[i as u8, (i >> 8) as u8]]),
                    1 => k[0..2].copy_from_slice(&(i as u16).to_be_bytes()),
                    _ => k[30..].copy_from_slice(&(i as u16).to_be_bytes()),
                }
                (k, pat(7, i))
            })
            .collect();
        match ch.free(3) {
            0 => {}
            1 => s.reverse(),
            _ => {
                let (a, b): (Vec<_>, Vec<_>) = s.iter().enumerate().partition(|(i, _)| i % 3 == 0);
                s = b.into_iter().chain(a).map(|x| *x.1).collect();
            }
        }
        ch.state(&s);
        c16_state(ch, &s)
    }));
    v.push(space("contract-id", 3, "salt, code root and state root: every combination of deviations; every single bit of each", move |ch| {
        let (mut s, mut r, mut t) = (pat(1, 1), pat(2, 2), pat(3, 3));
        if ch.flag() {
            let i = ch.free(256);
            match ch.free(3) {
                0 => s = flip(s, i),
                1 => r = flip(r, i),
                _ => t = flip(t, i),
            }
        } else {
            s = dev_b32(ch, s, r);
            r = dev_b32(ch, r, t);
            t = dev_b32(ch, t, s);
        }
        ch.state(&(s, r, t));
        // the contract's own bytes do not take part
        let c = Contract::from(bytes(1, [0, 9][ch.free(2)]));
        ensure_eq!(*c.id(&RSalt::from(s), &b32(&r), &b32(&t)), contract_id(&s, &r, &t), "contract id of salt {s:02x?} root {r:02x?} state {t:02x?}");
        ch.step(1);
        ch.traced();
        ch.outcome("contract id");
        Ok(())
    }));
    v.push(space("default-state", 0, "the state root of no slots", |ch| {
        ensure_eq!(*Contract::default_state_root(), Z, "default state root");
        ch.step(1);
        ch.traced();
        ch.outcome("default");
        ch.state(&0);
        Ok(())
    }));
    v.push(space("contract-of-create", 0, "0..=5 and 254..=257 witnesses of different lengths x designated index 0..=6, 0x7f, 0x80, 0xfd..=0xff, slots 0..=2, cached or not; scripts and mints", |ch| {
        let kind = KINDS[[1, 0, 2][ch.free(3)]];
        let mut t = def_head(kind);
        if kind == Kind::Create {
            let n = [0usize, 1, 2, 3, 4, 5, 254, 255, 256, 257][ch.free(10)];
            t.wit = (0..n).map(|i| bytes(i as u8, [4, 0, 9, 16, 7][i % 5])).collect();
            t.bcwi = [0, 1, 2, 3, 4, 5, 6, 0x7f, 0x80, 0xfd, 0xfe, 0xff][ch.free(12)];
            let k = ch.free(3);
            t.slots.truncate(k);
            if ch.flag() {
                t.slots.reverse();
            }
        } else {
            t.outs = vec![def_out(5, 0)];
            if kind == Kind::Script {
                t.wit = vec![bytes(1, 8)];
            }
        }
        t.bclen = [0, 1, u64::MAX][ch.free(3)];
        if kind != Kind::Create {
            t.bclen = 0;
        }
        let cached = ch.flag();
        ch.state(&(&t, cached));
        from_create(ch, &t, cached)
    }));
    v
}

// -------------------------------------------------------------------------------------------- C24
struct Parts {
    sender: B32,
    rec: B32,
    nonce: u64,
    nonce32: B32,
    amount: u64,
    data: Vec<u8>,
    txid: B32,
    idx: u64,
}
fn c24(ch: &mut Ch, p: &Parts) -> R {
    let Parts { sender, rec, nonce, nonce32, amount, data, txid, idx } = p;
    let what = || format!("sender {sender:02x?} recipient {rec:02x?} nonce {nonce} {nonce32:02x?} amount {amount} data {} bytes", data.len());
    let want_in: B32 = sha(&[sender, rec, &nonce.to_be_bytes(), &amount.to_be_bytes(), data]);
    let got = Input::compute_message_id(&addr(sender), &addr(rec), *nonce, *amount, data);
    ensure_eq!(*got, want_in, "input message id: {}", what());
    let want_out: B32 = sha(&[sender, rec, nonce32, &amount.to_be_bytes(), data]);
    let got = Output::message_id(&addr(sender), &addr(rec), &b32(nonce32), *amount, data);
    ensure_eq!(*got, want_out, "output message id: {}", what());
    let want_nonce: B32 = sha(&[txid, &[*idx as u8]]);
    ensure_eq!(*Output::message_nonce(&b32(txid), *idx), want_nonce, "nonce of {txid:02x?} {idx}");
    let digest = sha(&[data]);
    ensure_eq!(*Output::message_digest(data), digest, "digest: {}", what());
    let r = Receipt::message_out_from_tx_output(&b32(txid), *idx, addr(sender), addr(rec), *amount, data.clone());
    let mid: B32 = sha(&[sender, rec, &want_nonce, &amount.to_be_bytes(), data]);
    let len = (data.len() as u64 + 7) / 8 * 8;
    ensure_eq!(r.message_id().map(|m| **m), Some(mid), "receipt message id: {}", what());
    ensure_eq!(r.nonce().map(|m| **m), Some(want_nonce), "receipt nonce: {}", what());
    ensure_eq!(r.digest().map(|m| **m), Some(digest), "receipt digest: {}", what());
    ensure_eq!(r.len(), Some(len), "receipt length: {}", what());
    ensure_eq!(r.sender().map(|m| **m), Some(*sender), "receipt sender: {}", what());
    ensure_eq!(r.recipient().map(|m| **m), Some(*rec), "receipt recipient: {}", what());
    ensure_eq!(r.amount(), Some(*amount), "receipt amount: {}", what());
    ensure_eq!(r.data(), Some(data.as_slice()), "receipt data: {}", what());
    let same = Receipt::message_out(MessageId::from(mid), addr(sender), addr(rec), *amount, Bytes32::from(want_nonce), Bytes32::from(digest), data.clone());
    ensure_eq!(r, same, "receipt from its parts: {}", what());
    ensure_eq!(*r.message_id().unwrap(), Output::message_id(&addr(sender), &addr(rec), r.nonce().unwrap(), *amount, data), "receipt id vs output id");
    ch.step(6);
    ch.traced();
    ch.outcome("message");
    ch.sample(what);
    Ok(())
}
fn base_parts() -> Parts {
    Parts { sender: pat(1, 1), rec: pat(2, 2), nonce: word(3, 3), nonce32: pat(4, 4), amount: word(5, 5), data: bytes(6, 11), txid: pat(7, 7), idx: 3 }
}
pub fn c24_spaces(th: bool) -> Vec<Space> {
    let d = if th { 4 } else { 3 };
    let mut v = vec![];
    v.push(space("message-parts", d, &format!("every combination of <= {d} deviations of sender, recipient, nonce, amount, data, transaction id and output index"), move |ch| {
        let b = base_parts();
        let p = Parts {
            sender: dev_b32(ch, b.sender, b.rec),
            rec: dev_b32(ch, b.rec, b.sender),
            nonce: dev_word(ch, b.nonce),
            nonce32: dev_b32(ch, b.nonce32, b.sender),
            amount: dev_word(ch, b.amount),
            data: dev_vec(ch, b.data, 6),
            txid: dev_b32(ch, b.txid, b.nonce32),
            idx: [b.idx, 0, 1, 2, 0x7f, 0x80, 0xfe, 0xff][ch.pick(8)],
        };
        ch.state(&(p.sender, p.rec, p.nonce, p.nonce32, p.amount, &p.data, p.txid, p.idx));
        c24(ch, &p)
    }));
    let hi = if th { 4200 } else { 1100 };
    v.push(space("message-data-lengths", 0, &format!("data of every length 0..={hi} and the big lengths x 3 fillings"), move |ch| {
        let i = ch.free(hi + 1 + BIG.len());
        let n = if i <= hi { i } else { BIG[i - hi - 1] };
        let mut p = base_parts();
        p.data = match ch.free(3) {
            0 => bytes(9, n),
            1 => vec![0; n],
            _ => vec![0xff; n],
        };
        ch.state(&p.data);
        c24(ch, &p)
    }));
    v.push(space("message-indices", 0, "every output index 0..=255 x 3 transaction ids", |ch| {
        let mut p = base_parts();
        p.idx = ch.free(256) as u64;
        p.txid = [pat(7, 7), Z, [0xff; 32]][ch.free(3)];
        ch.state(&(p.idx, p.txid));
        c24(ch, &p)
    }));
    v.push(space("message-bits", 0, "every single bit of every part", |ch| {
        let mut p = base_parts();
        match ch.free(4) {
            0 => p.sender = flip(p.sender, ch.free(256)),
            1 => p.rec = flip(p.rec, ch.free(256)),
            2 => p.nonce32 = flip(p.nonce32, ch.free(256)),
            _ => match ch.free(3) {
                0 => p.nonce ^= 1 << ch.free(64),
                1 => p.amount ^= 1 << ch.free(64),
                _ => {
                    let i = ch.free(88);
                    p.data[i / 8] ^= 1 << (i % 8)
                }
            },
        }
        ch.state(&(p.sender, p.rec, p.nonce, p.nonce32, p.amount, &p.data));
        c24(ch, &p)
    }));
    v.push(space("message-injective", 0, "all pairs of part tuples over 2 values per part and data of 0..=2 bytes over {0,1}: equal ids only for equal parts, in both id forms", |ch| {
        // one leaf: the whole cross product, ids into a map
        let a = [pat(1, 1), pat(2, 2)];
        let datas: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1], vec![0; 8], vec![0; 16]];
        let w = [0u64, 1, 1 << 32, u64::MAX];
        let mut seen = std::collections::BTreeMap::new();
        let form = ch.free(2);
        for s in &a {
            for r in &a {
                for n in &w {
                    for m in &w {
                        for d in &datas {
                            let mut n32 = Z;
                            n32[24..].copy_from_slice(&n.to_be_bytes());
                            let id = if form == 0 { Input::compute_message_id(&addr(s), &addr(r), *n, *m, d) } else { Output::message_id(&addr(s), &addr(r), &b32(&n32), *m, d) };
                            let k = (s, r, n, m, d);
                            ch.step(1);
                            if let Some(o) = seen.insert(*id, k) {
                                return Err(format!("messages {o:?} and {k:?} share an id").into());
                            }
                        }
                    }
                }
            }
        }
        ch.state(&form);
        ch.traced();
        ch.outcome("distinct");
        Ok(())
    }));
    #[cfg(feature = "full")]
    v.push(space("message-of-transaction", 1, "receipt of each message output of scripts with 1..=4 outputs, using the transaction's own id; builder-made message inputs", |ch| {
        let mut t = def_head(Kind::Script);
        let n = 1 + ch.free(4);
        t.outs = (0..n).map(|i| def_out(2, i)).collect();
        t.price = dev_word(ch, t.price);
        let tx = r_tx(&t);
        let id = tx.id();
        ch.state(&t);
        for i in 0..n {
            let mut p = base_parts();
            p.txid = model_id(&t);
            p.idx = i as u64;
            c24(ch, &p)?;
            ensure_eq!(*Output::message_nonce(&id, i as u64), sha(&[&model_id(&t), &[i as u8]]), "nonce of output {i}");
        }
        let sk = crate::auth::key(ch.free(3));
        let rec: B32 = crate::auth::owner(&sk);
        let mut b = fuel_tx::TransactionBuilder::script(vec![], vec![]);
        let p = base_parts();
        b.add_unsigned_message_input(sk, addr(&p.sender), p.nonce, p.amount, p.data.clone());
        let s = b.finalize();
        let want = sha(&[&p.sender, &rec, &p.nonce.to_be_bytes(), &p.amount.to_be_bytes(), &p.data]);
        ensure_eq!(s.inputs()[0].message_id().map(|m| **m), Some(want), "message id of a builder-made input");
        Ok(())
    }));
    v
}
