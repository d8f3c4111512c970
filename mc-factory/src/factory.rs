//! C26 the test factory and random values, for every answer of the random source within bounds.
use crate::auth::{auth_rules, owner};
use crate::commit::code_root;
use crate::explore::*;
use crate::model::*;
use crate::valid::brief;
use crate::wire::*;
use crate::{ensure, ensure_eq};
use fuel_crypto::SecretKey;
use fuel_tx::{Cacheable, Checkable, Create, Mint, Script, StorageSlot, Transaction, TxPointer, UniqueIdentifier, UtxoId, Witness};
use fuel_tx_test_helpers::{generate_bytes, generate_nonempty_padded_bytes, TransactionFactory};
use rand::{CryptoRng, Error, Rng, RngCore};
use std::collections::BTreeSet;

/// A source whose n-th answer is the n-th word of a base sequence, except where it is told otherwise.
#[derive(Clone)]
struct Src {
    state: u64,
    n: usize,
    set: Vec<(usize, u64)>,
    /// every answer the same byte
    flat: Option<u8>,
}
impl Src {
    fn new(base: u64, set: Vec<(usize, u64)>) -> Self {
        Src { state: base.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1, n: 0, set, flat: None }
    }
    fn flat(b: u8) -> Self {
        Src { flat: Some(b), ..Src::new(0, vec![]) }
    }
    fn word(&mut self) -> u64 {
        self.state ^= self.state << 13;
        self.state ^= self.state >> 7;
        self.state ^= self.state << 17;
        let n = self.n;
        self.n += 1;
        if let (Some(b), true) = (self.flat, n > 0 || self.set.is_empty()) {
            return u64::from_be_bytes([b; 8]);
        }
        let w = self.state.wrapping_mul(0x2545_f491_4f6c_dd1d);
        self.set.iter().find(|(k, _)| *k == n).map_or(w, |x| x.1)
    }
}
impl RngCore for Src {
    fn next_u32(&mut self) -> u32 {
        (self.word() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.word()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        // one answer per call: the word, then what follows from it
        let mut w = self.word();
        for x in b.chunks_mut(8) {
            for (y, z) in x.iter_mut().zip(w.to_be_bytes()) {
                *y = z;
            }
            if self.flat.is_none() {
                w = w.rotate_left(9).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x5555;
            }
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl CryptoRng for Src {}

/// Answers that put a bounded draw at each of `n` levels, and the extremes.
fn levels(n: u64) -> Vec<u64> {
    let step = u64::MAX / n;
    let mut v: Vec<u64> = (0..n).map(|i| i * step + step / 2).collect();
    v.extend([0, u64::MAX, 1, u32::MAX as u64]);
    v
}
fn keyed(t: &MTx, keys: &[SecretKey]) -> R {
    let owners: Vec<B32> = t.ins.iter().filter_map(|x| match x {
        MIn::CoinS { owner, .. } | MIn::MsgS { rec: owner, .. } => Some(*owner),
        _ => None,
    }).collect();
    let given: Vec<B32> = keys.iter().map(owner).collect();
    ensure!(owners == given, "keys given belong to {given:?}, keyed inputs to {owners:?}: {}", brief(t));
    Ok(())
}
/// Everything said about a made transaction.
fn judge(tx: &Transaction, keys: &[SecretKey]) -> R {
    let t = m_tx(tx);
    ensure!(tx.is_computed(), "no metadata: {}", brief(&t));
    let id = model_id(&t);
    ensure_eq!(*tx.id(), id, "id of {}", brief(&t));
    offsets_equal(&r_tx(&t), tx)?;
    if t.kind == Kind::Mint {
        return Ok(());
    }
    keyed(&t, keys)?;
    let bad = auth_rules(&t, &id);
    ensure!(bad.is_empty(), "not authorised: {bad:?} {}", brief(&t));
    ensure!(tx.check_signatures().is_ok(), "signature check refuses {}", brief(&t));
    for x in &t.ins {
        let (pr, own) = match x {
            MIn::CoinP { pred, owner, .. } => (pred, owner),
            MIn::MsgP { pred, rec, .. } => (pred, rec),
            _ => continue,
        };
        ensure!(!pr.is_empty() && pr.len() % 8 == 0, "predicate of {} bytes", pr.len());
        ensure!(code_root(pr) == *own, "predicate's owner is not its root");
    }
    if t.kind == Kind::Create {
        let n = t.wit.get(t.bcwi as usize).map(|w| w.len() as u64 / 4);
        ensure!(n == Some(t.bclen), "declared length {} of bytecode of {n:?} instructions", t.bclen);
    }
    Ok(())
}
fn made(kind: Kind, s: &Src) -> (Transaction, Vec<SecretKey>) {
    match kind {
        Kind::Script => {
            let (t, k) = TransactionFactory::<Src, Script>::from(s.clone()).transaction_with_keys();
            (t.into(), k)
        }
        Kind::Create => {
            let (t, k) = TransactionFactory::<Src, Create>::from(s.clone()).transaction_with_keys();
            (t.into(), k)
        }
        Kind::Mint => (TransactionFactory::<Src, Mint>::from(s.clone()).transaction().into(), vec![]),
    }
}
/// The other ways to get the same product, and the second one after it.
fn same(kind: Kind, s: &Src, tx: &Transaction, keys: &[SecretKey]) -> R {
    let secrets = |k: &[SecretKey]| k.iter().map(|k| k.as_ref().to_vec()).collect::<Vec<_>>();
    macro_rules! go {
        ($k:ident, $keys:expr, $next:ident => $pair:expr) => {{
            let mut f = TransactionFactory::<Src, $k>::from(s.clone());
            let a: Transaction = f.transaction().into();
            ensure!(a == *tx, "transaction() gives another product from the same source");
            let mut it = TransactionFactory::<Src, $k>::from(s.clone());
            let $next = it.next();
            let (b, k): (Transaction, Vec<SecretKey>) = $pair;
            ensure!(b == *tx && (!$keys || secrets(&k) == secrets(keys)), "iterating gives another product from the same source");
            let $next = it.next();
            let (b, k): (Transaction, Vec<SecretKey>) = $pair;
            judge(&b, &k)?;
            let c: Transaction = f.transaction().into();
            ensure!(b == c, "the second product differs");
        }};
    }
    match kind {
        Kind::Script => go!(Script, true, n => { let (t, k) = n.unwrap(); (t.into(), k) }),
        Kind::Create => go!(Create, true, n => { let (t, k) = n.unwrap(); (t.into(), k) }),
        Kind::Mint => go!(Mint, false, n => (n.unwrap().into(), vec![])),
    }
    Ok(())
}
fn one(ch: &mut Ch, kind: Kind, s: &Src, twice: bool) -> R {
    let (tx, keys) = made(kind, s);
    ch.step(1);
    judge(&tx, &keys)?;
    if twice {
        same(kind, s, &tx, &keys)?;
        ch.step(4);
    }
    let t = m_tx(&tx);
    ch.state(&t);
    ch.traced();
    ch.outcome(&format!("{:?}", kind));
    ch.sample(|| brief(&t));
    Ok(())
}
fn kind_of_in(x: &MIn) -> usize {
    match x {
        MIn::CoinS { .. } => 0,
        MIn::CoinP { .. } => 1,
        MIn::Con { .. } => 2,
        MIn::MsgS { .. } => 3,
        MIn::MsgP { .. } => 4,
    }
}
fn kind_of_out(x: &MOut) -> usize {
    match x {
        MOut::Coin { .. } => 0,
        MOut::Con { .. } => 1,
        MOut::Msg { .. } => 2,
        MOut::Change { .. } => 3,
        MOut::Var { .. } => 4,
        MOut::Created { .. } => 5,
    }
}
fn seeded(kind: Kind, seed: u64) -> (Transaction, Vec<SecretKey>) {
    match kind {
        Kind::Script => {
            let (t, k) = TransactionFactory::<_, Script>::from_seed(seed).transaction_with_keys();
            (t.into(), k)
        }
        Kind::Create => {
            let (t, k) = TransactionFactory::<_, Create>::from_seed(seed).transaction_with_keys();
            (t.into(), k)
        }
        Kind::Mint => (TransactionFactory::<_, Mint>::from_seed(seed).transaction().into(), vec![]),
    }
}
pub fn c26_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let (first, pairs, bases) = if th { (400, 40, 24) } else { (160, 14, 6) };
    for kind in KINDS {
        let lv = levels(12);
        let l2 = lv.clone();
        v.push(space(&format!("one-answer-{kind:?}"), 0, &format!("{bases} base sources, each of the first {first} answers replaced by each of {} words; second products too", lv.len()), move |ch| {
            let base = ch.free(bases) as u64;
            let at = ch.free(first);
            let s = Src::new(base + 1, vec![(at, lv[ch.free(lv.len())])]);
            one(ch, kind, &s, at % 4 == 0)
        }));
        v.push(space(&format!("two-answers-{kind:?}"), 0, &format!("2 base sources, every two of the first {pairs} answers replaced by every pair of {} words", l2.len()), move |ch| {
            let base = ch.free(2) as u64;
            let a = ch.free(pairs);
            let b = ch.free(pairs);
            if b <= a {
                return Ok(());
            }
            let s = Src::new(base + 77, vec![(a, l2[ch.free(l2.len())]), (b, l2[ch.free(l2.len())])]);
            one(ch, kind, &s, false)
        }));
        let seeds = if th { 20_000 } else { 1_500 };
        v.push(space(&format!("seeds-{kind:?}"), 0, &format!("every seed below {seeds}, made twice"), move |ch| {
            let seed = ch.free(seeds) as u64;
            let (tx, keys) = seeded(kind, seed);
            judge(&tx, &keys)?;
            let (again, k) = seeded(kind, seed);
            ensure!(tx == again && k.len() == keys.len() && k.iter().zip(&keys).all(|(a, b)| a.as_ref() == b.as_ref()), "seed {seed} gives two products");
            ch.step(2);
            ch.state(&m_tx(&tx));
            ch.traced();
            ch.outcome("seed");
            Ok(())
        }));
        v.push(space(&format!("every-kind-{kind:?}"), 0, "over the seeds below 400: every kind of input and of output, and an empty list, occur; no two transactions are equal", move |ch| {
            let (mut ins, mut outs, mut ids) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
            let (mut no_in, mut no_out) = (false, false);
            for seed in 0..400 {
                let t = m_tx(&seeded(kind, seed).0);
                ins.extend(t.ins.iter().map(kind_of_in));
                outs.extend(t.outs.iter().map(kind_of_out));
                no_in |= t.ins.is_empty();
                no_out |= t.outs.is_empty();
                ids.insert(model_id(&t));
                ch.step(1);
            }
            ensure!(kind == Kind::Mint || (ins.len() == 5 && no_in), "kinds of inputs {ins:?}, none {no_in}");
            ensure!(outs.len() == 6 && no_out, "kinds of outputs {outs:?}, none {no_out}");
            ensure!(ids.len() == 400, "{} different transactions from 400 seeds", ids.len());
            ch.traced();
            ch.outcome("kinds");
            Ok(())
        }));
    }
    v.push(space("flat-sources", 0, "sources that answer one byte throughout (after 8 words for the length), every byte: values take it in every field", |ch| {
        let b = ch.free(256) as u8;
        let s = || Src::flat(b);
        let u: UtxoId = s().gen();
        ensure!(**u.tx_id() == [b; 32] && u.output_index() == b, "UTXO id {u:?} from bytes {b}");
        let p: TxPointer = s().gen();
        ensure!(p.block_height() == u32::from_be_bytes([b; 4]) && p.tx_index() == u16::from_be_bytes([b; 2]), "pointer {p:?} from bytes {b}");
        let x: StorageSlot = s().gen();
        ensure!(**x.key() == [b; 32] && **x.value() == [b; 32], "slot {x:?} from bytes {b}");
        ch.step(3);
        // (a bounded draw may ask again forever, so the length is drawn from a word of its own)
        {
            let n = ch.free(8) as u64;
            let s = || Src { flat: Some(b), ..Src::new(0, vec![(0, n << 61 | 1 << 51)]) };
            let w: Witness = s().gen();
            ensure!(w.as_ref().len() < 512 && w.as_ref().iter().all(|x| *x == b), "witness {w:?} from bytes {b}");
            let g = generate_bytes(&mut s());
            ensure!(g.len() < 512 && g.iter().all(|x| *x == b), "bytes {g:?} from bytes {b}");
            let g = generate_nonempty_padded_bytes(&mut s());
            ensure!(!g.is_empty() && g.len() <= 512 && g.len() % 8 == 0 && g.iter().all(|x| *x == b), "padded bytes {g:?} from bytes {b}");
            ch.step(3);
        }
        ch.state(&b);
        ch.traced();
        ch.outcome("flat");
        Ok(())
    }));
    let many = if th { 1 << 17 } else { 1 << 14 };
    v.push(space("independence", 0, &format!("{many} seeds each: every byte of a random value takes every value, and every two bits of it every combination"), move |ch| {
        let which = ch.free(4);
        let of = |s: &mut rand::rngs::StdRng| -> Option<Vec<u8>> {
            Some(match which {
                0 => {
                    let u: UtxoId = s.gen();
                    [u.tx_id().as_ref(), &[u.output_index()]].concat()
                }
                1 => {
                    let p: TxPointer = s.gen();
                    [&p.block_height().to_be_bytes()[..], &p.tx_index().to_be_bytes()].concat()
                }
                2 => {
                    let x: StorageSlot = s.gen();
                    [x.key().as_ref(), x.value().as_ref()].concat()
                }
                _ => {
                    let w: Witness = s.gen();
                    let (w, n) = (w.as_ref(), w.as_ref().len());
                    // the first and the last bytes, and the length's low byte
                    (n >= 16).then(|| [&w[..8], &w[n - 8..], &[n as u8]].concat())?
                }
            })
        };
        let vals: Vec<Vec<u8>> = (0..many).filter_map(|i| of(&mut rand::SeedableRng::seed_from_u64(i as u64))).collect();
        ch.step(many as u64);
        let name = ["UTXO id", "pointer", "slot", "witness"][which];
        let len = vals[0].len();
        for i in 0..len {
            let seen: BTreeSet<u8> = vals.iter().map(|v| v[i]).collect();
            ensure!(seen.len() == 256, "byte {i} of a random {name} takes only {} values", seen.len());
        }
        let few = &vals[..2048];
        let cols: Vec<Vec<u64>> = (0..len * 8).map(|b| few.chunks(64).map(|c| c.iter().fold(0, |a, v| a << 1 | (v[b / 8] >> (b % 8) & 1) as u64)).collect()).collect();
        for i in 0..cols.len() {
            for j in 0..i {
                let mut seen = [false; 4];
                for (a, b) in cols[i].iter().zip(&cols[j]) {
                    for (s, x) in seen.iter_mut().zip([a & b, a & !b, !a & b, !a & !b]) {
                        *s |= x != 0;
                    }
                }
                ensure!(seen == [true; 4], "bits {i} and {j} of a random {name} take only {seen:?} of the combinations");
            }
        }
        ch.state(&which);
        ch.traced();
        ch.outcome(name);
        Ok(())
    }));
    v.push(space("lengths", 0, "the first answer over 4096 evenly spread words: generated lengths stay in range and take every value", |ch| {
        let (mut a, mut b, mut c) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for i in 0..4096u64 {
            let s = || Src::new(5, vec![(0, (i << 52) | (1 << 51))]);
            a.insert(generate_bytes(&mut s()).len());
            b.insert(generate_nonempty_padded_bytes(&mut s()).len());
            let w: Witness = s().gen();
            c.insert(w.as_ref().len());
            ch.step(3);
        }
        ensure!(a.iter().copied().eq(0..512), "lengths of generate_bytes: {a:?}");
        ensure!(b.iter().copied().eq((1..=64).map(|x| 8 * x)), "lengths of generate_nonempty_padded_bytes: {b:?}");
        ensure!(c.iter().copied().eq(0..512), "lengths of a witness: {c:?}");
        ch.traced();
        ch.outcome("lengths");
        Ok(())
    }));
    v
}
