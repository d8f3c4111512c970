//! C25 equality, hashes, orders, conversions and defaults of the value types.
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::receipts::{def_rc, dev_rc, m_rc, panic_words, r_rc, RC_KINDS};
use crate::shared::{std_hash, Elem};
use crate::{ensure, ensure_eq};
use fuel_tx::{Bytes64, Cacheable, Checkable, ConsensusParameters, Contract, Create, Input, InputRepr, Mint, Output, OutputRepr, ScriptExecutionResult, StorageSlot, Transaction, TransactionRepr, TxPointer, UtxoId, Witness};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

/// `same`: are the two values the same, field by field?
fn eq_case<T: Eq + Hash + Clone + Debug>(ch: &mut Ch, a: &T, b: &T, same: bool) -> R {
    ensure!((a == b) == same && (b == a) == same && (a != b) != same, "{a:?} and {b:?} have {} fields but compare {}", if same { "equal" } else { "different" }, if a == b { "equal" } else { "different" });
    ensure!(!same || std_hash(a) == std_hash(b), "equal values hash differently: {a:?} and {b:?}");
    let c = a.clone();
    ensure!(c == *a && std_hash(&c) == std_hash(a), "clone of {a:?} differs: {c:?}");
    ch.step(5);
    ch.traced();
    ch.outcome(if same { "equal" } else { "different" });
    Ok(())
}
fn eq_tx(ch: &mut Ch, a: &MTx, b: &MTx) -> R {
    let (x, y) = (r_tx(a), r_tx(b));
    let same = a == b;
    eq_case(ch, &x, &y, same)?;
    let (mut xc, mut yc) = (x.clone(), y.clone());
    let pre = |t: &mut Transaction| match t {
        Transaction::Script(s) => s.precompute(),
        Transaction::Create(s) => s.precompute(),
        Transaction::Mint(s) => s.precompute(),
    };
    pre(&mut xc);
    pre(&mut yc);
    ensure!((xc == y) == same && (x == yc) == same && (xc == yc) == same, "equality of {a:?} and {b:?} depends on the cache");
    ensure!(std_hash(&x) == std_hash(&xc), "hash of {a:?} depends on the cache");
    ensure!(m_tx(&xc.clone()) == *a, "clone of a cached {a:?} differs");
    match (&x, &y) {
        (Transaction::Script(x), Transaction::Script(y)) => eq_case(ch, x, y, same),
        (Transaction::Create(x), Transaction::Create(y)) => eq_case(ch, x, y, same),
        (Transaction::Mint(x), Transaction::Mint(y)) => eq_case(ch, x, y, same),
        _ => Ok(()),
    }
}
fn def_elem(k: usize) -> Elem {
    if k < IN_KINDS {
        Elem::In(def_in(k, 2, [6, 10, 3]))
    } else if k < IN_KINDS + OUT_KINDS {
        Elem::Out(def_out(k - IN_KINDS, 2))
    } else {
        match k - IN_KINDS - OUT_KINDS {
            0 => Elem::Slot(pat(0x61, 1), pat(0x62, 1)),
            1 => Elem::Utxo(pat(0x63, 1), 9),
            2 => Elem::Ptr(0x0102_0304, 0x0506),
            _ => Elem::Wit(bytes(0x64, 9)),
        }
    }
}
const ELEMS: usize = IN_KINDS + OUT_KINDS + 4;
fn dev_elem(ch: &mut Ch, e: Elem) -> Elem {
    match e {
        Elem::In(x) => Elem::In(dev_in(ch, x)),
        Elem::Out(x) => Elem::Out(dev_out(ch, x)),
        Elem::Slot(k, v) => Elem::Slot(dev_b32(ch, k, v), dev_b32(ch, v, k)),
        Elem::Utxo(a, i) => {
            let u = dev_utxo(ch, (a, i), Z);
            Elem::Utxo(u.0, u.1)
        }
        Elem::Ptr(h, i) => {
            let p = dev_ptr(ch, (h, i));
            Elem::Ptr(p.0, p.1)
        }
        Elem::Wit(w) => Elem::Wit(dev_vec(ch, w, 0x99)),
    }
}
fn eq_elem(ch: &mut Ch, a: &Elem, b: &Elem) -> R {
    match (a, b) {
        (Elem::In(x), Elem::In(y)) => eq_case(ch, &r_in(x), &r_in(y), x == y),
        (Elem::Out(x), Elem::Out(y)) => eq_case(ch, &r_out(x), &r_out(y), x == y),
        (Elem::Slot(k, v), Elem::Slot(l, w)) => eq_case(ch, &r_slot(&(*k, *v)), &r_slot(&(*l, *w)), (k, v) == (l, w)),
        (Elem::Utxo(k, v), Elem::Utxo(l, w)) => eq_case(ch, &r_utxo(&(*k, *v)), &r_utxo(&(*l, *w)), (k, v) == (l, w)),
        (Elem::Ptr(k, v), Elem::Ptr(l, w)) => eq_case(ch, &r_ptr(&(*k, *v)), &r_ptr(&(*l, *w)), (k, v) == (l, w)),
        (Elem::Wit(x), Elem::Wit(y)) => eq_case(ch, &r_wit(x), &r_wit(y), x == y),
        _ => Ok(()),
    }
}
// ------------------------------------------------------------------------------------------ orders
fn order<T: Ord + Debug>(ch: &mut Ch, a: &T, b: &T, want: Ordering) -> R {
    ensure!(a.cmp(b) == want && b.cmp(a) == want.reverse() && a.partial_cmp(b) == Some(want), "{a:?} against {b:?}: cmp {:?}, expected {want:?}", a.cmp(b));
    ensure!((a < b) == want.is_lt() && (a <= b) == want.is_le() && (a > b) == want.is_gt() && (a >= b) == want.is_ge(), "comparison operators of {a:?} and {b:?} against {want:?}");
    ch.step(6);
    ch.traced();
    ch.outcome(match want {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
    Ok(())
}
fn ids() -> Vec<B32> {
    let mut v = vec![Z, [0xff; 32], pat(0x31, 3)];
    for p in [0usize, 1, 7, 8, 15, 16, 23, 24, 30, 31] {
        for b in [1u8, 0x7f, 0x80, 0xff] {
            let mut x = Z;
            x[p] = b;
            v.push(x);
        }
        let mut x = pat(0x31, 3);
        x[p] ^= 0x80;
        v.push(x);
    }
    v
}
const HEIGHTS: [u32; 11] = [0, 1, 0x7f, 0xff, 0x100, 0xffff, 0x1_0000, 0x00ff_ffff, 0x7fff_ffff, 0x8000_0000, u32::MAX];
const INDICES: [u16; 8] = [0, 1, 0x7f, 0xff, 0x100, 0x7fff, 0x8000, u16::MAX];
// ------------------------------------------------------------------------------------- conversions
/// The numbers around which kind numbers are tried.
fn numbers() -> Vec<u64> {
    let mut v: Vec<u64> = (0..=600).collect();
    for s in 0..64 {
        for k in 0..12u64 {
            let w = k.wrapping_shl(s);
            v.extend([w, w.wrapping_sub(1), w.wrapping_add(1), !w]);
        }
        for k in 0..12u64 {
            v.push((1u64 << s) | k);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn kind_number(ch: &mut Ch, w: u64) -> R {
    let t = TransactionRepr::try_from(w).ok();
    let i = InputRepr::try_from(w).ok();
    let o = OutputRepr::try_from(w).ok();
    ensure_eq!(t.clone().map(|r| r as u64), (w < 3).then_some(w), "transaction kind {w}");
    ensure_eq!(i.clone().map(|r| r as u64), (w < 3).then_some(w), "input kind {w}");
    ensure_eq!(o.clone().map(|r| r as u64), (w < 6).then_some(w), "output kind {w}");
    let want = match w {
        0 => Some(TransactionRepr::Script),
        1 => Some(TransactionRepr::Create),
        2 => Some(TransactionRepr::Mint),
        _ => None,
    };
    ensure_eq!(t, want, "transaction kind {w}");
    let want = match w {
        0 => Some(InputRepr::Coin),
        1 => Some(InputRepr::Contract),
        2 => Some(InputRepr::Message),
        _ => None,
    };
    ensure_eq!(i, want, "input kind {w}");
    let want = match w {
        0 => Some(OutputRepr::Coin),
        1 => Some(OutputRepr::Contract),
        2 => Some(OutputRepr::Message),
        3 => Some(OutputRepr::Change),
        4 => Some(OutputRepr::Variable),
        5 => Some(OutputRepr::ContractCreated),
        _ => None,
    };
    ensure_eq!(o, want, "output kind {w}");
    let r = ScriptExecutionResult::from(w);
    let want = match w {
        0 => ScriptExecutionResult::Success,
        1 => ScriptExecutionResult::Revert,
        2 => ScriptExecutionResult::Panic,
        w => ScriptExecutionResult::GenericFailure(w),
    };
    ensure_eq!(r, want, "script result of {w}");
    ensure_eq!(u64::from(r), w, "number of {r:?}");
    ensure_eq!(u64::from(ScriptExecutionResult::GenericFailure(w)), w, "number of a generic failure");
    ch.step(6);
    ch.traced();
    ch.outcome(if w < 6 { "kind" } else { "no kind" });
    Ok(())
}
fn slot_bytes(ch: &mut Ch, raw: [u8; 64]) -> R {
    let b = Bytes64::from(raw);
    let s = StorageSlot::from(&b);
    ensure!(s.key()[..] == raw[..32] && s.value()[..] == raw[32..], "slot of {raw:?} is {s:?}");
    ensure!(Bytes64::from(&s)[..] == raw[..], "bytes of {s:?}");
    let (mut k, mut v) = (Z, Z);
    k.copy_from_slice(&raw[..32]);
    v.copy_from_slice(&raw[32..]);
    let n = StorageSlot::new(k.into(), v.into());
    ensure!(n == s && Bytes64::from(&n)[..] == raw[..], "slot made of its parts differs: {n:?} and {s:?}");
    ch.step(4);
    ch.traced();
    ch.outcome("slot");
    Ok(())
}
fn byte_holders(ch: &mut Ch, d: &[u8]) -> R {
    let v = d.to_vec();
    let a: Witness = v.clone().into();
    let mut b: Witness = d.into();
    ensure!(a == b && a.as_ref() == d && a.as_vec() == &v && b.as_vec_mut() == &v && a.clone().into_inner() == v, "witness of {d:?} is {a:?}");
    let mut e = Witness::default();
    ensure!(e.as_vec().is_empty(), "default witness");
    for c in d.chunks(3) {
        e.extend(c.iter().copied());
    }
    ensure!(e == a, "witness extended with {d:?} is {e:?}");
    if !d.is_empty() {
        let i = d.len() / 2;
        let mut w = v.clone();
        w[i] ^= 1;
        b.as_mut()[i] ^= 1;
        ensure!(b.as_ref() == &w[..] && b != a, "witness written through as_mut: {b:?}");
        b.as_vec_mut()[i] ^= 1;
        ensure!(b == a, "witness written through as_vec_mut: {b:?}");
    }
    let mut w = v.clone();
    let (c1, c2, c3) = (Contract::from(v.clone()), Contract::from(d), Contract::from(&mut w[..]));
    ensure!(c1 == c2 && c2 == c3 && c1.as_ref() == d && Vec::from(c1.clone()) == v, "contract of {d:?} is {c1:?}");
    let mut c = c2;
    if !d.is_empty() {
        c.as_mut()[0] ^= 0x10;
        w[0] ^= 0x10;
        ensure!(c.as_ref() == &w[..] && c != c1, "contract written through as_mut: {c:?}");
    }
    ensure!(Vec::from(Contract::default()).is_empty(), "default contract");
    ch.step(12);
    ch.traced();
    ch.outcome("bytes");
    Ok(())
}
fn defaults(ch: &mut Ch) -> R {
    let heights = [0u64, 1, 100, u32::MAX as u64, u64::MAX];
    let p = ConsensusParameters::DEFAULT;
    let mut d = MTx::new(Kind::Script);
    d.limit = p.max_gas_per_tx;
    // one instruction: RET (0x24) of the register $zero+0x10, six bits at 18
    d.script = 0x2440_0000u32.to_be_bytes().to_vec();
    let t = Transaction::default();
    let m = m_tx(&t);
    ensure!(m == d, "default transaction {m:?}, expected {d:?}");
    ensure!(m_script(&fuel_tx::Script::default()) == d, "default script");
    for h in heights {
        ensure!(t.check(h, &p).is_ok() && t.check_without_signatures(h, &p).is_ok(), "the default transaction is not valid at height {h}: {:?}", t.check(h, &p));
    }
    ensure!(m_create(&Create::default()) == MTx::new(Kind::Create), "default create {:?}", Create::default());
    ensure!(m_mint(&Mint::default()) == MTx::new(Kind::Mint), "default mint {:?}", Mint::default());
    ensure!(m_in(&Input::default()) == MIn::Con { utxo: (Z, 0), bal: Z, st: Z, ptr: (0, 0), cid: Z }, "default input {:?}", Input::default());
    ensure!(m_out(&Output::default()) == MOut::Created { cid: Z, st: Z }, "default output {:?}", Output::default());
    ensure!(m_utxo(&UtxoId::default()) == (Z, 0) && m_ptr(&TxPointer::default()) == (0, 0), "default UTXO id and pointer");
    let s = StorageSlot::default();
    ensure!(**s.key() == Z && **s.value() == Z, "default slot {s:?}");
    ch.step(10);
    ch.traced();
    ch.outcome("defaults");
    Ok(())
}
pub fn c25_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let d = if th { 3 } else { 2 };
    for kind in KINDS {
        let mut base = rich(kind);
        if th && kind != Kind::Mint {
            // three changes: one element of each list
            base.ins.truncate(1);
            base.outs.truncate(1);
            base.wit.truncate(1);
        }
        v.push(space(&format!("equal-{kind:?}"), d, &format!("two transactions, each deviating from the same one, all combinations of <= {d} field changes over both; with and without caches"), move |ch| {
            let (a, b) = (dev_tx(ch, &base), dev_tx(ch, &base));
            ch.state(&(&a, &b));
            eq_tx(ch, &a, &b)
        }));
        let (n, m) = if th { (3, 2) } else { (2, 2) };
        v.push(space(&format!("equal-shapes-{kind:?}"), 0, &format!("every pair of transactions with <= {n} inputs of 3 kinds, <= {m} outputs of 3 kinds and <= 1 witness"), move |ch| {
            let one = |ch: &mut Ch| {
                let mut t = MTx::new(kind);
                if kind != Kind::Mint {
                    for _ in 0..n {
                        match ch.free(4) {
                            0 => break,
                            k => t.ins.push(def_in([0, 2, 3][k - 1], 1, [1, 2, 3])),
                        }
                    }
                    for _ in 0..ch.free(2) {
                        t.wit.push(vec![1]);
                    }
                }
                for _ in 0..m {
                    match ch.free(4) {
                        0 => break,
                        k => t.outs.push(def_out([0, 3, 4][k - 1], 1)),
                    }
                }
                t
            };
            let (a, b) = (one(ch), one(ch));
            ch.state(&(&a, &b));
            eq_tx(ch, &a, &b)
        }));
    }
    v.push(space("equal-kinds", 0, "every ordered pair of transactions of different kinds with the same common fields", |ch| {
        let (a, b) = (ch.of(&KINDS), ch.of(&KINDS));
        let full = ch.flag();
        let mk = |k| if full { rich(k) } else { MTx::new(k) };
        let (a, b) = (mk(a), mk(b));
        ch.state(&(&a, &b));
        eq_tx(ch, &a, &b)
    }));
    v.push(space("equal-elements", d, &format!("two inputs, outputs, slots, UTXO ids, pointers or witnesses deviating from the same one, all combinations of <= {d} field changes over both"), |ch| {
        let k = ch.free(ELEMS);
        let (a, b) = (dev_elem(ch, def_elem(k)), dev_elem(ch, def_elem(k)));
        ch.state(&(&a, &b));
        eq_elem(ch, &a, &b)
    }));
    v.push(space("equal-element-kinds", 1, "two UTXO ids, pointers, slots, witnesses, inputs or outputs of any kinds, <= 1 change", |ch| {
        let (a, b) = (ch.free(ELEMS), ch.free(ELEMS));
        let (a, b) = (dev_elem(ch, def_elem(a)), dev_elem(ch, def_elem(b)));
        ch.state(&(&a, &b));
        eq_elem(ch, &a, &b)
    }));
    v.push(space("equal-across-kinds", 1, "every pair of kinds of inputs, outputs and receipts given the same values for the fields they share, <= 1 change", |ch| {
        match ch.free(3) {
            0 => {
                let mk = |k: usize| {
                    let (utxo, x, y, z, ptr) = ((pat(1, 1), 3u8), pat(2, 1), pat(3, 1), pat(4, 1), (7u32, 9u16));
                    match k {
                        0 => MIn::CoinS { utxo, owner: x, amount: 5, asset: y, ptr, wi: 0, mat: 4 },
                        1 => MIn::CoinP { utxo, owner: x, amount: 5, asset: y, ptr, mat: 4, pred: vec![], pdata: vec![] },
                        2 => MIn::Con { utxo, bal: x, st: y, ptr, cid: z },
                        3 => MIn::MsgS { mid: z, sender: x, rec: y, amount: 5, nonce: 4, wi: 0, data: vec![1] },
                        _ => MIn::MsgP { mid: z, sender: x, rec: y, amount: 5, nonce: 4, data: vec![1], pred: vec![], pdata: vec![] },
                    }
                };
                let (a, b) = (ch.free(IN_KINDS), ch.free(IN_KINDS));
                let (a, b) = (Elem::In(dev_in(ch, mk(a))), Elem::In(dev_in(ch, mk(b))));
                ch.state(&(&a, &b));
                eq_elem(ch, &a, &b)
            }
            1 => {
                let mk = |k: usize| {
                    let (x, y) = (pat(2, 1), pat(3, 1));
                    match k {
                        0 => MOut::Coin { to: x, amount: 5, asset: y },
                        1 => MOut::Con { idx: 5, bal: x, st: y },
                        2 => MOut::Msg { rec: x, amount: 5 },
                        3 => MOut::Change { to: x, amount: 5, asset: y },
                        4 => MOut::Var { to: x, amount: 5, asset: y },
                        _ => MOut::Created { cid: x, st: y },
                    }
                };
                let (a, b) = (ch.free(OUT_KINDS), ch.free(OUT_KINDS));
                let (a, b) = (Elem::Out(dev_out(ch, mk(a))), Elem::Out(dev_out(ch, mk(b))));
                ch.state(&(&a, &b));
                eq_elem(ch, &a, &b)
            }
            _ => {
                let (a, b) = (ch.free(RC_KINDS), ch.free(RC_KINDS));
                let mk = |k: usize| {
                    let mut r = def_rc(k, 5);
                    let (mut nb, mut nw) = (0, 0);
                    for f in &mut r.f {
                        match f {
                            crate::receipts::F::B(x) => {
                                *x = pat(0x21 + nb, 1);
                                nb += 1
                            }
                            crate::receipts::F::W(x) => {
                                *x = if k == 3 && nw == 0 { *x } else { 0x0b00_0000_0000_0000 + nw };
                                nw += 1
                            }
                            _ => {}
                        }
                    }
                    r
                };
                let (a, b) = (dev_rc(ch, mk(a), &[]), dev_rc(ch, mk(b), &[]));
                ch.state(&(&a, &b));
                eq_case(ch, &r_rc(&a), &r_rc(&b), a == b)
            }
        }
    }));
    let pw = panic_words();
    v.push(space("equal-receipts", d, &format!("two receipts of one kind, all combinations of <= {d} field changes over both; pairs of kinds; the contract a panic names is no part of it"), move |ch| {
        let (k, l) = (ch.free(RC_KINDS), ch.free(RC_KINDS + 1));
        let pw = &pw[..pw.len().min(12)];
        let l = if l == 0 { k } else { l - 1 };
        let (a, b) = (dev_rc(ch, def_rc(k, 5), pw), dev_rc(ch, def_rc(l, 5), pw));
        ch.state(&(&a, &b));
        let (x, y) = (r_rc(&a), r_rc(&b));
        ensure!(m_rc(&x) == a, "receipt {a:?} is {x:?}");
        eq_case(ch, &x, &y, a == b)?;
        if k == 3 {
            let c = x.clone().with_panic_contract_id(Some(cid(&pat(0x65, 1))));
            ensure!((c == y) == (a == b) && std_hash(&c) == std_hash(&x), "equality of {x:?} depends on the contract a panic names");
        }
        Ok(())
    }));
    v.push(space("order-utxo", 0, "every ordered pair of UTXO ids over boundary bytes x indices", |ch| {
        let ids = ids();
        let idx = [0u8, 1, 0x7f, 0x80, 0xff];
        let (a, b) = ((ch.of(&ids), ch.of(&idx)), (ch.of(&ids), ch.of(&idx)));
        ch.state(&(a, b));
        order(ch, &r_utxo(&a), &r_utxo(&b), a.cmp(&b))?;
        let mut u = r_utxo(&a);
        u.replace_tx_id(b32(&b.0));
        ensure!(m_utxo(&u) == (b.0, a.1), "replace_tx_id gave {u:?}");
        Ok(())
    }));
    v.push(space("order-pointer", 0, "every ordered pair of transaction pointers over boundary heights x indices", |ch| {
        let (a, b) = ((ch.of(&HEIGHTS), ch.of(&INDICES)), (ch.of(&HEIGHTS), ch.of(&INDICES)));
        ch.state(&(a, b));
        order(ch, &r_ptr(&a), &r_ptr(&b), a.cmp(&b))
    }));
    v.push(space("order-slot", 0, "every ordered pair of storage slots over boundary keys x values: by key alone", |ch| {
        let ids = ids();
        let vals = [Z, [0xff; 32], pat(0x32, 1)];
        let (a, b) = ((ch.of(&ids), ch.of(&vals)), (ch.of(&ids), ch.of(&vals)));
        ch.state(&(a, b));
        order(ch, &r_slot(&a), &r_slot(&b), a.0.cmp(&b.0))
    }));
    v.push(space("numbers", 0, "every number up to 600 and around every power of two as a kind of transaction, input, output and script result", |ch| {
        let n = numbers();
        let w = n[ch.free(n.len())];
        ch.state(&w);
        kind_number(ch, w)
    }));
    v.push(space("kinds", 0, "the number of every element kind against the word its encoding starts with", |ch| {
        let k = ch.free(3 + IN_KINDS + OUT_KINDS);
        ch.state(&k);
        let (got, enc) = if k < 3 {
            let t = rich(KINDS[k]);
            (TransactionRepr::from(&r_tx(&t)) as u64, enc_tx(&t))
        } else if k < 3 + IN_KINDS {
            let x = def_in(k - 3, 1, [1, 2, 3]);
            let r = r_in(&x);
            ensure!(InputRepr::from(&r) == InputRepr::from_input(&r) && r.repr() == InputRepr::from(&r), "kind of {r:?}");
            (InputRepr::from(&r) as u64, enc_in(&x).b)
        } else {
            let x = def_out(k - 3 - IN_KINDS, 1);
            let mut r = r_out(&x);
            let a = OutputRepr::from(&mut r);
            ensure!(a == OutputRepr::from(&r) && a == OutputRepr::from_output(&r) && a == r.repr(), "kind of {r:?}");
            (a as u64, enc_out(&x).b)
        };
        ensure_eq!(got.to_be_bytes()[..], enc[..8], "kind number");
        ch.step(3);
        ch.traced();
        ch.outcome("kind");
        Ok(())
    }));
    v.push(space("slot-bytes", 0, "64 bytes as a slot and back: every pair of positions x boundary bytes over two fillings", |ch| {
        let fill = ch.flag();
        let mut raw = [0u8; 64];
        if fill {
            for (i, b) in raw.iter_mut().enumerate() {
                *b = 0x80 ^ i as u8;
            }
        }
        let (i, j) = (ch.free(64), ch.free(64));
        raw[i] = ch.of(&[0u8, 1, 0x80, 0xff]);
        raw[j] ^= ch.of(&[0u8, 1, 0xff]);
        ch.state(&&raw[..]);
        slot_bytes(ch, raw)
    }));
    let hi = if th { 4200 } else { 1100 };
    v.push(space("bytes", 0, &format!("witnesses and contracts of 0..={hi} bytes through every conversion; all contents of <= 2 bytes"), move |ch| {
        let d = match ch.free(3) {
            0 => bytes(0x71, ch.free(hi + 1)),
            1 => vec![ch.free(256) as u8],
            _ => vec![ch.free(256) as u8, ch.free(256) as u8],
        };
        ch.state(&d);
        byte_holders(ch, &d)
    }));
    v.push(space("defaults", 0, "the default value of every type", |ch| {
        ch.state(&1u8);
        defaults(ch)
    }));
    v
}
