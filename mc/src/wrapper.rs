//! C15 what a `Checked` wrapper carries, through histories of conversions and checks.
use crate::auth::{auth_rules, authorise, own, params, sign, signed_rich};
use crate::corpus::*;
use crate::explore::*;
use crate::fee::*;
use crate::model::*;
use crate::money::accounts;
use crate::valid::{brief, judge, params0, rich_valid, rules, LONG, MANY};
use crate::wire::*;
use crate::{ensure, ensure_eq};
use fuel_tx::field::{Script as _, TxPointer as _, *};
use fuel_tx::{Cacheable, CheckError as E, Checkable, Checked, CheckedMetadata, CheckedTransaction, ConsensusParameters as P, Create, IntoChecked, Mint, Script, Transaction, UniqueIdentifier};
use std::borrow::Borrow;
use std::collections::BTreeMap;

/// The transaction `t`, with the metadata of a different one left in it.
pub fn with_stale_cache(t: &MTx) -> Transaction {
    let mut o = t.clone();
    o.price ^= 1;
    o.ptr.0 ^= 1;
    o.ins.insert(0, def_in(4, 3, [9, 9, 9]));
    o.outs.insert(0, def_out(0, 3));
    o.wit.insert(0, bytes(3, 40));
    o.script.extend([7; 24]);
    o.slots.push((pat(1, 7), pat(2, 7)));
    let mut tx = r_tx(&o);
    tx.precompute();
    match (&mut tx, r_tx(t)) {
        (Transaction::Script(a), Transaction::Script(b)) => {
            *a.gas_price_mut() = *b.gas_price();
            *a.inputs_mut() = b.inputs().clone();
            *a.outputs_mut() = b.outputs().clone();
            *a.witnesses_mut() = b.witnesses().clone();
            *a.script_mut() = b.script().clone();
        }
        (Transaction::Create(a), Transaction::Create(b)) => {
            *a.gas_price_mut() = *b.gas_price();
            *a.inputs_mut() = b.inputs().clone();
            *a.outputs_mut() = b.outputs().clone();
            *a.witnesses_mut() = b.witnesses().clone();
            *a.storage_slots_mut() = b.storage_slots().clone();
        }
        (Transaction::Mint(a), Transaction::Mint(b)) => {
            *a.tx_pointer_mut() = *b.tx_pointer();
            *a.outputs_mut() = b.outputs().clone();
        }
        _ => unreachable!(),
    }
    tx
}
/// What the model says about a transaction at a height.
struct Judgement {
    basic: Vec<E>,
    auth: Vec<E>,
    left: BTreeMap<B32, u128>,
    fee: Option<MFee>,
}
fn judgement(t: &MTx, h: u64, p: &P) -> Judgement {
    let mut basic = rules(t, h, p);
    let auth = auth_rules(t, &model_id(t));
    if t.kind == Kind::Mint {
        return Judgement { basic, auth, left: BTreeMap::new(), fee: None };
    }
    let a = accounts(t, p);
    basic.extend(a.fails);
    Judgement { basic, auth, left: a.left, fee: a.fee }
}
fn meta(m: &CheckedMetadata, t: &MTx, h: u64, j: &Judgement) -> R {
    let (b, hh, f) = match (m, t.kind) {
        (CheckedMetadata::Script(m), Kind::Script) => (&m.initial_free_balances, m.block_height, m.fee),
        (CheckedMetadata::Create(m), Kind::Create) => (&m.initial_free_balances, m.block_height, m.fee),
        (CheckedMetadata::Mint(()), Kind::Mint) => return Ok(()),
        _ => return Err(format!("metadata of another kind for {}", brief(t)).into()),
    };
    ensure_eq!(hh, h, "height in the metadata");
    judge_fee("fee in the metadata", Some(f), Fee::Exact(j.fee.unwrap()))?;
    let got: BTreeMap<B32, u128> = b.iter().map(|(k, v)| (**k, *v as u128)).collect();
    ensure!(got == j.left, "balances {got:?}, expected {:?}: {}", j.left, brief(t));
    Ok(())
}
/// Everything visible on a wrapper.
fn look<T>(c: &Checked<T>, t: &MTx, h: u64, j: &Judgement, bits: u32) -> R
where
    T: IntoChecked + Cacheable + UniqueIdentifier + Into<Transaction> + Clone + PartialEq + std::fmt::Debug,
    T::Metadata: Clone + Into<CheckedMetadata>,
{
    let tx = c.transaction();
    let g: Transaction = tx.clone().into();
    ensure!(m_tx(&g) == *t, "wrapper holds {:?}, given {t:?}", m_tx(&g));
    ensure!(tx.is_computed(), "no metadata in the wrapped transaction: {}", brief(t));
    ensure_eq!(*tx.id(), model_id(t), "id of the wrapped {}", brief(t));
    offsets_equal(&r_tx(t), &g)?;
    ensure_eq!(c.checks().bits(), bits, "recorded checks of {}", brief(t));
    let r: &T = c.as_ref();
    let b: &T = c.borrow();
    ensure!(r == tx && b == tx, "as_ref / borrow differ from transaction()");
    meta(&c.metadata().clone().into(), t, h, j)
}
fn look_ct(c: &CheckedTransaction, t: &MTx, h: u64, j: &Judgement, bits: u32) -> R {
    match (c, t.kind) {
        (CheckedTransaction::Script(c), Kind::Script) => look(c, t, h, j, bits),
        (CheckedTransaction::Create(c), Kind::Create) => look(c, t, h, j, bits),
        (CheckedTransaction::Mint(c), Kind::Mint) => look(c, t, h, j, bits),
        _ => Err(format!("kind changed: {}", brief(t)).into()),
    }
}
fn same_err(what: &str, e: &E, f: &E, t: &MTx) -> R {
    ensure!(e == f, "{what}: generic type says {e:?}, specific type {f:?}: {}", brief(t));
    Ok(())
}
/// Through the other wrapper types: nothing visible changes.
fn there_and_back<T: IntoChecked>(c: Checked<T>, t: &MTx, h: u64, j: &Judgement, bits: u32) -> R
where
    CheckedTransaction: From<Checked<T>>,
{
    let d = CheckedTransaction::from(c);
    look_ct(&d, t, h, j, bits)?;
    let g: Checked<Transaction> = d.into();
    look(&g, t, h, j, bits)?;
    look_ct(&g.into(), t, h, j, bits)
}
/// Both ways in (generic, specific), both levels, from one raw transaction.
fn from_raw<T>(ch: &mut Ch, raw: &T, t: &MTx, h: u64, p: &P, j: &Judgement) -> Result<(Option<E>, Option<E>, Option<E>), Fail>
where
    T: IntoChecked + Cacheable + UniqueIdentifier + Into<Transaction> + Clone + PartialEq + std::fmt::Debug,
    T::Metadata: Clone + Into<CheckedMetadata> + PartialEq,
    CheckedTransaction: From<Checked<T>>,
{
    let b = raw.clone().into_checked_basic(h, p);
    judge("into_checked_basic", &b.as_ref().map(|_| ()).map_err(|e| e.clone()), &j.basic, t, h, p)?;
    let f = raw.clone().into_checked(h, p);
    let mut all = j.basic.clone();
    all.extend(j.auth.iter().cloned());
    judge("into_checked", &f.as_ref().map(|_| ()).map_err(|e| e.clone()), &all, t, h, p)?;
    ch.step(2);
    let mut sig_err = None;
    if let Ok(c) = &b {
        look(c, t, h, j, 1)?;
        match c.clone().check_signatures() {
            Err(e) => {
                ensure!(j.auth.contains(&e), "check_signatures refused with {e:?}, violated {:?}: {}", j.auth, brief(t));
                sig_err = Some(e);
            }
            Ok(s) => {
                ensure!(j.auth.is_empty(), "check_signatures accepted although {:?}: {}", j.auth, brief(t));
                look(&s, t, h, j, 3)?;
                there_and_back(s.clone(), t, h, j, 3)?;
                let s2 = s.clone().check_signatures();
                match s2 {
                    Ok(s2) => look(&s2, t, h, j, 3)?,
                    Err(e) => return Err(format!("a second signature check failed with {e:?}").into()),
                }
                ch.step(1);
            }
        }
        let (tx, m): (T, T::Metadata) = c.clone().into();
        ensure!(tx == *c.transaction() && m == *c.metadata(), "parts differ from the wrapper");
        there_and_back(c.clone(), t, h, j, 1)?;
        ch.step(4);
    }
    if let Ok(c) = &f {
        look(c, t, h, j, 3)?;
    }
    Ok((b.err(), f.err(), sig_err))
}
pub fn c15_tx(ch: &mut Ch, t: &MTx, h: u64, p: &P, variants: usize) -> R {
    let j = judgement(t, h, p);
    for v in 0..variants {
        let raw = match v {
            0 => r_tx(t),
            1 => with_stale_cache(t),
            _ => {
                let mut x = r_tx(t);
                x.precompute();
                x
            }
        };
        let g = from_raw(ch, &raw, t, h, p, &j)?;
        let s = match &raw {
            Transaction::Script(x) => from_raw(ch, x, t, h, p, &j)?,
            Transaction::Create(x) => from_raw(ch, x, t, h, p, &j)?,
            Transaction::Mint(x) => from_raw(ch, x, t, h, p, &j)?,
        };
        for (what, a, b) in [("into_checked_basic", &g.0, &s.0), ("into_checked", &g.1, &s.1), ("check_signatures", &g.2, &s.2)] {
            if let (Some(a), Some(b)) = (a, b) {
                same_err(what, a, b, t)?;
            }
        }
    }
    ch.traced();
    ch.outcome(match (j.basic.is_empty(), j.auth.is_empty()) {
        (true, true) => "fully checked",
        (true, false) => "basic only",
        (false, _) => "refused",
    });
    ch.sample(|| format!("violated {:?} {:?}: {}", j.basic, j.auth, brief(t)));
    Ok(())
}

// ------------------------------------------------------------------------------------- histories
#[derive(Clone)]
enum W {
    G(Transaction),
    S(Script),
    C(Create),
    M(Mint),
    CG(Checked<Transaction>),
    CS(Checked<Script>),
    CC(Checked<Create>),
    CM(Checked<Mint>),
    CT(CheckedTransaction),
}
/// Starting transactions: authorised or not, valid or not, at height 7.
fn pool(kind: Kind, k: usize) -> (MTx, u64) {
    if kind == Kind::Mint {
        let mut t = MTx::new(Kind::Mint);
        t.ptr = (7, 3);
        t.outs = vec![MOut::Coin { to: pat(1, 1), amount: 5, asset: pat(2, 2) }, MOut::Coin { to: pat(1, 1), amount: 5, asset: Z }];
        match k {
            1 => t.ptr.0 = 8,
            2 => t.outs.push(t.outs[0].clone()),
            3 => t.outs.push(MOut::Msg { rec: Z, amount: 1 }),
            4 => t.outs.clear(),
            _ => {}
        }
        return (t, 7);
    }
    let mut t = signed_rich(kind);
    match k {
        0 => {}
        1 => t.wit[2] = vec![],                               // one signature missing
        2 => t.mat = 8,                                       // not yet mature
        3 => t.outs.push(MOut::Coin { to: Z, amount: u64::MAX, asset: Z }), // cannot be covered
        _ => {
            if let MIn::CoinP { owner, .. } = &mut t.ins[1] {
                *owner = own(0)
            }
        }
    }
    if k >= 2 {
        let id = model_id(&t);
        t.wit[1] = sign(0, &id);
        t.wit[2] = sign(1, &id);
    }
    (t, 7)
}
const OPS: usize = 9;
fn history(ch: &mut Ch, kind: Kind, depth: usize) -> R {
    let p = params();
    let (mut t, h) = pool(kind, ch.free(5));
    let mut w = match ch.free(3) {
        0 => W::G(r_tx(&t)),
        1 => W::G(with_stale_cache(&t)),
        _ => match r_tx(&t) {
            Transaction::Script(x) => W::S(x),
            Transaction::Create(x) => W::C(x),
            Transaction::Mint(x) => W::M(x),
        },
    };
    let mut j = judgement(&t, h, &p);
    let mut bits = 0u32;
    let mut hist = vec![];
    for _ in 0..depth {
        let op = ch.free(OPS);
        hist.push(op);
        ch.step(1);
        if op == 0 {
            break;
        }
        macro_rules! enter {
            ($x:expr, $f:ident, $to:ident) => {
                match $x.$f(h, &p) {
                    Ok(c) => {
                        let mut all = j.basic.clone();
                        if op == 2 {
                            all.extend(j.auth.iter().cloned());
                        }
                        ensure!(all.is_empty(), "history {hist:?}: accepted although {all:?}: {}", brief(&t));
                        bits = if op == 2 { 3 } else { 1 };
                        W::$to(c)
                    }
                    Err(e) => {
                        ensure!(j.basic.contains(&e) || (op == 2 && j.auth.contains(&e)), "history {hist:?}: refused with {e:?}, violated {:?} {:?}: {}", j.basic, j.auth, brief(&t));
                        ch.outcome("refused");
                        ch.traced();
                        return Ok(());
                    }
                }
            };
        }
        macro_rules! sigs {
            ($x:expr, $to:ident) => {
                match $x.check_signatures() {
                    Ok(c) => {
                        // a check that is recorded already is not required again
                        ensure!(j.auth.is_empty(), "history {hist:?}: signatures accepted although {:?}: {}", j.auth, brief(&t));
                        bits = 3;
                        W::$to(c)
                    }
                    Err(e) => {
                        ensure!(j.auth.contains(&e), "history {hist:?}: signatures refused with {e:?}, violated {:?}: {}", j.auth, brief(&t));
                        ch.outcome("signatures refused");
                        ch.traced();
                        return Ok(());
                    }
                }
            };
        }
        w = match (op, w) {
            (1, W::G(x)) => enter!(x, into_checked_basic, CG),
            (1, W::S(x)) => enter!(x, into_checked_basic, CS),
            (1, W::C(x)) => enter!(x, into_checked_basic, CC),
            (1, W::M(x)) => enter!(x, into_checked_basic, CM),
            (2, W::G(x)) => enter!(x, into_checked, CG),
            (2, W::S(x)) => enter!(x, into_checked, CS),
            (2, W::C(x)) => enter!(x, into_checked, CC),
            (2, W::M(x)) => enter!(x, into_checked, CM),
            (3, W::CG(x)) => sigs!(x, CG),
            (3, W::CS(x)) => sigs!(x, CS),
            (3, W::CC(x)) => sigs!(x, CC),
            (3, W::CM(x)) => sigs!(x, CM),
            // generic to sum type, sum type to specific, specific to sum type, sum type to generic
            (4, W::CG(x)) => W::CT(x.into()),
            (4, W::CS(x)) => W::CT(x.into()),
            (4, W::CC(x)) => W::CT(x.into()),
            (4, W::CM(x)) => W::CT(x.into()),
            (4, W::CT(x)) => W::CG(x.into()),
            (5, W::CT(CheckedTransaction::Script(x))) => W::CS(x),
            (5, W::CT(CheckedTransaction::Create(x))) => W::CC(x),
            (5, W::CT(CheckedTransaction::Mint(x))) => W::CM(x),
            // apart again: the raw transaction, with the metadata cache it had
            (6, W::CG(x)) => {
                let (tx, m): (Transaction, CheckedMetadata) = x.into();
                meta(&m, &t, h, &j)?;
                bits = 0;
                W::G(tx)
            }
            (6, W::CS(x)) => {
                let (tx, m): (Script, _) = x.into();
                meta(&CheckedMetadata::Script(m), &t, h, &j)?;
                bits = 0;
                W::S(tx)
            }
            (6, W::CC(x)) => {
                let (tx, m): (Create, _) = x.into();
                meta(&CheckedMetadata::Create(m), &t, h, &j)?;
                bits = 0;
                W::C(tx)
            }
            (6, W::CM(x)) => {
                let (tx, m): (Mint, _) = x.into();
                meta(&CheckedMetadata::Mint(m), &t, h, &j)?;
                bits = 0;
                W::M(tx)
            }
            // tamper with the raw transaction behind its cache's back: a committed field
            (7, W::G(mut x)) => {
                match &mut x {
                    Transaction::Script(s) => *s.gas_limit_mut() = t.limit + 1,
                    Transaction::Create(s) => *s.gas_limit_mut() = t.limit + 1,
                    Transaction::Mint(s) => *s.tx_pointer_mut() = r_ptr(&(t.ptr.0, t.ptr.1 + 1)),
                }
                if kind == Kind::Mint {
                    t.ptr.1 += 1;
                } else {
                    t.limit += 1;
                }
                j = judgement(&t, h, &p);
                W::G(x)
            }
            (7, W::S(mut x)) => {
                *x.gas_limit_mut() = t.limit + 1;
                t.limit += 1;
                j = judgement(&t, h, &p);
                W::S(x)
            }
            (7, W::C(mut x)) => {
                *x.gas_limit_mut() = t.limit + 1;
                t.limit += 1;
                j = judgement(&t, h, &p);
                W::C(x)
            }
            // break the balance or the pointer
            (8, W::G(mut x)) => {
                let o = MOut::Msg { rec: Z, amount: 1 };
                match &mut x {
                    Transaction::Script(s) => *s.maturity_mut() = 8,
                    Transaction::Create(s) => *s.maturity_mut() = 8,
                    Transaction::Mint(s) => s.outputs_mut().push(r_out(&o)),
                }
                if kind == Kind::Mint {
                    t.outs.push(o);
                } else {
                    t.mat = 8;
                }
                j = judgement(&t, h, &p);
                W::G(x)
            }
            _ => return Ok(()), // does not apply here
        };
    }
    match &w {
        W::CG(c) => look(c, &t, h, &j, bits)?,
        W::CS(c) => look(c, &t, h, &j, bits)?,
        W::CC(c) => look(c, &t, h, &j, bits)?,
        W::CM(c) => look(c, &t, h, &j, bits)?,
        W::CT(c) => look_ct(c, &t, h, &j, bits)?,
        W::G(x) => ensure!(m_tx(x) == t, "history {hist:?}: raw transaction differs"),
        W::S(x) => ensure!(m_script(x) == t, "history {hist:?}: raw transaction differs"),
        W::C(x) => ensure!(m_create(x) == t, "history {hist:?}: raw transaction differs"),
        W::M(x) => ensure!(m_mint(x) == t, "history {hist:?}: raw transaction differs"),
    }
    // a clone is the same wrapper
    if let W::CG(c) = &w {
        ensure!(c.clone() == *c, "clone differs");
    }
    ch.state(&(&t, bits, std::mem::discriminant(&w)));
    ch.traced();
    ch.outcome(match bits {
        0 => "raw",
        1 => "basic",
        _ => "basic and signatures",
    });
    ch.sample(|| format!("history {hist:?} bits {bits} {}", brief(&t)));
    Ok(())
}
/// The wrappers a builder hands out are ones that checking its transaction gives; otherwise it panics.
macro_rules! built {
    ($ch:expr, $b:expr, $h:expr, $p:expr, $full:expr, $kind:ident) => {{
        let (ch, mut b) = ($ch, $b);
        let raw = b.clone().finalize();
        let t = m_tx(&Transaction::$kind(raw));
        let (h, p, full) = ($h, $p, $full);
        ch.state(&(&t, h, full));
        ch.step(2);
        let j = judgement(&t, h, &p);
        let mut all = j.basic.clone();
        if full {
            all.extend(j.auth.iter().cloned());
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if full { b.finalize_checked(h, &p) } else { b.finalize_checked_basic(h, &p) }));
        match r {
            Ok(c) => {
                ensure!(all.is_empty(), "the builder gave a wrapper (full {full}) although {all:?}: {}", brief(&t));
                look(&c, &t, h, &j, if full { 3 } else { 1 })?;
                ch.outcome(if full { "fully checked" } else { "basic" });
            }
            Err(_) => {
                ensure!(!all.is_empty(), "the builder refused (full {full}) a valid transaction at height {h}: {}", brief(&t));
                ch.outcome("refused");
            }
        }
        ch.traced();
        ch.sample(|| format!("height {h} full {full} violated {all:?}: {}", brief(&t)));
        Ok(())
    }};
}
fn build_up<T: fuel_tx::Buildable>(ch: &mut Ch, b: &mut fuel_tx::TransactionBuilder<T>) {
    b.gas_price(ch.dev(&[1, 0, 1 << 40])).gas_limit(ch.dev(&[10, 11])).maturity(ch.dev(&[7, 0, 8, 1, u64::MAX]));
    let utxo = |n: u8| r_utxo(&(pat(n, 1), n));
    let a = ch.dev(&[5_000, 0, 2]);
    b.add_unsigned_coin_input(crate::auth::key(0), utxo(1), a, asset(&Z), r_ptr(&(1, 2)), 0);
    if ch.dev(&[false, true]) {
        b.add_unsigned_message_input(crate::auth::key(1), addr(&pat(6, 6)), 3, [7, u64::MAX][ch.free(2)], bytes(3, 9));
    }
    match ch.dev(&[0, 1, 2, 3, 4, 5, 6]) {
        1 => drop(b.add_input(r_in(&crate::auth::coin_p(crate::commit::code_root(&[1, 2]), vec![1, 2], 5)))),
        2 => drop(b.add_input(r_in(&crate::auth::coin_p(own(0), vec![1, 2], 5)))),
        // a signed input of a key that the builder was not given, in a slot of its own or another's
        3 => drop(b.add_input(r_in(&crate::auth::coin_s(own(2), 0, 5)))),
        4 => drop(b.add_input(r_in(&crate::auth::coin_s(own(0), 9, 5)))),
        5 => drop(b.add_input(r_in(&crate::auth::con(5)))),
        6 => drop(b.add_unsigned_coin_input(crate::auth::key(1), utxo(1), 5, asset(&Z), r_ptr(&(1, 2)), 0)),
        _ => {}
    }
}
fn build_out(ch: &mut Ch) -> Vec<fuel_tx::Output> {
    let coin = |amount, a: B32| MOut::Coin { to: pat(1, 1), amount, asset: a };
    let v = match ch.dev(&[0, 1, 2, 3, 4, 5, 6, 7, 8]) {
        0 => vec![],
        1 => vec![coin(3, Z)],
        2 => vec![coin(u64::MAX, Z)],
        3 => vec![coin(3, pat(2, 2))],
        4 => vec![def_out(3, 1), def_out(3, 1)],
        5 => vec![MOut::Created { cid: pat(5, 5), st: pat(6, 6) }],
        6 => vec![MOut::Con { idx: 1, bal: Z, st: Z }],
        7 => vec![MOut::Var { to: Z, amount: 0, asset: Z }],
        _ => vec![MOut::Change { to: Z, amount: 0, asset: Z }, MOut::Msg { rec: Z, amount: 0 }],
    };
    v.iter().map(r_out).collect()
}
fn small(ch: &mut Ch) -> P {
    let mut p = params();
    p.gas_price_factor = ch.dev(&[100, 1]);
    match ch.dev(&[0, 1, 2, 3, 4]) {
        1 => p.max_gas_per_tx = 10,
        2 => p.max_inputs = 1,
        3 => p.max_script_length = 2,
        4 => p.contract_max_size = 11,
        _ => {}
    }
    p
}
fn builder_wrappers(d: u32) -> Vec<Space> {
    use fuel_tx::TransactionBuilder as B;
    let what = format!("a builder with a keyed coin, every combination of <= {d} changes (price, limit, maturity, amounts, one more input, outputs of each kind, limits), heights 0, 1, 6..=8, 2^32, 2^64-1: the wrapper or the panic of finalize_checked and finalize_checked_basic against checking what finalize gives");
    vec![
        space("builder-Script", d, &what, |ch| {
            let (p, h, full) = (small(ch), ch.dev(&[7, 6, 8, 0, 1, 1 << 32, u64::MAX]), ch.flag());
            let mut b = B::<Script>::script(vec![1, 2, 3], vec![4]);
            build_up(ch, &mut b);
            for o in build_out(ch) {
                b.add_output(o);
            }
            built!(ch, b, h, p, full, Script)
        }),
        space("builder-Create", d, &what, |ch| {
            let (p, h, full) = (small(ch), ch.dev(&[7, 6, 8, 0, 1, 1 << 32, u64::MAX]), ch.flag());
            let slots = ch.dev(&[vec![], vec![(pat(1, 1), pat(2, 2)), (Z, Z)]]);
            let mut b = B::<Create>::create(r_wit(&bytes(1, 12)), pat(9, 9).into(), slots.iter().map(r_slot).collect());
            build_up(ch, &mut b);
            for o in build_out(ch) {
                b.add_output(o);
            }
            built!(ch, b, h, p, full, Create)
        }),
        space("builder-Mint", d, "a mint builder, pointer heights 0, 1, 7, 2^32-1, those and neighbouring and wrapped heights, outputs of each kind", |ch| {
            let (p, h, full) = (small(ch), ch.of(&[7, 6, 8, (1 << 32) + 7, 0, 1, 1 << 32, u32::MAX as u64, u64::MAX]), ch.flag());
            let mut b = B::<Mint>::mint(ch.of(&[7, 0, 1, u32::MAX]), 3);
            for o in build_out(ch) {
                b.add_output(o);
            }
            built!(ch, b, h, p, full, Mint)
        }),
    ]
}
/// One wrapper of a family whose members differ in one respect each, and what it stands for.
fn member(kind: Kind, k: usize) -> Option<(Checked<Transaction>, String)> {
    let full = k % 2 == 1;
    let mut p = params();
    let (mut t, mut h) = pool(kind, if kind == Kind::Mint { 4 } else { 0 });
    match k / 2 {
        0 | 1 => {} // twice the same
        2 if kind == Kind::Mint => t.ptr.1 ^= 1,
        2 => h += 1,
        3 if kind == Kind::Mint => t.outs.push(MOut::Coin { to: pat(1, 1), amount: 5, asset: Z }),
        3 => p.gas_price_factor /= 2,
        4 if kind != Kind::Mint => t.wit.push(vec![1]),
        5 if kind != Kind::Mint => p.max_inputs += 1, // leaves no trace
        6 if kind != Kind::Mint => t.limit -= 1,
        _ => return None,
    }
    if k / 2 == 6 {
        let id = model_id(&t);
        t.wit[1] = sign(0, &id);
        t.wit[2] = sign(1, &id);
    }
    let j = judgement(&t, h, &p);
    let tx = if k / 2 == 1 { with_stale_cache(&t) } else { r_tx(&t) };
    let c = if full { tx.into_checked(h, &p) } else { tx.into_checked_basic(h, &p) };
    let fee = j.fee.map(|f| format!("{f:?}"));
    Some((c.ok()?, format!("{:?}", (t, j.left, fee, (kind != Kind::Mint).then_some(h), full))))
}
fn same_wrapper<T: Clone + PartialEq + std::hash::Hash + std::fmt::Debug>(a: &T, b: &T, same: bool, ka: &str, kb: &str) -> R {
    ensure!((a == b) == same && (b == a) == same && (a != b) != same, "wrappers compare {} although they stand for {ka} and {kb}", a == b);
    ensure!(!same || std_hash(a) == std_hash(b), "equal wrappers hash differently: {ka}");
    let c = a.clone();
    ensure!(c == *a && std_hash(&c) == std_hash(a), "a clone differs: {ka}");
    Ok(())
}
fn pairs() -> Space {
    space("pairs", 0, "every two wrappers of a family differing in transaction, witness, height, fees or checks performed: equal exactly when all of these are, in all three forms", |ch| {
        let (ka, kb) = (ch.of(&KINDS), ch.of(&KINDS));
        let (i, j) = (ch.free(14), ch.free(14));
        let (Some((a, na)), Some((b, nb))) = (member(ka, i), member(kb, j)) else {
            ch.outcome("no such member");
            return Ok(());
        };
        ch.state(&(ka as u8, kb as u8, i, j));
        ch.step(3);
        let same = na == nb;
        same_wrapper(&a, &b, same, &na, &nb)?;
        let (ca, cb) = (CheckedTransaction::from(a), CheckedTransaction::from(b));
        same_wrapper(&ca, &cb, same, &na, &nb)?;
        match (&ca, &cb) {
            (CheckedTransaction::Script(a), CheckedTransaction::Script(b)) => same_wrapper(a, b, same, &na, &nb)?,
            (CheckedTransaction::Create(a), CheckedTransaction::Create(b)) => same_wrapper(a, b, same, &na, &nb)?,
            (CheckedTransaction::Mint(a), CheckedTransaction::Mint(b)) => same_wrapper(a, b, same, &na, &nb)?,
            _ => ensure!(!same, "same transaction, other kinds"),
        }
        ch.traced();
        ch.outcome(if same { "equal" } else { "different" });
        Ok(())
    })
}
/// Default wrappers are checked default transactions.
fn defaults() -> Space {
    space("defaults", 0, "the default wrapper of each kind that has one", |ch| {
        let p = P::default();
        fn go<T>(c: Checked<T>, t: MTx, p: &P) -> R
        where
            T: IntoChecked + Cacheable + UniqueIdentifier + Into<Transaction> + Clone + PartialEq + std::fmt::Debug,
            T::Metadata: Clone + Into<CheckedMetadata>,
        {
            let j = judgement(&t, 0, p);
            ensure!(j.basic.is_empty() && j.auth.is_empty(), "the default is not valid: {:?}", j.basic);
            look(&c, &t, 0, &j, 3)
        }
        match ch.free(3) {
            0 => go(Checked::<Script>::default(), m_tx(&Script::default().into()), &p)?,
            1 => go(Checked::<Mint>::default(), m_tx(&Mint::default().into()), &p)?,
            _ => go(Checked::<Transaction>::default(), m_tx(&Transaction::default()), &p)?,
        }
        ch.step(1);
        ch.traced();
        ch.outcome("default");
        Ok(())
    })
}
pub fn c15_spaces(th: bool) -> Vec<Space> {
    let mut v = builder_wrappers(if th { 5 } else { 3 });
    v.push(pairs());
    v.push(defaults());
    for kind in KINDS {
        let depth = if th { 8 } else { 6 };
        v.push(space(&format!("wrapper-histories-{kind:?}"), 0, &format!("every history of <= {depth} operations from {{basic check, full check, signature check, to/from the sum type, to the specific wrapper, take apart, tamper with a committed field, make invalid}} on 5 starting transactions (authorised, unauthorised, invalid, uncovered, wrong predicate owner) x {{no, stale}} cache x generic/specific"), move |ch| history(ch, kind, depth)));
        let d = if th { 2 } else { 1 };
        v.push(space(&format!("one-change-{kind:?}"), d, &format!("an authorised valid transaction with every element kind, every combination of <= {d} field changes: all ways in, no / stale / fresh cache"), move |ch| {
            let base = if kind == Kind::Mint { pool(kind, 0).0 } else { signed_rich(kind) };
            let t = dev_tx(ch, &base);
            ch.state(&t);
            c15_tx(ch, &t, 7, &params(), 3)
        }));
        v.push(space(&format!("rules-{kind:?}"), 2, "a valid transaction of another make, every combination of <= 2 field changes, small limits", move |ch| {
            let mut t = rich_valid(kind);
            if kind == Kind::Mint {
                t.outs.truncate(1);
            }
            if kind != Kind::Mint {
                t.mat = 1;
                t.limit = 10;
                t.price = 1;
            }
            let mut p = params0();
            p.gas_price_factor = 1 << 40;
            p.max_predicate_length = 40;
            p.max_predicate_data_length = 40;
            p.max_message_data_length = 40;
            p.max_script_length = 40;
            p.max_script_data_length = 40;
            p.contract_max_size = 70;
            let t = dev_tx(ch, &t);
            ch.state(&t);
            c15_tx(ch, &t, if kind == Kind::Mint { t.ptr.0 as u64 } else { 7 }, &p, 1)
        }));
        if kind != Kind::Mint {
            v.push(space(&format!("grown-{kind:?}"), if th { 1 } else { 0 }, &format!("a transaction with every element kind and any variable-length field of {LONG:?} bytes or any sort of element {MANY:?} times more, authorised throughout or but for one input{}; all ways in, no / stale / fresh cache", if th { ", and every single field change before that" } else { "" }), move |ch| {
                let mut t = signed_rich(kind);
                grow(ch, &mut t, &LONG, &MANY);
                let bad = match ch.free(3) {
                    0 => None,
                    1 => Some((t.ins.len() - 1, 0)),
                    _ => Some((0, 1)),
                };
                let mut t = dev_tx(ch, &t);
                authorise(&mut t, bad);
                ch.state(&t);
                c15_tx(ch, &t, 7, &params(), 3)
            }));
        }
        let (i, o) = if th { (3, 3) } else { (2, 2) };
        v.push(space(&format!("shapes-{kind:?}"), 0, &format!("all sequences of <= {i} inputs x <= {o} outputs x <= 1 witness, no and stale cache"), move |ch| {
            let (i, o) = if kind == Kind::Mint { (0, 4) } else { (i, o) };
            let mut t = shapes(ch, kind, i, o, 1);
            if kind != Kind::Mint {
                t.mat = 0;
                t.limit = 1;
                t.price = 1;
            }
            for x in &mut t.ins {
                if let MIn::CoinS { wi, asset, .. } = x {
                    *wi = 0;
                    *asset = Z;
                }
                if let MIn::MsgS { wi, .. } = x {
                    *wi = 0;
                }
            }
            for o in &mut t.outs {
                if let MOut::Coin { asset, .. } | MOut::Change { asset, .. } = o {
                    *asset = Z;
                }
                if let MOut::Con { idx, .. } = o {
                    *idx = 0;
                }
            }
            if kind == Kind::Create {
                t.slots.sort();
                t.bcwi = 0;
                t.bclen = t.wit.get(0).map_or(0, |w| w.len() as u64 / 4);
            }
            ch.state(&t);
            c15_tx(ch, &t, if kind == Kind::Mint { t.ptr.0 as u64 } else { 7 }, &params(), 2)
        }));
    }
    v
}
#[allow(dead_code)]
fn _u<T: Checkable>(_: T) {}
