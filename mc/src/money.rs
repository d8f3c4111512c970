//! C14 balances of a checked transaction against exact accounting.
use crate::auth::signed_rich;
use crate::corpus::*;
use crate::explore::*;
use crate::fee::*;
use crate::model::*;
use crate::valid::{brief, in_asset, params0, rules, LONG, MANY};
use crate::{ensure, ensure_eq};
use fuel_tx::{CheckError as E, CheckedMetadata, ConsensusParameters as P, IntoChecked, Transaction};
use std::collections::BTreeMap;

pub struct Acc {
    pub fails: Vec<E>,
    pub left: BTreeMap<B32, u128>,
    pub fee: Option<MFee>,
}
pub fn in_amount(x: &MIn) -> Option<u64> {
    match x {
        MIn::CoinS { amount, .. } | MIn::CoinP { amount, .. } | MIn::MsgS { amount, .. } | MIn::MsgP { amount, .. } => Some(*amount),
        MIn::Con { .. } => None,
    }
}
/// Unbounded accounting: everything that can make the check fail, and what is left when nothing does.
pub fn accounts(t: &MTx, p: &P) -> Acc {
    let mut fails = vec![];
    let mut left: BTreeMap<B32, u128> = BTreeMap::new();
    let m = u64::MAX as u128;
    for x in &t.ins {
        if let (Some(a), Some(n)) = (in_asset(x), in_amount(x)) {
            *left.entry(a).or_default() += n as u128;
        }
    }
    if left.values().any(|x| *x > m) {
        fails.push(E::ArithmeticOverflow);
    }
    let over: Vec<B32> = left.iter().filter(|(_, v)| **v > m).map(|(k, _)| *k).collect();
    let mut bare = t.clone();
    bare.wit.clear();
    let metered = enc_tx(&bare).len() as u64;
    let mut broke = over.clone();
    let base = left.entry(Z).or_default();
    let fee = match model_fee(p.gas_per_byte, metered, t.limit, t.price, p.gas_price_factor) {
        Fee::Exact(f) => {
            if f.total as u128 > *base {
                if !broke.contains(&Z) {
                    fails.push(E::InsufficientFeeAmount { expected: f.total, provided: *base as u64 });
                }
                broke.push(Z);
            } else {
                *base -= f.total as u128;
            }
            Some(f)
        }
        Fee::Refuse(_) => {
            fails.push(E::ArithmeticOverflow);
            broke.push(Z);
            None
        }
    };
    // outputs are served in order; only the first one that cannot be covered is a definite amount
    for o in &t.outs {
        if let MOut::Coin { amount, asset: a, .. } = o {
            if broke.contains(a) {
                continue;
            }
            match left.get_mut(a) {
                Some(b) if *b >= *amount as u128 => *b -= *amount as u128,
                Some(b) => {
                    fails.push(E::InsufficientInputAmount { asset: asset(a), expected: *amount, provided: *b as u64 });
                    broke.push(*a);
                }
                None => {} // not an input asset: a validity rule
            }
        }
    }
    Acc { fails, left, fee }
}
fn strip(e: &E) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
pub fn check_money(ch: &mut Ch, t: &MTx, h: u64, p: &P) -> R {
    let mut want = rules(t, h, p);
    let acc = accounts(t, p);
    want.extend(acc.fails.iter().cloned());
    let tx = r_tx(t);
    ch.traced();
    let (got_bal, got_h, got_fee, back): (BTreeMap<_, _>, u64, _, MTx);
    let generic = tx.clone().into_checked_basic(h, p);
    let res: Result<_, E> = match tx {
        Transaction::Script(s) => s.into_checked_basic(h, p).map(|c| {
            let m = c.metadata();
            (m.initial_free_balances.clone(), m.block_height, m.fee, m_script(c.transaction()))
        }),
        Transaction::Create(s) => s.into_checked_basic(h, p).map(|c| {
            let m = c.metadata();
            (m.initial_free_balances.clone(), m.block_height, m.fee, m_create(c.transaction()))
        }),
        Transaction::Mint(_) => return Ok(()),
    };
    ch.step(2);
    let ctx = || format!("height {h}, factor {}, gas per byte {}, {}", p.gas_price_factor, p.gas_per_byte, brief(t));
    match (&generic, &res) {
        (Err(a), Err(b)) => ensure!(a == b, "generic type names {a:?}, specific type {b:?}: {}", ctx()),
        (Ok(c), Ok(r)) => {
            let (b, hh, f) = match c.metadata() {
                CheckedMetadata::Script(m) => (&m.initial_free_balances, m.block_height, m.fee),
                CheckedMetadata::Create(m) => (&m.initial_free_balances, m.block_height, m.fee),
                CheckedMetadata::Mint(_) => return Err("mint metadata for another kind".into()),
            };
            ensure!(*b == r.0 && hh == r.1 && f == r.2, "generic metadata differs from the specific one: {}", ctx());
        }
        (a, b) => return Err(format!("generic verdict {:?}, specific verdict {:?}: {}", a.as_ref().err(), b.as_ref().err(), ctx()).into()),
    }
    match res {
        Err(e) => {
            ensure!(!want.is_empty(), "refused with {e:?} although every asset covers fee and outputs: {}", ctx());
            ensure!(want.contains(&e), "failed naming {e:?}, which is not the case (what fails: {want:?}): {}", ctx());
            ch.outcome(&strip(&e));
            return Ok(());
        }
        Ok(x) => (got_bal, got_h, got_fee, back) = x,
    }
    ensure!(want.is_empty(), "accepted although {want:?}: {}", ctx());
    ensure!(back == *t, "the checked transaction is not the one given: {}", ctx());
    ensure_eq!(got_h, h, "block height of the metadata");
    judge_fee("fee in the metadata", Some(got_fee), Fee::Exact(acc.fee.unwrap()))?;
    let got: BTreeMap<B32, u128> = got_bal.iter().map(|(k, v)| (**k, *v as u128)).collect();
    ensure!(got == acc.left, "balances {got:?}, exact accounting {:?}: {}", acc.left, ctx());
    ch.outcome("valid");
    ch.sample(|| format!("{:?} left, fee {:?}: {t:?}", acc.left, acc.fee));
    Ok(())
}
const BIGS: [u64; 7] = [0, 1, 9, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX];
fn aid(k: usize) -> B32 {
    [Z, pat(0x71, 1), pat(0x72, 1), [0xff; 32]][k]
}
fn head(kind: Kind) -> MTx {
    let mut t = MTx::new(kind);
    t.wit = vec![bytes(1, 8)];
    if kind == Kind::Create {
        t.bclen = 2;
    }
    t
}
fn coin(i: usize, a: usize, n: u64, pred: bool) -> MIn {
    let utxo = (pat(0x10, i), i as u8);
    if pred {
        MIn::CoinP { utxo, owner: pat(9, 1), amount: n, asset: aid(a), ptr: (0, 0), mat: 0, pred: vec![1; i + 1], pdata: vec![2] }
    } else {
        MIn::CoinS { utxo, owner: pat(9, 1), amount: n, asset: aid(a), ptr: (0, 0), wi: 0, mat: 0 }
    }
}
fn msg(i: usize, n: u64, pred: bool) -> MIn {
    if pred {
        MIn::MsgP { mid: pat(0x20, i), sender: Z, rec: Z, amount: n, nonce: 0, data: vec![1; i], pred: vec![1], pdata: vec![] }
    } else {
        MIn::MsgS { mid: pat(0x20, i), sender: Z, rec: Z, amount: n, nonce: 0, wi: 0, data: vec![] }
    }
}
fn fee_params(gpb: u64, factor: u64) -> P {
    P { max_gas_per_tx: u64::MAX, max_inputs: 300, max_outputs: 300, gas_per_byte: gpb, gas_price_factor: factor, ..params0() }
}
/// No limit in the way.
fn roomy() -> P {
    let n = 1 << 20;
    P { contract_max_size: n, max_witnesses: 300, max_storage_slots: 300, max_predicate_length: n, max_predicate_data_length: n, max_message_data_length: n, max_script_length: n, max_script_data_length: n, ..fee_params(2, 3) }
}
fn inputs(ch: &mut Ch, t: &mut MTx, max: usize, amounts: &[u64]) {
    let n = ch.free(max + 1);
    for i in 0..n {
        let k = ch.free(6);
        let x = match k {
            0..=2 => coin(i, k, ch.of(amounts), false),
            3 => coin(i, ch.free(2), ch.of(amounts), true),
            _ => msg(i, ch.of(amounts), k == 5),
        };
        t.ins.push(x);
    }
}
/// amounts of coin outputs: boundaries, and what exactly is there, one more, one less
fn outputs(ch: &mut Ch, t: &mut MTx, max: usize, p: &P, rel: bool) {
    let n = ch.free(max + 1);
    let mut have: Vec<usize> = (0..3).filter(|k| t.ins.iter().any(|x| in_asset(x) == Some(aid(*k)))).collect();
    if have.is_empty() {
        have.push(0);
    }
    have.extend(if have[0] == 0 { 3..6 } else { 4..6 });
    for _ in 0..n {
        let k = ch.of(&have);
        let o = match k {
            0..=2 => {
                let left = accounts(t, p).left.get(&aid(k)).copied().unwrap_or(0);
                let mut a = vec![left.min(u64::MAX as u128) as u64, 0];
                if rel {
                    a.extend([(left as u64).wrapping_add(1), (left as u64).wrapping_sub(1), (left / 2) as u64, u64::MAX]);
                }
                MOut::Coin { to: pat(9, 1), amount: ch.of(&a), asset: aid(k) }
            }
            3 => MOut::Change { to: pat(9, 1), amount: u64::MAX, asset: aid(0) },
            4 => MOut::Var { to: pat(9, 1), amount: u64::MAX, asset: aid(0) },
            _ => MOut::Msg { rec: pat(9, 1), amount: u64::MAX },
        };
        if t.kind == Kind::Create && k == 4 {
            t.outs.push(MOut::Created { cid: Z, st: Z });
        } else {
            t.outs.push(o);
        }
    }
}
pub fn spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    for (kind, ni, no) in [(Kind::Script, 3, if th { 2 } else { 1 }), (Kind::Script, 2, if th { 3 } else { 2 }), (Kind::Create, 2, 2)] {
        let am: &'static [u64] = if th { &BIGS } else { &[0, 9, 1 << 63, u64::MAX] };
        v.push(space(&format!("balances-{kind:?}-{ni}x{no}"), 0, &format!("all sequences of <= {ni} coin and message inputs over 3 assets x amounts {am:?} x fee 0, 1 or exactly the base balance, one less, one more x <= {no} outputs whose amounts are what is left, one off, half, extremes"), move |ch| {
            let mut t = head(kind);
            inputs(ch, &mut t, ni, am);
            // price 1, factor 1, nothing per byte: the fee is the gas limit
            let p = fee_params(0, 1);
            t.price = 1;
            let base: u128 = t.ins.iter().filter(|x| in_asset(x) == Some(Z)).map(|x| in_amount(x).unwrap() as u128).sum();
            let b = base.min(u64::MAX as u128) as u64;
            t.limit = ch.of(&[0, 1, b, b.wrapping_add(1), b.wrapping_sub(1)]);
            outputs(ch, &mut t, no, &p, true);
            ch.state(&t);
            check_money(ch, &t, 5, &p)
        }));
        if ni == 3 {
            continue;
        }
        v.push(space(&format!("fees-{kind:?}"), 0, "realistic and extreme fee settings (price, limit, gas per byte, factor) x base balance around the fee, from one or two inputs, with and without outputs", move |ch| {
            let mut t = head(kind);
            let p = fee_params(ch.of(&[0u64, 1, 4, 1 << 40, u64::MAX]), ch.of(&[1u64, 3, 1_000_000_000, u64::MAX]));
            t.price = ch.of(&[0u64, 1, 2, 7, 1_000_000_000, 1 << 40, u64::MAX]);
            t.limit = ch.of(&[0u64, 1, 100, 999_999_999, 1 << 32, u64::MAX - 400, u64::MAX]);
            let shape = ch.free(6);
            t.ins = match shape {
                0 => vec![coin(0, 0, 0, false)],
                1 => vec![coin(0, 0, 0, true), coin(1, 0, 1, false)],
                2 => vec![msg(0, 0, false)],
                3 => vec![msg(0, 0, true), coin(1, 1, 77, false)],
                4 => vec![coin(0, 1, 5, false), coin(1, 2, 5, true)],
                _ => vec![],
            };
            let no = ch.free(4);
            let f = accounts(&t, &p).fee.map_or(1000, |f| f.total);
            let amount_ = ch.of(&[f, f.wrapping_sub(1), f.wrapping_add(1), 0, u64::MAX]);
            if shape < 4 {
                if let MIn::CoinS { amount, .. } | MIn::CoinP { amount, .. } | MIn::MsgS { amount, .. } | MIn::MsgP { amount, .. } = &mut t.ins[0] {
                    *amount = amount_;
                }
            }
            for _ in 0..no {
                t.outs.push(MOut::Coin { to: Z, amount: ch.of(&[0, 1, 77]), asset: aid(if shape == 3 { 1 } else if shape == 4 { 2 } else { 0 }) });
            }
            ch.state(&(hash64(&t), hash64(&p)));
            let h = ch.of(&[0u64, 5, u64::MAX]);
            check_money(ch, &t, h, &p)
        }));
    }
    let (a, b) = if th { (5, 4) } else { (4, 3) };
    v.push(space("orders", 0, &format!("one asset: all sequences of {a} input amounts and {b} output amounts from small and huge values, so that partial sums cross 2^63 and 2^64 in every order"), move |ch| {
        let mut t = head(Kind::Script);
        let p = fee_params(0, 1);
        let which = ch.free(2);
        for i in 0..a {
            let n = ch.of(&[0u64, 1, 3, 1 << 62, 1 << 63, u64::MAX - 3]);
            t.ins.push(if which == 0 && i % 2 == 1 { msg(i, n, i == 1) } else { coin(i, which, n, i % 2 == 0) });
        }
        for _ in 0..b {
            let n = ch.of(&[0u64, 1, 4, 1 << 63, u64::MAX]);
            t.outs.push(MOut::Coin { to: Z, amount: n, asset: aid(which) });
        }
        ch.state(&t);
        check_money(ch, &t, 5, &p)
    }));
    let sizes: &'static [usize] = if th { &[1, 2, 17, 100, 255, 256] } else { &[1, 2, 17, 200] };
    v.push(space("long-lists", 0, &format!("{sizes:?} inputs over 1, 2 or 4 assets, all amounts 1 except one at any position, outputs that take exactly everything, one too many, or nothing"), move |ch| {
        let n = ch.of(sizes);
        let na = ch.of(&[1usize, 2, 4]);
        let i = ch.free(n);
        let mut t = head(Kind::Script);
        t.ins = (0..n).map(|k| if k % na == 0 && k % 3 == 1 { msg(k, 1, false) } else { coin(k, k % na, 1, k % 5 == 3 && k < 12) }).collect();
        let big = ch.of(&[0u64, 1000, u64::MAX - n as u64, u64::MAX - 1, u64::MAX]);
        if let MIn::CoinS { amount, .. } | MIn::CoinP { amount, .. } | MIn::MsgS { amount, .. } | MIn::MsgP { amount, .. } = &mut t.ins[i] {
            *amount = big;
        }
        let p = fee_params(0, 1);
        let mode = ch.free(3);
        if mode > 0 {
            let left = accounts(&t, &p).left;
            for (k, b) in left.iter() {
                let b = (*b).min(u64::MAX as u128) as u64;
                if t.ins.iter().any(|x| in_asset(x) == Some(*k)) {
                    t.outs.push(MOut::Coin { to: Z, amount: b / 2, asset: *k });
                    t.outs.push(MOut::Coin { to: Z, amount: b - b / 2, asset: *k });
                }
            }
            if mode == 2 {
                let a = t.ins.iter().filter_map(in_asset).last().unwrap();
                t.outs.push(MOut::Coin { to: Z, amount: 1, asset: a });
            }
        }
        ch.state(&(n, na, i, big, mode));
        check_money(ch, &t, 5, &p)
    }));
    for kind in [Kind::Script, Kind::Create] {
        // one element of every kind, funded: what is left after the fee and one large output per asset
        let funded = move || {
            let mut t = signed_rich(kind);
            t.ins.push(coin(40, 1, 70_000, false));
            t.ins.push(coin(41, 1, 1, true));
            t
        };
        let pay = |ch: &mut Ch, t: &mut MTx, p: &P| {
            // the first output of each asset takes exactly all, one more or one less than all
            let how = ch.free(3);
            t.outs.push(MOut::Coin { to: Z, amount: 0, asset: aid(1) });
            let left = accounts(t, p).left;
            for a in [Z, aid(1)] {
                if let (Some(MOut::Coin { amount, .. }), Some(n)) = (t.outs.iter_mut().find(|o| matches!(o, MOut::Coin { asset, .. } if *asset == a)), left.get(&a)) {
                    let n = (*n + *amount as u128).saturating_sub((how == 2) as u128);
                    *amount = n.min(u64::MAX as u128) as u64;
                    if how == 1 && a == Z {
                        *amount = amount.saturating_add(1);
                    }
                }
            }
        };
        let d = 2;
        v.push(space(&format!("all-spent-{kind:?}"), d, &format!("a transaction with every element kind, every combination of <= {d} field changes, whose outputs then take exactly everything, one more, or one less of each asset"), move |ch| {
            let mut t = dev_tx(ch, &funded());
            let p = roomy();
            pay(ch, &mut t, &p);
            ch.state(&t);
            check_money(ch, &t, 5, &p)
        }));
        v.push(space(&format!("all-spent-values-{kind:?}"), d + 1, &format!("the same with every combination of <= {} field values of one of its inputs or outputs", d + 1), move |ch| {
            let mut t = funded();
            let i = ch.free(t.ins.len() + t.outs.len());
            if i < t.ins.len() {
                t.ins[i] = dev_in(ch, t.ins[i].clone());
            } else {
                let i = i - t.ins.len();
                t.outs[i] = dev_out(ch, t.outs[i].clone());
            }
            let p = roomy();
            pay(ch, &mut t, &p);
            ch.state(&t);
            check_money(ch, &t, 5, &p)
        }));
        v.push(space(&format!("all-spent-grown-{kind:?}"), 0, &format!("the same with any variable-length field of {LONG:?} bytes or any sort of element {MANY:?} times more"), move |ch| {
            let mut t = funded();
            grow(ch, &mut t, &LONG, &MANY);
            // amounts that fit together
            for x in &mut t.ins {
                if let MIn::CoinS { amount, .. } | MIn::CoinP { amount, .. } | MIn::MsgS { amount, .. } | MIn::MsgP { amount, .. } = x {
                    *amount = *amount & 0xff_ffff | 1 << 20;
                }
            }
            if let Some(w) = t.wit.get(t.bcwi as usize) {
                if kind == Kind::Create {
                    t.bclen = w.len() as u64 / 4;
                }
            }
            let p = roomy();
            pay(ch, &mut t, &p);
            ch.state(&t);
            check_money(ch, &t, 5, &p)
        }));
    }
    v
}
