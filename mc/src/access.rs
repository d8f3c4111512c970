//! C22 accessors, kind predicates, field setters and the enumerations of assets and contracts.
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use fuel_tx::field::{self, BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _, Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _, Witnesses as _};
use fuel_tx::{Address, AssetId, Bytes32, ContractId, Executable, Input, InputRepr, MessageId, Output, OutputRepr, Transaction, TransactionRepr, TxPointer, UtxoId, Word};

fn b<T: AsRef<[u8]>>(t: Option<T>) -> Option<Vec<u8>> {
    t.map(|x| x.as_ref().to_vec())
}
fn w(x: &B32) -> Option<Vec<u8>> {
    Some(x.to_vec())
}
macro_rules! same {
    ($x:expr, $($name:ident: $got:expr => $want:expr),* $(,)?) => {
        $({ let (g, w) = ($got, $want); ensure!(g == w, "{}() of {:?}: {g:?}, expected {w:?}", stringify!($name), $x); })*
    };
}
fn pad(n: usize) -> usize {
    (n + 7) / 8 * 8
}
/// Every accessor of one input against the table of which kind carries what.
pub fn input(ch: &mut Ch, x: &MIn) -> R {
    let i = r_in(x);
    let none: Option<Vec<u8>> = None;
    #[rustfmt::skip]
    let (utxo, owner, asset_id, contract, amount, wi, mat, mid, ptr, data, pred, pdata, bal, st, sender, rec, nonce, kind) = match x {
        MIn::CoinS { utxo, owner, amount, asset, ptr, wi, mat } => (Some(utxo), w(owner), w(asset), none.clone(), Some(*amount), Some(*wi), Some(*mat), none.clone(), Some(ptr), None, None, None, none.clone(), none.clone(), none.clone(), none.clone(), None, 0),
        MIn::CoinP { utxo, owner, amount, asset, ptr, mat, pred, pdata } => (Some(utxo), w(owner), w(asset), none.clone(), Some(*amount), None, Some(*mat), none.clone(), Some(ptr), None, Some(pred), Some(pdata), none.clone(), none.clone(), none.clone(), none.clone(), None, 1),
        MIn::Con { utxo, bal, st, ptr, cid } => (Some(utxo), none.clone(), none.clone(), w(cid), None, None, None, none.clone(), Some(ptr), None, None, None, w(bal), w(st), none.clone(), none.clone(), None, 2),
        MIn::MsgS { mid, sender, rec, amount, nonce, wi, data } => (None, none.clone(), w(&Z), none.clone(), Some(*amount), Some(*wi), None, w(mid), None, Some(data), None, None, none.clone(), none.clone(), w(sender), w(rec), Some(*nonce), 3),
        MIn::MsgP { mid, sender, rec, amount, nonce, data, pred, pdata } => (None, none.clone(), w(&Z), none.clone(), Some(*amount), None, None, w(mid), None, Some(data), Some(pred), Some(pdata), none.clone(), none.clone(), w(sender), w(rec), Some(*nonce), 4),
    };
    let plen = if kind == 2 { None } else { Some(pred.map_or(0, |p| p.len())) };
    let pdlen = if kind == 2 { None } else { Some(pdata.map_or(0, |p| p.len())) };
    // tag 8, utxo 40, owner 32, amount 8, asset 32, pointer 16, witness 8, maturity 8, two lengths
    // tag 8, id / sender / recipient 96, amount 8, nonce 8, witness 8, three lengths
    let po = pred.map(|_| if kind == 1 { 8 + 40 + 32 + 8 + 32 + 16 + 8 + 8 + 16 } else { 8 + 96 + 8 + 8 + 8 + 24 + pad(data.unwrap().len()) });
    let pdo = po.map(|o| o + pad(pred.unwrap().len()));
    same!(i,
        utxo_id: i.utxo_id().map(m_utxo) => utxo.copied(),
        input_owner: b(i.input_owner()) => owner,
        asset_id: b(i.asset_id()) => asset_id,
        contract_id: b(i.contract_id()) => contract,
        amount: i.amount() => amount,
        witness_index: i.witness_index() => wi,
        maturity: i.maturity() => mat,
        predicate_offset: i.predicate_offset() => po,
        predicate_data_offset: i.predicate_data_offset() => pdo,
        predicate_len: i.predicate_len() => plen,
        predicate_data_len: i.predicate_data_len() => pdlen,
        message_id: b(i.message_id()) => mid,
        tx_pointer: i.tx_pointer().map(m_ptr) => ptr.copied(),
        input_data: i.input_data() => data.map(|d| &d[..]),
        input_predicate: i.input_predicate() => pred.map(|d| &d[..]),
        input_predicate_data: i.input_predicate_data() => pdata.map(|d| &d[..]),
        predicate: i.predicate() => pred.map(|d| (&d[..], &pdata.unwrap()[..])),
        balance_root: b(i.balance_root()) => bal,
        state_root: b(i.state_root()) => st,
        sender: b(i.sender()) => sender,
        recipient: b(i.recipient()) => rec,
        nonce: i.nonce() => nonce,
        is_coin: i.is_coin() => kind < 2,
        is_coin_signed: i.is_coin_signed() => kind == 0,
        is_coin_predicate: i.is_coin_predicate() => kind == 1,
        is_contract: i.is_contract() => kind == 2,
        is_message: i.is_message() => kind > 2,
        is_message_signed: i.is_message_signed() => kind == 3,
        is_message_predicate: i.is_message_predicate() => kind == 4,
        repr: i.repr() => match kind { 0 | 1 => InputRepr::Coin, 2 => InputRepr::Contract, _ => InputRepr::Message },
    );
    same!(i, coin_predicate_offset: Input::coin_predicate_offset() => 168, message_data_offset: Input::message_data_offset() => 152);
    // the constructors put every argument in its field
    let made = match x {
        MIn::CoinS { utxo, owner, amount, asset: a, ptr, wi, mat } => Input::coin_signed(r_utxo(utxo), addr(owner), *amount, asset(a), r_ptr(ptr), *wi, *mat),
        MIn::CoinP { utxo, owner, amount, asset: a, ptr, mat, pred, pdata } => Input::coin_predicate(r_utxo(utxo), addr(owner), *amount, asset(a), r_ptr(ptr), *mat, pred.clone(), pdata.clone()),
        MIn::Con { utxo, bal, st, ptr, cid: c } => Input::contract(r_utxo(utxo), b32(bal), b32(st), r_ptr(ptr), cid(c)),
        MIn::MsgS { mid, sender, rec, amount, nonce, wi, data } => Input::message_signed((*mid).into(), addr(sender), addr(rec), *amount, *nonce, *wi, data.clone()),
        MIn::MsgP { mid, sender, rec, amount, nonce, data, pred, pdata } => Input::message_predicate((*mid).into(), addr(sender), addr(rec), *amount, *nonce, data.clone(), pred.clone(), pdata.clone()),
    };
    ensure!(m_in(&made) == *x && made == i, "constructor made {made:?} of {x:?}");
    ch.step(34);
    ch.traced();
    ch.outcome("input");
    Ok(())
}
pub fn output(ch: &mut Ch, x: &MOut) -> R {
    let o = r_out(x);
    let none: Option<Vec<u8>> = None;
    #[rustfmt::skip]
    let (asset_id, to, amount, idx, bal, st, contract, rec, kind) = match x {
        MOut::Coin { to, amount, asset } => (w(asset), w(to), Some(*amount), None, none.clone(), none.clone(), none.clone(), none.clone(), 0),
        MOut::Con { idx, bal, st } => (none.clone(), none.clone(), None, Some(*idx), w(bal), w(st), none.clone(), none.clone(), 1),
        MOut::Msg { rec, amount } => (none.clone(), none.clone(), Some(*amount), None, none.clone(), none.clone(), none.clone(), w(rec), 2),
        MOut::Change { to, amount, asset } => (w(asset), w(to), Some(*amount), None, none.clone(), none.clone(), none.clone(), none.clone(), 3),
        MOut::Var { to, amount, asset } => (w(asset), w(to), Some(*amount), None, none.clone(), none.clone(), none.clone(), none.clone(), 4),
        MOut::Created { cid, st } => (none.clone(), none.clone(), None, None, none.clone(), w(st), w(cid), none.clone(), 5),
    };
    same!(o,
        asset_id: b(o.asset_id()) => asset_id,
        to: b(o.to()) => to,
        amount: o.amount() => amount,
        input_index: o.input_index() => idx,
        balance_root: b(o.balance_root()) => bal,
        state_root: b(o.state_root()) => st,
        contract_id: b(o.contract_id()) => contract,
        recipient: b(o.recipient()) => rec,
        is_coin: o.is_coin() => kind == 0,
        is_contract: o.is_contract() => kind == 1,
        is_message: o.is_message() => kind == 2,
        is_variable: o.is_variable() => kind == 4,
        is_contract_created: o.is_contract_created() => kind == 5,
        repr: o.repr() => match kind { 0 => OutputRepr::Coin, 1 => OutputRepr::Contract, 2 => OutputRepr::Message, 3 => OutputRepr::Change, 4 => OutputRepr::Variable, _ => OutputRepr::ContractCreated },
    );
    let made = match x {
        MOut::Coin { to, amount, asset: a } => Output::coin(addr(to), *amount, asset(a)),
        MOut::Con { idx, bal, st } => Output::contract(*idx, b32(bal), b32(st)),
        MOut::Msg { rec, amount } => Output::message(addr(rec), *amount),
        MOut::Change { to, amount, asset: a } => Output::change(addr(to), *amount, asset(a)),
        MOut::Var { to, amount, asset: a } => Output::variable(addr(to), *amount, asset(a)),
        MOut::Created { cid: c, st } => Output::contract_created(cid(c), b32(st)),
    };
    ensure!(m_out(&made) == *x && made == o, "constructor made {made:?} of {x:?}");
    ch.step(16);
    ch.traced();
    ch.outcome("output");
    Ok(())
}
/// The transaction's own accessors.
pub fn transaction(ch: &mut Ch, t: &MTx) -> R {
    let mut tx = r_tx(t);
    let k = t.kind;
    let name = format!("{k:?}");
    same!(name,
        is_script: tx.is_script() => k == Kind::Script,
        is_create: tx.is_create() => k == Kind::Create,
        is_mint: tx.is_mint() => k == Kind::Mint,
        as_script: tx.as_script().map(m_script) => (k == Kind::Script).then(|| t.clone()),
        as_create: tx.as_create().map(m_create) => (k == Kind::Create).then(|| t.clone()),
        as_mint: tx.as_mint().map(m_mint) => (k == Kind::Mint).then(|| t.clone()),
        as_script_mut: tx.as_script_mut().map(|s| m_script(s)) => (k == Kind::Script).then(|| t.clone()),
        as_create_mut: tx.as_create_mut().map(|s| m_create(s)) => (k == Kind::Create).then(|| t.clone()),
        as_mint_mut: tx.as_mint_mut().map(|s| m_mint(s)) => (k == Kind::Mint).then(|| t.clone()),
        repr: TransactionRepr::from(&tx) => match k { Kind::Script => TransactionRepr::Script, Kind::Create => TransactionRepr::Create, Kind::Mint => TransactionRepr::Mint },
    );
    let same_tx: Transaction = match &tx {
        Transaction::Script(s) => s.clone().into(),
        Transaction::Create(s) => s.clone().into(),
        Transaction::Mint(s) => s.clone().into(),
    };
    ensure!(same_tx == tx, "conversion from the specific type changes the transaction");
    fn ios<T: field::Inputs + field::Outputs + field::Witnesses>(t: &MTx, s: &T) -> R {
        ensure!(s.inputs().iter().map(m_in).eq(t.ins.iter().cloned()), "inputs() of {t:?}");
        ensure!(s.outputs().iter().map(m_out).eq(t.outs.iter().cloned()), "outputs() of {t:?}");
        ensure!(s.witnesses().iter().map(m_wit).eq(t.wit.iter().cloned()), "witnesses() of {t:?}");
        assets(t, s)
    }
    match &tx {
        Transaction::Script(s) => {
            same!(name, gas_price: *s.gas_price() => t.price, gas_limit: *s.gas_limit() => t.limit, maturity: *s.maturity() => t.mat, receipts_root: **s.receipts_root() => t.rroot);
            ensure!(s.script() == &t.script && s.script_data() == &t.sdata, "script() or script_data() of {t:?}");
            ios(t, s)?
        }
        Transaction::Create(s) => {
            same!(name, gas_price: *s.gas_price() => t.price, gas_limit: *s.gas_limit() => t.limit, maturity: *s.maturity() => t.mat, bytecode_length: *s.bytecode_length() => t.bclen, bytecode_witness_index: *s.bytecode_witness_index() => t.bcwi, salt: **s.salt() => t.salt);
            ensure!(s.storage_slots().iter().map(|x| (**x.key(), **x.value())).eq(t.slots.iter().copied()), "storage_slots() of {t:?}");
            ios(t, s)?
        }
        Transaction::Mint(s) => {
            same!(name, tx_pointer: m_ptr(s.tx_pointer()) => t.ptr);
            ensure!(s.outputs().iter().map(m_out).eq(t.outs.iter().cloned()), "outputs() of {t:?}");
        }
    }
    ch.step(20);
    ch.traced();
    ch.outcome("transaction");
    Ok(())
}
/// Asset and contract enumerations.
pub fn assets<T: Executable>(t: &MTx, s: &T) -> R {
    let all: Vec<B32> = t
        .ins
        .iter()
        .filter_map(|x| match x {
            MIn::CoinS { asset, .. } | MIn::CoinP { asset, .. } => Some(*asset),
            MIn::MsgS { .. } | MIn::MsgP { .. } => Some(Z),
            MIn::Con { .. } => None,
        })
        .collect();
    let mut uniq: Vec<B32> = vec![];
    for a in &all {
        if !uniq.contains(a) {
            uniq.push(*a);
        }
    }
    let got: Vec<B32> = s.input_asset_ids().map(|a| **a).collect();
    ensure_eq!(got, all, "input_asset_ids of {:?}", t.ins);
    #[allow(unused_mut)]
    let mut got: Vec<B32> = s.input_asset_ids_unique().map(|a| **a).collect();
    #[cfg(not(feature = "full"))]
    {
        // the order is not specified without std
        got.sort();
        uniq.sort();
    }
    ensure_eq!(got, uniq, "input_asset_ids_unique of {:?}", t.ins);
    #[cfg(feature = "full")]
    {
        let mut c: Vec<B32> = vec![];
        for x in &t.ins {
            if let MIn::Con { cid, .. } = x {
                if !c.contains(cid) {
                    c.push(*cid);
                }
            }
        }
        let got: Vec<B32> = s.input_contracts().map(|a| **a).collect();
        ensure_eq!(got, c, "input_contracts of {:?}", t.ins);
    }
    Ok(())
}
/// Writing through one setter changes that field and nothing else.
fn setters(ch: &mut Ch, kind: Kind) -> R {
    let a = rich(kind);
    let mut o = a.clone();
    o.price ^= 0x55;
    o.limit ^= 0x66;
    o.mat ^= 0x77;
    o.script = bytes(0x71, 19);
    o.sdata = bytes(0x72, 23);
    o.rroot = pat(0x73, 1);
    o.bclen ^= 0x88;
    o.bcwi ^= 0x99;
    o.salt = pat(0x74, 2);
    o.slots.reverse();
    o.slots.push((pat(0x75, 1), pat(0x76, 1)));
    o.ptr = (o.ptr.0 ^ 3, o.ptr.1 ^ 5);
    o.ins.reverse();
    o.outs.rotate_left(2);
    o.wit.push(bytes(0x77, 9));
    let mut tx = r_tx(&a);
    let mut want = a.clone();
    for _ in 0..3 {
        let k = ch.free(12);
        if k == 11 {
            break;
        }
        ch.step(1);
        macro_rules! common {
            ($s:expr) => {
                match k {
                    0 => {
                        *$s.gas_price_mut() = o.price;
                        want.price = o.price;
                    }
                    1 => {
                        *$s.gas_limit_mut() = o.limit;
                        want.limit = o.limit;
                    }
                    2 => {
                        *$s.maturity_mut() = o.mat;
                        want.mat = o.mat;
                    }
                    3 => {
                        *$s.inputs_mut() = o.ins.iter().map(r_in).collect();
                        want.ins = o.ins.clone();
                    }
                    4 => {
                        *$s.outputs_mut() = o.outs.iter().map(r_out).collect();
                        want.outs = o.outs.clone();
                    }
                    _ => {
                        *$s.witnesses_mut() = o.wit.iter().map(|w| r_wit(w)).collect();
                        want.wit = o.wit.clone();
                    }
                }
            };
        }
        match &mut tx {
            Transaction::Script(s) => match k {
                0..=5 => common!(s),
                6 => {
                    *s.script_mut() = o.script.clone();
                    want.script = o.script.clone();
                }
                7 => {
                    *s.script_data_mut() = o.sdata.clone();
                    want.sdata = o.sdata.clone();
                }
                8 => {
                    *s.receipts_root_mut() = b32(&o.rroot);
                    want.rroot = o.rroot;
                }
                _ => return Ok(()),
            },
            Transaction::Create(s) => match k {
                0..=5 => common!(s),
                6 => {
                    *s.bytecode_length_mut() = o.bclen;
                    want.bclen = o.bclen;
                }
                7 => {
                    *s.bytecode_witness_index_mut() = o.bcwi;
                    want.bcwi = o.bcwi;
                }
                8 => {
                    *s.salt_mut() = o.salt.into();
                    want.salt = o.salt;
                }
                9 => {
                    *s.storage_slots_mut() = o.slots.iter().map(r_slot).collect();
                    want.slots = o.slots.clone();
                }
                _ => return Ok(()),
            },
            Transaction::Mint(s) => match k {
                0 => {
                    *s.tx_pointer_mut() = r_ptr(&o.ptr);
                    want.ptr = o.ptr;
                }
                1 => {
                    *s.outputs_mut() = o.outs.iter().map(r_out).collect();
                    want.outs = o.outs.clone();
                }
                _ => return Ok(()),
            },
        }
        ensure!(m_tx(&tx) == want, "{kind:?} after writing field {k}: {:?}, expected {want:?}", m_tx(&tx));
    }
    ch.state(&want);
    transaction(ch, &want)
}
const ASSETS: [B32; 3] = [Z, [7; 32], {
    let mut a = [7; 32];
    a[31] = 8;
    a
}];
fn enum_in(k: usize, i: usize) -> MIn {
    match k {
        0..=2 => match def_in(0, i, [0; 3]) {
            MIn::CoinS { utxo, owner, amount, ptr, wi, mat, .. } => MIn::CoinS { utxo, owner, amount, asset: ASSETS[k], ptr, wi, mat },
            _ => unreachable!(),
        },
        3..=5 => match def_in(1, i, [0, 3, 2]) {
            MIn::CoinP { utxo, owner, amount, ptr, mat, pred, pdata, .. } => MIn::CoinP { utxo, owner, amount, asset: ASSETS[k - 3], ptr, mat, pred, pdata },
            _ => unreachable!(),
        },
        6..=8 => match def_in(2, i, [0; 3]) {
            MIn::Con { utxo, bal, st, ptr, .. } => MIn::Con { utxo, bal, st, ptr, cid: ASSETS[k - 6] },
            _ => unreachable!(),
        },
        9 => def_in(3, i, [2, 0, 0]),
        _ => def_in(4, i, [2, 3, 1]),
    }
}
pub fn enumerate(ch: &mut Ch, t: &MTx) -> R {
    ch.state(&t.ins);
    ch.step(3);
    ch.traced();
    ch.outcome("enumerated");
    match r_tx(t) {
        Transaction::Script(s) => assets(t, &s),
        Transaction::Create(s) => assets(t, &s),
        Transaction::Mint(_) => Ok(()),
    }
}
/// Positions of one asset or contract among many different ones.
fn spread(ch: &mut Ch, n: usize) -> R {
    let (i, j) = (ch.free(n), ch.free(n));
    let which = ch.free(3);
    let mut t = def_head(if ch.flag() { Kind::Script } else { Kind::Create });
    for k in 0..n {
        let mut x = def_in([0, 2, 1][which], k, [0, 3, 2]);
        match &mut x {
            MIn::CoinS { asset, .. } | MIn::CoinP { asset, .. } => *asset = pat(0x66, if k == j { i } else { k }),
            MIn::Con { cid, .. } => *cid = pat(0x67, if k == j { i } else { k }),
            _ => {}
        }
        t.ins.push(x);
    }
    if which == 2 && n > 2 {
        t.ins[n / 2] = def_in(3, 1, [3, 0, 0]);
    }
    enumerate(ch, &t)
}
/// Two ids that differ in exactly one bit or byte position are different ids.
fn close(ch: &mut Ch) -> R {
    let (p, bit) = (ch.free(32), ch.free(8));
    let which = ch.free(2);
    let base = [Z, pat(0x68, 3)][ch.free(2)];
    let mut other = base;
    other[p] ^= 1 << bit;
    let mut t = def_head(Kind::Script);
    for a in [base, other, base, other] {
        let mut x = def_in([0, 2][which], t.ins.len(), [0; 3]);
        match &mut x {
            MIn::CoinS { asset, .. } => *asset = a,
            MIn::Con { cid, .. } => *cid = a,
            _ => {}
        }
        t.ins.push(x);
    }
    enumerate(ch, &t)
}
pub fn c22_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let d = if th { 4 } else { 3 };
    v.push(space("elements", d, &format!("every input and output kind, every combination of <= {d} field changes: every accessor, predicate and constructor"), |ch| {
        let k = ch.free(IN_KINDS + OUT_KINDS);
        if k < IN_KINDS {
            let x = dev_in(ch, def_in(k, 2, [6, 10, 3]));
            ch.state(&x);
            input(ch, &x)
        } else {
            let x = dev_out(ch, def_out(k - IN_KINDS, 2));
            ch.state(&x);
            output(ch, &x)
        }
    }));
    let (hi, tri) = if th { (130, 33) } else { (40, 17) };
    v.push(space("input-lengths", 0, &format!("predicate x predicate data at 0..={hi} each; message data x predicate x data at 0..={tri} each; signed message data 0..={hi}; each of these at {BIG:?}"), move |ch| {
        let x = match ch.free(9) {
            k @ 3..=8 => {
                let d = bytes(9, BIG[ch.free(BIG.len())]);
                match k {
                    3 => with_lens(1, 1, vec![], d, vec![1]),
                    4 => with_lens(1, 1, vec![], vec![1], d),
                    5 => with_lens(4, 1, d, vec![1], vec![1]),
                    6 => with_lens(4, 1, vec![1], d, vec![1]),
                    7 => with_lens(4, 1, vec![1], vec![1], d),
                    _ => with_lens(3, 1, d, vec![], vec![]),
                }
            }
            0 => with_lens(1, 1, vec![], bytes(1, ch.free(hi + 1)), bytes(2, ch.free(hi + 1))),
            1 => with_lens(4, 1, bytes(3, ch.free(tri + 1)), bytes(1, ch.free(tri + 1)), bytes(2, ch.free(tri + 1))),
            _ => with_lens(3, 1, bytes(3, ch.free(hi + 1)), vec![], vec![]),
        };
        ch.state(&x);
        input(ch, &x)
    }));
    v.extend(tx_spaces(th, if th { 2 } else { 1 }, |ch, t| transaction(ch, t)));
    for kind in KINDS {
        v.push(space(&format!("setters-{kind:?}"), 0, "every sequence of <= 3 field writes through the mutable accessors of a rich transaction", move |ch| setters(ch, kind)));
    }
    let n = if th { 6 } else { 5 };
    for kind in [Kind::Script, Kind::Create] {
        v.push(space(&format!("enumerations-{kind:?}"), 0, &format!("every sequence of <= {n} inputs over signed and predicate coins of 3 assets, contracts of 3 ids and both messages"), move |ch| {
            let mut t = MTx::new(kind);
            for i in 0..n {
                let c = ch.free(12);
                if c == 0 {
                    break;
                }
                t.ins.push(enum_in(c - 1, i));
            }
            enumerate(ch, &t)
        }));
    }
    for n in [2usize, 8, 17, 40, 255] {
        v.push(space(&format!("spread-{n}"), 0, &format!("{n} coins (signed, predicate) or contracts of different ids, every ordered pair of positions sharing one"), move |ch| spread(ch, n)));
    }
    v.push(space("close-ids", 0, "ids differing in one bit, every bit", close));
    v
}
#[allow(dead_code)]
fn _types(_: &Address, _: &AssetId, _: &Bytes32, _: &ContractId, _: &MessageId, _: TxPointer, _: UtxoId, _: Word) {}
