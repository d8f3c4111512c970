//! What the wire properties (C01, C02, C05, C07, C19) share with the reduced build (C23): element spaces,
//! the table of offsets, serde round trips. Nothing here needs the std feature.
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use fuel_tx::field::*;
use fuel_tx::field::{Script as _, TxPointer as _};
#[cfg(feature = "full")]
use fuel_tx::Cacheable;
use fuel_tx::{Chargeable, Create, Input, InputRepr, Mint, OutputRepr, Script, Transaction, TxPointer};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
pub fn std_hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn short<T: Debug>(t: &T) -> String {
    let mut s = format!("{t:?}");
    if s.len() > 900 {
        let mut e = 900;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        s.truncate(e);
        s.push_str("...");
    }
    s
}
#[derive(Clone, Debug, Hash)]
pub enum Elem {
    In(MIn),
    Out(MOut),
    Wit(Vec<u8>),
    Slot(B32, B32),
    Utxo(B32, u8),
    Ptr(u32, u16),
}
pub fn elem_spaces(thorough: bool, d: u32, f: impl Fn(&mut Ch, &Elem) -> R + Send + Sync + Clone + 'static) -> Vec<Space> {
    let mut v = vec![];
    let g = f.clone();
    v.push(space("element-fields", d, &format!("every input, output, slot, UTXO id and pointer kind, all combinations of <= {d} field deviations over boundary alphabets"), move |ch| {
        let k = ch.free(IN_KINDS + OUT_KINDS + 3);
        let e = if k < IN_KINDS {
            Elem::In(dev_in(ch, def_in(k, 2, [6, 10, 3])))
        } else if k < IN_KINDS + OUT_KINDS {
            Elem::Out(dev_out(ch, def_out(k - IN_KINDS, 2)))
        } else if k == IN_KINDS + OUT_KINDS {
            Elem::Slot(dev_b32(ch, pat(0x61, 1), Z), dev_b32(ch, pat(0x62, 1), Z))
        } else if k == IN_KINDS + OUT_KINDS + 1 {
            let u = dev_utxo(ch, (pat(0x63, 1), 9), Z);
            Elem::Utxo(u.0, u.1)
        } else {
            let p = dev_ptr(ch, (0x0102_0304, 0x0506));
            Elem::Ptr(p.0, p.1)
        };
        ch.state(&hash64(&e));
        g(ch, &e)
    }));
    let g = f.clone();
    let hi = if thorough { 4200 } else { 600 };
    v.push(space("witness-lengths", 0, &format!("witness lengths 0..={hi} and {BIG:?} x fillings; single-byte contents; pointer and index ranges"), move |ch| {
        let e = match ch.free(4) {
            0 => {
                let i = ch.free(hi + 1 + BIG.len());
                let n = if i <= hi { i } else { BIG[i - hi - 1] };
                Elem::Wit(match ch.free(3) {
                    0 => bytes(0x51, n),
                    1 => vec![0; n],
                    _ => vec![0xff; n],
                })
            }
            1 => {
                let n = ch.free(10);
                let b = ch.free(256) as u8;
                Elem::Wit(vec![b; n])
            }
            2 => {
                let i = ch.free(256) as u8;
                Elem::Utxo(pat(1, 1), i)
            }
            _ => {
                let i = ch.free(65536) as u16;
                Elem::Ptr(i as u32 * 0x1_0001, i)
            }
        };
        ch.state(&hash64(&e));
        g(ch, &e)
    }));
    let g = f;
    let (hi, tri) = if thorough { (130, 33) } else { (40, 17) };
    v.push(space("input-lengths", 0, &format!("predicate x predicate data at 0..={hi} each; message data x predicate x data at 0..={tri} each"), move |ch| {
        let e = if ch.flag() {
            Elem::In(with_lens(1, 1, vec![], bytes(1, ch.free(hi + 1)), bytes(2, ch.free(hi + 1))))
        } else {
            Elem::In(with_lens(4, 1, bytes(3, ch.free(tri + 1)), bytes(1, ch.free(tri + 1)), bytes(2, ch.free(tri + 1))))
        };
        ch.state(&hash64(&e));
        g(ch, &e)
    }));
    v
}
/// Which indices of a list of n elements are asked (every one up to 700 elements; beyond that, the
/// cost of the library's own linear walk makes it quadratic, so the ends and the powers of two +-1).
pub fn idx(n: usize) -> Vec<usize> {
    if n <= 700 {
        return (0..n + 2).chain([255usize, 256, 65535, 65536, usize::MAX].into_iter().filter(|i| *i > n + 1)).collect();
    }
    let mut v: Vec<usize> = (0..3).chain(n - 2..n + 2).collect();
    let mut p = 4;
    while p < n {
        v.extend([p - 1, p, p + 1]);
        p *= 4;
    }
    v.push(usize::MAX);
    v
}
pub fn list_offsets<T: Inputs + Outputs + Witnesses + Chargeable>(t: &T, v: &mut Vec<(&'static str, usize, Option<usize>)>) {
    v.push(("ins", 0, Some(t.inputs_offset())));
    v.push(("outs", 0, Some(t.outputs_offset())));
    v.push(("wits", 0, Some(t.witnesses_offset())));
    for i in idx(t.inputs().len()) {
        v.push(("in", i, t.inputs_offset_at(i)));
        let p = t.inputs_predicate_offset_at(i);
        v.push(("in.pred", i, p.map(|x| x.0)));
        v.push(("in.pred.len", i, p.map(|x| x.1)));
    }
    for i in idx(t.outputs().len()) {
        v.push(("out", i, t.outputs_offset_at(i)));
    }
    for i in idx(t.witnesses().len()) {
        v.push(("wit", i, t.witnesses_offset_at(i)));
    }
    v.push(("metered", 0, Some(t.metered_bytes_size())));
}
/// Every offset the API offers for a transaction, labelled as in the reference encoder's spans.
pub fn all_offsets(t: &Transaction) -> Vec<(&'static str, usize, Option<usize>)> {
    let mut v = vec![];
    match t {
        Transaction::Script(s) => {
            v.push(("price", 0, Some(s.gas_price_offset())));
            v.push(("limit", 0, Some(s.gas_limit_offset())));
            v.push(("mat", 0, Some(s.maturity_offset())));
            v.push(("rroot", 0, Some(s.receipts_root_offset())));
            v.push(("script", 0, Some(s.script_offset())));
            v.push(("sdata", 0, Some(s.script_data_offset())));
            v.push(("price", 0, Some(Script::gas_price_offset_static())));
            v.push(("limit", 0, Some(Script::gas_limit_offset_static())));
            v.push(("mat", 0, Some(Script::maturity_offset_static())));
            v.push(("rroot", 0, Some(Script::receipts_root_offset_static())));
            v.push(("script", 0, Some(Script::script_offset_static())));
            list_offsets(s, &mut v);
        }
        Transaction::Create(s) => {
            v.push(("price", 0, Some(s.gas_price_offset())));
            v.push(("limit", 0, Some(s.gas_limit_offset())));
            v.push(("mat", 0, Some(s.maturity_offset())));
            v.push(("bclen", 0, Some(s.bytecode_length_offset())));
            v.push(("bcwi", 0, Some(s.bytecode_witness_index_offset())));
            v.push(("salt", 0, Some(s.salt_offset())));
            v.push(("slots", 0, Some(s.storage_slots_offset())));
            v.push(("price", 0, Some(Create::gas_price_offset_static())));
            v.push(("limit", 0, Some(Create::gas_limit_offset_static())));
            v.push(("mat", 0, Some(Create::maturity_offset_static())));
            v.push(("bclen", 0, Some(Create::bytecode_length_offset_static())));
            v.push(("bcwi", 0, Some(Create::bytecode_witness_index_offset_static())));
            v.push(("salt", 0, Some(Create::salt_offset_static())));
            v.push(("slots", 0, Some(Create::storage_slots_offset_static())));
            for i in idx(s.storage_slots().len()) {
                v.push(("slot", i, s.storage_slots_offset_at(i)));
            }
            list_offsets(s, &mut v);
        }
        Transaction::Mint(s) => {
            v.push(("ptr", 0, Some(s.tx_pointer_offset())));
            v.push(("ptr", 0, Some(Mint::tx_pointer_static())));
            v.push(("outs", 0, Some(s.outputs_offset())));
            for i in idx(s.outputs().len()) {
                v.push(("out", i, s.outputs_offset_at(i)));
            }
        }
    }
    v
}
pub fn in_offsets(ch: &mut Ch, t: &MTx, e: &Enc) -> R {
    let span = spans(e);
    for (i, x) in t.ins.iter().enumerate() {
        let base = span[&("in", i)].0;
        let real = r_in(x);
        let rp = InputRepr::from(&real);
        ensure_eq!(rp, real.repr(), "input repr");
        let coin = matches!(x, MIn::CoinS { .. } | MIn::CoinP { .. });
        let con = matches!(x, MIn::Con { .. });
        let msg = !coin && !con;
        let at = |l: &'static str, yes: bool| if yes { span.get(&(l, i)).map(|s| s.0 - base) } else { None };
        let pairs = [
            ("utxo", rp.utxo_id_offset(), at("in.utxo", !msg)),
            ("owner", rp.owner_offset(), at("in.owner", coin)),
            ("asset", rp.asset_id_offset(), at("in.asset", coin)),
            ("data", rp.data_offset(), at("in.data", msg)),
            ("coin predicate", rp.coin_predicate_offset(), at("in.pred", coin)),
            ("balance root", rp.contract_balance_root_offset(), at("in.bal", con)),
            ("state root", rp.contract_state_root_offset(), at("in.st", con)),
            ("contract id", rp.contract_id_offset(), at("in.cid", con)),
            ("message id", rp.message_id_offset(), at("in.mid", msg)),
            ("sender", rp.message_sender_offset(), at("in.sender", msg)),
            ("recipient", rp.message_recipient_offset(), at("in.rec", msg)),
            ("tx pointer", rp.tx_pointer_offset(), at("in.ptr", !msg)),
            ("predicate", real.predicate_offset(), at("in.pred", matches!(x, MIn::CoinP { .. } | MIn::MsgP { .. }))),
            ("predicate data", real.predicate_data_offset(), at("in.pdata", matches!(x, MIn::CoinP { .. } | MIn::MsgP { .. }))),
        ];
        for (n, got, want) in pairs {
            ensure!(got == want, "offset of {n} in input {x:?}: got {got:?}, expected {want:?}");
            ch.step(1);
        }
        if coin {
            ensure_eq!(Some(Input::coin_predicate_offset()), at("in.pred", true), "static coin predicate offset");
        }
        if msg {
            ensure_eq!(Some(Input::message_data_offset()), at("in.data", true), "static message data offset");
        }
    }
    for (i, x) in t.outs.iter().enumerate() {
        let base = span[&("out", i)].0;
        let real = r_out(x);
        let rp = OutputRepr::from(&real);
        ensure_eq!(rp, real.repr(), "output repr");
        let at = |l: &'static str| span.get(&(l, i)).map(|s| s.0 - base);
        let pairs = [
            ("to", rp.to_offset(), at("out.to")),
            ("asset", rp.asset_id_offset(), at("out.asset")),
            ("balance root", rp.contract_balance_root_offset(), at("out.bal")),
            ("state root", rp.contract_state_root_offset(), at("out.st")),
            ("created state root", rp.contract_created_state_root_offset(), at("out.cst")),
            ("contract id", rp.contract_id_offset(), at("out.cid")),
            ("recipient", rp.recipient_offset(), at("out.rec")),
        ];
        for (n, got, want) in pairs {
            ensure!(got == want, "offset of {n} in output {x:?}: got {got:?}, expected {want:?}");
            ch.step(1);
        }
    }
    Ok(())
}
pub fn serde_rt<T>(ch: &mut Ch, n: &str, v: &T) -> Result<(T, T), Fail>
where
    T: serde::Serialize + for<'a> serde::Deserialize<'a> + PartialEq + Debug,
{
    let j = serde_json::to_string(v).map_err(|e| format!("{n}: to JSON: {e}"))?;
    let a: T = serde_json::from_str(&j).map_err(|e| format!("{n}: own JSON rejected: {e}: {}", &j[..j.len().min(300)]))?;
    ensure!(&a == v, "{n}: JSON round trip changed {} into {}", short(v), short(&a));
    let j2 = serde_json::to_string(&a).map_err(|e| e.to_string())?;
    ensure!(j == j2, "{n}: JSON of the decoded value differs");
    let b = bincode::serialize(v).map_err(|e| format!("{n}: to bincode: {e}"))?;
    let c: T = bincode::deserialize(&b).map_err(|e| format!("{n}: own bincode rejected: {e}"))?;
    ensure!(&c == v, "{n}: bincode round trip changed {} into {}", short(v), short(&c));
    ch.step(6);
    Ok((a, c))
}
pub fn c19_tx(ch: &mut Ch, t: &MTx) -> R {
    let tx = r_tx(t);
    let (a, c) = serde_rt(ch, "Transaction", &tx)?;
    ensure!(m_tx(&a) == *t && m_tx(&c) == *t, "fields changed in {}", short(t));
    let mut cached = tx.clone();
    warm(&mut cached);
    let (a, c) = serde_rt(ch, "Transaction (cached)", &cached)?;
    ensure!(!computed(&a) && !computed(&c), "cache carried over by serde");
    let j = tx.to_json();
    let back = Transaction::from_json(&j).ok_or("own to_json rejected by from_json")?;
    ensure!(m_tx(&back) == *t && !computed(&back), "to_json/from_json changed {}", short(t));
    ensure!(cached.to_json() == j, "cache leaks into JSON");
    match &tx {
        Transaction::Script(v) => { serde_rt(ch, "Script", v)?; }
        Transaction::Create(v) => { serde_rt(ch, "Create", v)?; }
        Transaction::Mint(v) => { serde_rt(ch, "Mint", v)?; }
    }
    ch.traced();
    ch.sample(|| j.clone());
    Ok(())
}
pub fn c19_elem(ch: &mut Ch, e: &Elem) -> R {
    match e {
        Elem::In(x) => {
            let (a, c) = serde_rt(ch, "Input", &r_in(x))?;
            ensure!(m_in(&a) == *x && m_in(&c) == *x, "input fields");
        }
        Elem::Out(x) => {
            let (a, c) = serde_rt(ch, "Output", &r_out(x))?;
            ensure!(m_out(&a) == *x && m_out(&c) == *x, "output fields");
        }
        Elem::Wit(w) => {
            let (a, c) = serde_rt(ch, "Witness", &r_wit(w))?;
            ensure!(m_wit(&a) == *w && m_wit(&c) == *w, "witness bytes");
        }
        Elem::Slot(k, v) => {
            serde_rt(ch, "StorageSlot", &r_slot(&(*k, *v)))?;
        }
        Elem::Utxo(a, i) => {
            serde_rt(ch, "UtxoId", &r_utxo(&(*a, *i)))?;
        }
        Elem::Ptr(h, i) => {
            serde_rt(ch, "TxPointer", &TxPointer::new(*h, *i))?;
        }
    }
    ch.traced();
    Ok(())
}
pub fn offsets_equal(a: &Transaction, b: &Transaction) -> R {
    let (x, y) = (all_offsets(a), all_offsets(b));
    if x != y {
        let d: Vec<_> = x.iter().zip(&y).filter(|(p, q)| p != q).take(4).collect();
        return Err(format!("offsets differ with and without cache: {d:?}").into());
    }
    Ok(())
}
pub type Spans = std::collections::HashMap<(&'static str, usize), (usize, usize)>;
/// Where the reference encoder put each labelled item: start and length.
pub fn spans(e: &Enc) -> Spans {
    e.spans.iter().map(|s| ((s.0, s.1), (s.2, s.3))).collect()
}
pub fn offset_of(t: &MTx, span: &Spans, l: &'static str, i: usize) -> Option<usize> {
    let pred = t.ins.get(i).map_or(false, |x| matches!(x, MIn::CoinP { .. } | MIn::MsgP { .. }));
    match l {
        "in.pred" if pred => span.get(&("in.pred", i)).map(|s| s.0),
        "in.pred.len" if pred => span.get(&("in.pred", i)).map(|s| s.1),
        "in.pred" | "in.pred.len" => None,
        "metered" => span.get(&("wits", 0)).map(|s| s.0),
        _ => span.get(&(l, i)).map(|s| s.0),
    }
}
/// The reduced build has no metadata cache.
pub fn computed(_t: &Transaction) -> bool {
    #[cfg(feature = "full")]
    return _t.is_computed();
    #[cfg(not(feature = "full"))]
    false
}
pub fn warm(_t: &mut Transaction) {
    #[cfg(feature = "full")]
    _t.precompute();
}
