//! C18 the builder against direct construction, through histories of calls.
use crate::auth::{auth_rules, key, own, params, signer};
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::money::accounts;
use crate::valid::{brief, rules};
use crate::wire::*;
use crate::{ensure, ensure_eq};
use fuel_tx::field::*;
use fuel_tx::{Buildable, Cacheable, Checkable, Create, IntoChecked, Script, Transaction, TransactionBuilder, UniqueIdentifier};

struct MB {
    t: MTx,
    prep_s: bool,
    prep_p: bool,
    keys: Vec<usize>,
}
impl MB {
    fn prepared(&self) -> MTx {
        let mut t = self.t.clone();
        if self.prep_p {
            t = init_predicate(&t);
        }
        if self.prep_s {
            t = init_script(&t);
        }
        t
    }
}
fn script_mb(script: &[u8], sdata: &[u8]) -> MB {
    let mut t = MTx::new(Kind::Script);
    t.script = script.to_vec();
    t.sdata = sdata.to_vec();
    MB { t, prep_s: true, prep_p: false, keys: vec![] }
}
fn create_mb(code: &[u8], salt: &B32, slots: &[(B32, B32)]) -> MB {
    let mut t = MTx::new(Kind::Create);
    t.bclen = code.len() as u64 / 4;
    t.bcwi = 0;
    t.salt = *salt;
    t.slots = slots.to_vec();
    t.wit = vec![code.to_vec()];
    MB { t, prep_s: false, prep_p: false, keys: vec![] }
}
/// A coin of key k, the n-th call.
fn coin_of(k: usize, n: usize, wi: usize) -> MIn {
    MIn::CoinS { utxo: (pat(0x20, n), n as u8), owner: own(k), amount: word(0x21, n), asset: if n % 2 == 0 { Z } else { pat(0x22, n) }, ptr: (n as u32 + 5, n as u16 + 6), wi: wi as u8, mat: n as u64 + 1 }
}
fn msg_of(k: usize, n: usize, wi: usize) -> MIn {
    let (sender, rec, amount, nonce, data) = (pat(0x23, n), own(k), word(0x24, n), word(0x25, n), bytes(0x26, n % 7));
    let mid = sha(&[&sender, &rec, &nonce.to_be_bytes(), &amount.to_be_bytes(), &data]);
    MIn::MsgS { mid, sender, rec, amount, nonce, wi: wi as u8, data }
}
/// Ops on both sides.
fn unsigned<T: Buildable>(b: &mut TransactionBuilder<T>, m: &mut MB, msg: bool, k: usize) {
    let (n, wi) = (m.t.ins.len(), m.t.wit.len());
    let x = if msg { msg_of(k, n, wi) } else { coin_of(k, n, wi) };
    match &x {
        MIn::CoinS { utxo, amount, asset: a, ptr, mat, .. } => {
            b.add_unsigned_coin_input(key(k), r_utxo(utxo), *amount, asset(a), r_ptr(ptr), *mat);
        }
        MIn::MsgS { sender, amount, nonce, data, .. } => {
            b.add_unsigned_message_input(key(k), addr(sender), *nonce, *amount, data.clone());
        }
        _ => unreachable!(),
    }
    m.t.ins.push(x);
    m.t.wit.push(vec![]);
    m.keys.push(k);
}
fn given_in(k: usize, n: usize) -> MIn {
    match k {
        // a signed input handed in whole may belong to a key the builder has, and share a slot
        0 => coin_of(0, n + 40, 1),
        3 => msg_of(1, n + 40, 0),
        k => def_in(k, n, [3, 4, 5]),
    }
}
fn given_out(k: usize, n: usize) -> MOut {
    def_out(k, n)
}
fn call<T: Buildable>(b: &mut TransactionBuilder<T>, m: &mut MB, op: usize) {
    let n = m.t.ins.len();
    match op {
        0 => {
            let v = word(0x31, m.t.outs.len());
            b.gas_price(v);
            m.t.price = v;
        }
        1 => {
            let v = word(0x32, n);
            b.gas_limit(v);
            m.t.limit = v;
        }
        2 => {
            let v = word(0x33, n);
            b.maturity(v);
            m.t.mat = v;
        }
        3..=6 => unsigned(b, m, op >= 5, op % 2),
        7..=11 => {
            let x = given_in(op - 7, n);
            b.add_input(r_in(&x));
            m.t.ins.push(x);
        }
        12..=17 => {
            let x = given_out(op - 12, m.t.outs.len());
            b.add_output(r_out(&x));
            m.t.outs.push(x);
        }
        18 => {
            let w = bytes(0x35, 3 + m.t.wit.len());
            b.add_witness(r_wit(&w));
            m.t.wit.push(w);
        }
        19 | 20 => {
            b.prepare_script(op == 20);
            m.prep_s = op == 20;
        }
        _ => {
            b.prepare_predicate(op == 22);
            m.prep_p = op == 22;
        }
    }
}
const OPS: usize = 23;
fn peek<T: Buildable>(b: &TransactionBuilder<T>, m: &MB) -> R {
    ensure!(b.inputs().iter().map(m_in).collect::<Vec<_>>() == m.t.ins, "builder's inputs {:?}, given {:?}", b.inputs(), m.t.ins);
    ensure!(b.outputs().iter().map(m_out).collect::<Vec<_>>() == m.t.outs, "builder's outputs {:?}, given {:?}", b.outputs(), m.t.outs);
    ensure!(b.witnesses().iter().map(m_wit).collect::<Vec<_>>() == m.t.wit, "builder's witnesses {:?}, given {:?}", b.witnesses(), m.t.wit);
    ensure!(b.sign_keys().iter().map(|k| k.as_ref().to_vec()).collect::<Vec<_>>() == m.keys.iter().map(|k| key(*k).as_ref().to_vec()).collect::<Vec<_>>(), "builder's keys");
    Ok(())
}
/// The finalised transaction against the model's; signatures are judged, not compared.
fn product(tx: &Transaction, m: &MB, signed: bool) -> R {
    let mut want = m.prepared();
    let got = m_tx(tx);
    let id = model_id(&want);
    if signed {
        // the last key to sign a slot has it
        let mut slots = std::collections::BTreeMap::new();
        for k in &m.keys {
            for x in &want.ins {
                if let MIn::CoinS { owner, wi, .. } | MIn::MsgS { rec: owner, wi, .. } = x {
                    if *owner == own(*k) && (*wi as usize) < want.wit.len() {
                        slots.insert(*wi as usize, *k);
                    }
                }
            }
        }
        for (s, k) in slots {
            let w = got.wit.get(s).cloned().unwrap_or_default();
            ensure!(signer(&w, &id) == Some(own(k)), "witness {s} is not a signature of key {k} over the id: {}", brief(&got));
            want.wit[s] = w;
        }
    }
    ensure!(got == want, "builder (script prep {}, predicate prep {}, signed {signed}) made {got:?}, expected {want:?}", m.prep_s, m.prep_p);
    ensure!(tx.is_computed(), "no metadata after finalising");
    let direct = r_tx(&want);
    ensure!(*tx == direct, "differs from direct construction");
    ensure_eq!(*tx.id(), id, "id of the built {}", brief(&want));
    offsets_equal(&direct, tx)?;
    if signed {
        let auth = auth_rules(&want, &id);
        ensure!(tx.check_signatures().is_ok() == auth.is_empty(), "signature check of the built transaction, violated {auth:?}");
    }
    Ok(())
}
macro_rules! finish {
    ($ch:expr, $b:expr, $m:expr, $kind:ident) => {{
        let (ch, mut b, m) = ($ch, $b, $m);
        peek(&b, &m)?;
        ch.step(1);
        ch.state(&(&m.t, m.prep_s, m.prep_p, &m.keys));
        ch.traced();
        let f = ch.free(6);
        match f {
            0 => product(&Transaction::$kind(b.finalize()), &m, true)?,
            1 => product(&b.finalize_as_transaction(), &m, true)?,
            2 => product(&Transaction::$kind(b.finalize_without_signature()), &m, false)?,
            3 => product(&b.finalize_without_signature_as_transaction(), &m, false)?,
            _ => {
                // only where the model says that the check passes; otherwise these are documented to panic
                let mut p = params();
                p.gas_price_factor = u64::MAX;
                p.max_gas_per_tx = u64::MAX;
                // (signing may write over a witness that a caller has given another use, such as the bytecode)
                let made = m_tx(&Transaction::$kind(b.clone().finalize()));
                let ok = rules(&made, u64::MAX, &p).is_empty() && accounts(&made, &p).fails.is_empty();
                let all = ok && auth_rules(&made, &model_id(&made)).is_empty();
                if f == 4 && ok {
                    let c = b.finalize_checked_basic(u64::MAX, &p);
                    ensure_eq!(c.checks().bits(), 1, "checks of finalize_checked_basic");
                    product(&Transaction::$kind(c.transaction().clone()), &m, true)?;
                    ch.outcome("checked basic");
                } else if f == 5 && all {
                    let c = b.finalize_checked(u64::MAX, &p);
                    ensure_eq!(c.checks().bits(), 3, "checks of finalize_checked");
                    product(&Transaction::$kind(c.transaction().clone()), &m, true)?;
                    let same = r_tx(&m_tx(&Transaction::$kind(c.transaction().clone()))).into_checked(u64::MAX, &p);
                    ensure!(same.is_ok(), "direct construction is refused: {:?}", same.err());
                    ch.outcome("fully checked");
                }
            }
        }
        ch.outcome(["finalize", "finalize_as_transaction", "without signature", "without signature as transaction", "checked_basic", "checked"][f]);
        ch.sample(|| brief(&m.t));
        Ok(())
    }};
}
/// A keyed input with chosen content, on both sides.
fn unsigned_as<T: Buildable>(b: &mut TransactionBuilder<T>, m: &mut MB, k: usize, x: MIn) {
    let slot = m.t.wit.len() as u8;
    let x = match x {
        MIn::CoinS { utxo, amount, asset: a, ptr, mat, .. } => {
            b.add_unsigned_coin_input(key(k), r_utxo(&utxo), amount, asset(&a), r_ptr(&ptr), mat);
            MIn::CoinS { utxo, owner: own(k), amount, asset: a, ptr, wi: slot, mat }
        }
        MIn::MsgS { sender, amount, nonce, data, .. } => {
            b.add_unsigned_message_input(key(k), addr(&sender), nonce, amount, data.clone());
            let rec = own(k);
            let mid = sha(&[&sender, &rec, &nonce.to_be_bytes(), &amount.to_be_bytes(), &data]);
            MIn::MsgS { mid, sender, rec, amount, nonce, wi: slot, data }
        }
        _ => unreachable!(),
    };
    m.t.ins.push(x);
    m.t.wit.push(vec![]);
    m.keys.push(k);
}
/// One element of chosen kind, as content and as what hands it over: 0-4 inputs, 5-10 outputs, 11 witness,
/// 12 keyed coin, 13 keyed message.
fn hand<T: Buildable>(b: &mut TransactionBuilder<T>, m: &mut MB, x: Given) {
    match x {
        Given::In(x) => {
            b.add_input(r_in(&x));
            m.t.ins.push(x);
        }
        Given::Out(x) => {
            b.add_output(r_out(&x));
            m.t.outs.push(x);
        }
        Given::Wit(w) => {
            b.add_witness(r_wit(&w));
            m.t.wit.push(w);
        }
        Given::Keyed(k, x) => unsigned_as(b, m, k, x),
    }
}
enum Given {
    In(MIn),
    Out(MOut),
    Wit(Vec<u8>),
    Keyed(usize, MIn),
}
fn values_space(kind: Kind, d: u32) -> Space {
    space(&format!("{}-values", if kind == Kind::Script { "script" } else { "create" }), d, &format!("one builder call of each kind (input, output, witness, keyed coin or message), every combination of <= {d} field values of what it is given, alone or between two others; predicate and script preparation each on or off"), move |ch| {
        let k = ch.free(14);
        let x = match k {
            0..=4 => Given::In(dev_in(ch, def_in(k, 0, [3, 4, 5]))),
            5..=10 => Given::Out(dev_out(ch, def_out(k - 5, 0))),
            11 => Given::Wit(dev_vec(ch, bytes(1, 5), 9)),
            12 => Given::Keyed(ch.free(2), dev_in(ch, def_in(0, 0, [3, 4, 5]))),
            _ => Given::Keyed(ch.free(2), dev_in(ch, def_in(3, 0, [3, 4, 5]))),
        };
        let (around, (prep_s, prep_p)) = (ch.dev(&[true, false]), ch.dev(&[(false, false), (true, false), (false, true), (true, true)]));
        macro_rules! go {
            ($b:expr, $m:expr, $k:ident) => {{
                let (mut b, mut m) = ($b, $m);
                if around {
                    unsigned(&mut b, &mut m, true, 1);
                }
                hand(&mut b, &mut m, x);
                if around {
                    unsigned(&mut b, &mut m, false, 0);
                }
                b.prepare_script(prep_s).prepare_predicate(prep_p);
                (m.prep_s, m.prep_p) = (prep_s, prep_p);
                finish!(ch, b, m, $k)
            }};
        }
        if kind == Kind::Script {
            go!(TransactionBuilder::<Script>::script(vec![1, 2, 3], vec![4, 5]), script_mb(&[1, 2, 3], &[4, 5]), Script)
        } else {
            let code = bytes(7, 12);
            go!(TransactionBuilder::<Create>::create(r_wit(&code), Z.into(), vec![]), create_mb(&code, &Z, &[]), Create)
        }
    })
}
fn sizes_space(th: bool) -> Space {
    let hi = if th { 600 } else { 70 };
    space("sizes", 0, &format!("data of a keyed message, of a message input, predicates, predicate data, witnesses, script and script data of every length 0..={hi} and the big lengths"), move |ch| {
        let i = ch.free(hi + 1 + BIG.len());
        let n = if i <= hi { i } else { BIG[i - hi - 1] };
        let d = bytes(3, n);
        let (mut a, mut c, mut x) = (vec![1], vec![2], None);
        match ch.free(9) {
            0 => a = d,
            1 => c = d,
            2 => x = Some(Given::Wit(d)),
            3 => x = Some(Given::Keyed(1, with_lens(3, 0, d, vec![], vec![]))),
            4 => x = Some(Given::In(with_lens(3, 0, d, vec![], vec![]))),
            5 => x = Some(Given::In(with_lens(4, 0, d, vec![1], vec![]))),
            6 => x = Some(Given::In(with_lens(4, 0, vec![1], vec![1], d))),
            7 => x = Some(Given::In(with_lens(1, 0, vec![], d, vec![1]))),
            _ => x = Some(Given::In(with_lens(1, 0, vec![], vec![1], d))),
        }
        let mut m = script_mb(&a, &c);
        let mut b = TransactionBuilder::<Script>::script(a, c);
        unsigned(&mut b, &mut m, false, 0);
        if let Some(x) = x {
            hand(&mut b, &mut m, x);
        }
        finish!(ch, b, m, Script)
    })
}
fn run_script(ch: &mut Ch, depth: usize, ops: &'static [usize]) -> R {
    let mut m = script_mb(&[1, 2, 3], &[4, 5]);
    let mut b = TransactionBuilder::<Script>::script(vec![1, 2, 3], vec![4, 5]);
    for _ in 0..depth {
        let c = ch.free(ops.len() + 1);
        if c == 0 {
            break;
        }
        call(&mut b, &mut m, ops[c - 1]);
        ch.step(1);
    }
    finish!(ch, b, m, Script)
}
/// Calls whose arguments repeat: the same setting again or another, the same element again.
fn again<T: Buildable>(b: &mut TransactionBuilder<T>, m: &mut MB, op: usize) {
    match op {
        0..=8 => {
            let v = [0, 7, u64::MAX][op % 3];
            match op / 3 {
                0 => {
                    b.gas_price(v);
                    m.t.price = v;
                }
                1 => {
                    b.gas_limit(v);
                    m.t.limit = v;
                }
                _ => {
                    b.maturity(v);
                    m.t.mat = v;
                }
            }
        }
        9 => hand(b, m, Given::In(def_in(1, 0, [3, 4, 5]))),
        10 => hand(b, m, Given::Out(def_out(0, 0))),
        11 => hand(b, m, Given::Out(def_out(4, 0))),
        12 => hand(b, m, Given::Out(MOut::Var { to: Z, amount: 0, asset: Z })),
        13 => hand(b, m, Given::Wit(vec![])),
        14 => hand(b, m, Given::Wit(vec![9; 9])),
        15 => hand(b, m, Given::Keyed(0, def_in(0, 0, [3, 4, 5]))),
        16 => hand(b, m, Given::Keyed(1, def_in(0, 0, [3, 4, 5]))),
        17 => hand(b, m, Given::Keyed(0, def_in(3, 0, [3, 4, 5]))),
        18 => hand(b, m, Given::In(def_in(2, 0, [3, 4, 5]))),
        _ => hand(b, m, Given::In(def_in(0, 0, [3, 4, 5]))),
    }
}
fn repeats_space(kind: Kind, th: bool) -> Space {
    let d = if th { 4 } else { 3 };
    space(&format!("{}-repeats", if kind == Kind::Script { "script" } else { "create" }), 0, &format!("every sequence of <= {d} of 20 builder calls whose arguments repeat (settings of 0, 7 and the maximum; the same input, keyed input, output or witness again) x 6 ways to finish"), move |ch| {
        macro_rules! go {
            ($b:expr, $m:expr, $k:ident) => {{
                let (mut b, mut m) = ($b, $m);
                for _ in 0..d {
                    let c = ch.free(21);
                    if c == 0 {
                        break;
                    }
                    again(&mut b, &mut m, c - 1);
                    ch.step(1);
                }
                finish!(ch, b, m, $k)
            }};
        }
        if kind == Kind::Script {
            go!(TransactionBuilder::<Script>::script(vec![1, 2, 3], vec![4, 5]), script_mb(&[1, 2, 3], &[4, 5]), Script)
        } else {
            let code = bytes(7, 12);
            go!(TransactionBuilder::<Create>::create(r_wit(&code), Z.into(), vec![]), create_mb(&code, &Z, &[]), Create)
        }
    })
}
fn run_create(ch: &mut Ch, depth: usize, ops: &'static [usize]) -> R {
    let slots = [(pat(1, 1), pat(2, 2)), (pat(3, 3), pat(4, 4))];
    let code = bytes(7, 10);
    let mut m = create_mb(&code, &pat(9, 9), &slots);
    let mut b = TransactionBuilder::<Create>::create(r_wit(&code), pat(9, 9).into(), slots.iter().map(r_slot).collect());
    for _ in 0..depth {
        let c = ch.free(ops.len() + 1);
        if c == 0 {
            break;
        }
        call(&mut b, &mut m, ops[c - 1]);
        ch.step(1);
    }
    finish!(ch, b, m, Create)
}
/// Calls, a first product, more calls, a second product: finalising hands the transaction over and
/// leaves the default one, while keys and preparation stay. A clone taken before is not affected.
macro_rules! reuse {
    ($ch:expr, $b:expr, $m:expr, $kind:ident, $ops:expr, $d:expr) => {{
        let (ch, mut b, mut m) = ($ch, $b, $m);
        for round in 0..3 {
            for _ in 0..$d[round] {
                let c = ch.free($ops.len() + 1);
                if c == 0 {
                    break;
                }
                call(&mut b, &mut m, $ops[c - 1]);
                ch.step(1);
            }
            if round == 2 {
                break;
            }
            let copy = if round == 0 { Some((b.clone(), m.t.clone(), m.keys.clone())) } else { None };
            match ch.free(2) {
                0 => product(&Transaction::$kind(b.finalize()), &m, true)?,
                _ => product(&Transaction::$kind(b.finalize_without_signature()), &m, false)?,
            }
            if let Some((mut c, t, keys)) = copy {
                let m = MB { t, keys, ..m };
                peek(&c, &m)?;
                product(&c.finalize_as_transaction(), &m, true)?;
            }
            m.t = m_tx(&Transaction::$kind(Default::default()));
        }
        finish!(ch, b, m, $kind)
    }};
}
fn reuse_script(ch: &mut Ch, d: [usize; 3]) -> R {
    let m = script_mb(&[1, 2, 3], &[4, 5]);
    let b = TransactionBuilder::<Script>::script(vec![1, 2, 3], vec![4, 5]);
    reuse!(ch, b, m, Script, ALL, d)
}
fn reuse_create(ch: &mut Ch, d: [usize; 3]) -> R {
    let m = create_mb(&[1; 8], &pat(9, 9), &[(pat(1, 1), pat(2, 2))]);
    let b = TransactionBuilder::<Create>::create(r_wit(&[1; 8]), pat(9, 9).into(), vec![r_slot(&(pat(1, 1), pat(2, 2)))]);
    reuse!(ch, b, m, Create, ALL, d)
}
const ALL: [usize; OPS] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22];
const COUNTS: [usize; 25] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 31, 63, 127, 200, 253, 254, 255, 256];
const FEW: [usize; 7] = [3, 4, 6, 18, 15, 22, 9];
fn many<T: Buildable>(b: &mut TransactionBuilder<T>, m: &mut MB, n: usize, how: usize) {
    for i in 0..n {
        match how {
            0 => unsigned(b, m, false, i % 3),
            1 => unsigned(b, m, true, i % 2),
            2 => {
                if i % 2 == 0 {
                    call(b, m, 18);
                } else {
                    unsigned(b, m, i % 3 == 0, i % 2)
                }
            }
            3 => unsigned(b, m, i % 2 == 1, 0),
            // plain witnesses, then one keyed coin or message
            _ => {
                if i + 1 < n {
                    call(b, m, 18);
                } else {
                    unsigned(b, m, how == 5, 1)
                }
            }
        }
    }
}
pub fn c18_spaces(th: bool) -> Vec<Space> {
    let d = if th { 4 } else { 3 };
    let e = if th { 7 } else { 5 };
    let mut v = vec![];
    v.push(space("script-calls", 0, &format!("every sequence of <= {d} of {OPS} builder calls x 6 ways to finish"), move |ch| run_script(ch, d, &ALL)));
    v.push(space("create-calls", 0, &format!("every sequence of <= {d} of {OPS} builder calls x 6 ways to finish"), move |ch| run_create(ch, d, &ALL)));
    v.push(space("script-inputs", 0, &format!("every sequence of <= {e} of {} builder calls (keyed coins of two keys, keyed message, witness, change output, predicate preparation, contract input)", FEW.len()), move |ch| run_script(ch, e, &FEW)));
    v.push(space("create-inputs", 0, &format!("every sequence of <= {e} of {} builder calls", FEW.len()), move |ch| run_create(ch, e, &FEW)));
    let r: [usize; 3] = if th { [2, 2, 0] } else { [1, 1, 1] };
    let what = if th { format!("every sequence of <= 2 of {OPS} calls, a first product, <= 2 more calls, a second product, and a third") } else { format!("every sequence of <= 1 of {OPS} calls before each of three products of one builder") };
    v.push(space("script-reuse", 0, &format!("{what}; and the product of a copy taken before the first"), move |ch| reuse_script(ch, r)));
    v.push(space("create-reuse", 0, &format!("{what}; and the product of a copy taken before the first"), move |ch| reuse_create(ch, r)));
    let hi = if th { 1100 } else { 300 };
    v.push(space("create-bytecode", 0, &format!("bytecode of every length 0..={hi} and the big lengths x slots 0..=3 x 3 salts, every way to finish"), move |ch| {
        let i = ch.free(hi + 1 + BIG.len());
        let n = if i <= hi { i } else { BIG[i - hi - 1] };
        let slots: Vec<(B32, B32)> = (0..ch.free(4)).map(|i| (pat(5 + i as u8, i), pat(6, i))).rev().collect();
        let salt = [Z, pat(9, 9), [0xff; 32]][ch.free(3)];
        let code = bytes(7, n);
        let m = create_mb(&code, &salt, &slots);
        let b = TransactionBuilder::<Create>::create(r_wit(&code), salt.into(), slots.iter().map(r_slot).collect());
        finish!(ch, b, m, Create)
    }));
    v.push(space("script-bodies", 0, "script and data of every length 0..=40, every way to finish", |ch| {
        let (a, c) = (bytes(1, ch.free(41)), bytes(2, ch.free(41)));
        let m = script_mb(&a, &c);
        let b = TransactionBuilder::<Script>::script(a.clone(), c.clone());
        finish!(ch, b, m, Script)
    }));
    let d = if th { 3 } else { 2 };
    v.push(values_space(Kind::Script, d));
    v.push(values_space(Kind::Create, d));
    v.push(repeats_space(Kind::Script, th));
    v.push(repeats_space(Kind::Create, th));
    v.push(sizes_space(th));
    v.push(space("script-settings", 3, "gas price, gas limit and maturity over the word alphabet, set once or again", |ch| {
        let mut m = script_mb(&[1], &[]);
        let mut b = TransactionBuilder::<Script>::script(vec![1], vec![]);
        for round in 0..2 {
            let (p, l, a) = (dev_word(ch, 5 + round), dev_word(ch, 6 + round), dev_word(ch, 7 + round));
            b.gas_price(p).gas_limit(l).maturity(a);
            m.t.price = p;
            m.t.limit = l;
            m.t.mat = a;
        }
        finish!(ch, b, m, Script)
    }));
    v.push(space("many-keyed-inputs", 0, if th { "0..=256 keyed inputs or witnesses in 6 patterns over 3 keys, for script and create" } else { "0..=16, 31, 63, 127, 200 and 253..=256 keyed inputs or witnesses in 6 patterns over 3 keys, for script and create" }, move |ch| {
        let n = if th { ch.free(257) } else { COUNTS[ch.free(COUNTS.len())] };
        let how = ch.free(6);
        // (a witness index has 8 bits; the bytecode takes one of a create's)
        if ch.flag() {
            let mut m = script_mb(&[1], &[2]);
            let mut b = TransactionBuilder::<Script>::script(vec![1], vec![2]);
            many(&mut b, &mut m, n, how);
            finish!(ch, b, m, Script)
        } else {
            let mut m = create_mb(&[1; 8], &Z, &[]);
            let mut b = TransactionBuilder::<Create>::create(r_wit(&[1; 8]), Z.into(), vec![]);
            many(&mut b, &mut m, n.min(255), how);
            finish!(ch, b, m, Create)
        }
    }));
    v.push(space("mint", 1, "pointer over its alphabet; every sequence of <= 4 outputs of every kind; every way to finish", |ch| {
        let ptr = dev_ptr(ch, (0x0102_0304, 0x0506));
        let mut t = MTx::new(Kind::Mint);
        t.ptr = ptr;
        let mut b = TransactionBuilder::<fuel_tx::Mint>::mint(ptr.0, ptr.1);
        for i in 0..ch.free(5) {
            let x = def_out(ch.free(6), i);
            b.add_output(r_out(&x));
            t.outs.push(x);
        }
        let m = MB { t, prep_s: false, prep_p: false, keys: vec![] };
        ch.step(1);
        ch.state(&m.t);
        ch.traced();
        let ok = rules(&m.t, ptr.0 as u64, &params()).is_empty();
        let f = ch.free(6);
        match f {
            0 => product(&Transaction::Mint(b.finalize()), &m, true)?,
            1 => product(&b.finalize_as_transaction(), &m, true)?,
            2 => product(&Transaction::Mint(b.finalize_without_signature()), &m, false)?,
            3 => product(&b.finalize_without_signature_as_transaction(), &m, false)?,
            4 if ok => {
                let c = b.finalize_checked_basic(ptr.0 as u64, &params());
                ensure_eq!(c.checks().bits(), 1, "checks");
                product(&Transaction::Mint(c.transaction().clone()), &m, true)?
            }
            5 if ok => {
                let c = b.finalize_checked(ptr.0 as u64, &params());
                ensure_eq!(c.checks().bits(), 3, "checks");
                product(&Transaction::Mint(c.transaction().clone()), &m, true)?
            }
            _ => {}
        }
        // what is built next starts from the default
        let mut m = MB { t: m_tx(&Transaction::Mint(Default::default())), prep_s: false, prep_p: false, keys: vec![] };
        if !(f >= 4 && !ok) {
            let x = def_out(4, 9);
            b.add_output(r_out(&x));
            m.t.outs.push(x);
            product(&b.finalize_as_transaction(), &m, true)?;
        }
        ch.outcome("mint");
        Ok(())
    }));
    v.push(space("constructors", 2, "direct constructors against field setters: script, create and mint over the field alphabets, and the direct unsigned-input calls on a transaction", |ch| {
        let kind = KINDS[ch.free(3)];
        let base = rich(kind);
        let mut t = dev_tx(ch, &base);
        ch.state(&t);
        ch.traced();
        if kind == Kind::Script {
            t.rroot = Z;
        }
        let tx = r_tx(&t);
        ensure!(m_tx(&tx) == t, "constructor made {:?} from {t:?}", m_tx(&tx));
        ensure!(!tx.is_computed(), "a constructed transaction has metadata");
        ensure_eq!(*tx.id(), model_id(&t), "id");
        if let Transaction::Create(c) = &tx {
            // the declared length is derived from the designated witness when that exists
            let d = fuel_tx::Transaction::create(t.price, t.limit, t.mat, t.bcwi, t.salt.into(), c.storage_slots().clone(), c.inputs().clone(), c.outputs().clone(), c.witnesses().clone());
            let want = t.wit.get(t.bcwi as usize).map_or(0, |w| w.len() as u64 / 4);
            ensure_eq!(*d.bytecode_length(), want, "bytecode length of Transaction::create, index {} of {} witnesses", t.bcwi, t.wit.len());
        }
        ch.step(2);
        ch.outcome("constructed");
        Ok(())
    }));
    v
}
