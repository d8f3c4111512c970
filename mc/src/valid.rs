//! C08/C09/C10 validity rules: a reference rule set, and the spaces on which the real checks are
//! compared with it. Uses only what the reduced (no-std) build offers as well (see C23).
use crate::corpus::*;
use crate::ensure;
use crate::explore::*;
use crate::model::*;
use fuel_tx::{CheckError as E, Checkable, ConsensusParameters as P, Transaction};

const BASE: B32 = Z;

pub fn in_asset(x: &MIn) -> Option<B32> {
    match x {
        MIn::CoinS { asset, .. } | MIn::CoinP { asset, .. } => Some(*asset),
        MIn::MsgS { .. } | MIn::MsgP { .. } => Some(BASE),
        MIn::Con { .. } => None,
    }
}
fn coin_utxo(x: &MIn) -> Option<(B32, u8)> {
    match x {
        MIn::CoinS { utxo, .. } | MIn::CoinP { utxo, .. } => Some(*utxo),
        _ => None,
    }
}
fn mid(x: &MIn) -> Option<B32> {
    match x {
        MIn::MsgS { mid, .. } | MIn::MsgP { mid, .. } => Some(*mid),
        _ => None,
    }
}
fn con_id(x: &MIn) -> Option<B32> {
    match x {
        MIn::Con { cid, .. } => Some(*cid),
        _ => None,
    }
}
fn dups<T: Ord + Clone>(it: impl Iterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = it.collect();
    v.sort();
    let mut d: Vec<T> = v.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0].clone()).collect();
    d.dedup();
    d
}
fn over(n: usize, max: u64) -> bool {
    n as u64 > max
}
/// Rules on one input at position i (signature aside).
pub fn input_rules(i: usize, x: &MIn, outs: &[MOut], nwit: usize, p: &P) -> Vec<E> {
    let mut v = vec![];
    let (pred, data, wi) = match x {
        MIn::CoinS { wi, .. } => (None, None, Some(*wi)),
        MIn::CoinP { pred, pdata, .. } => (Some((pred, pdata)), None, None),
        MIn::Con { .. } => (None, None, None),
        MIn::MsgS { data, wi, .. } => (None, Some(data), Some(*wi)),
        MIn::MsgP { data, pred, pdata, .. } => (Some((pred, pdata)), Some(data), None),
    };
    if let Some((pr, pd)) = pred {
        if pr.is_empty() {
            v.push(E::InputPredicateEmpty { index: i });
        }
        if over(pr.len(), p.max_predicate_length) {
            v.push(E::InputPredicateLength { index: i });
        }
        if over(pd.len(), p.max_predicate_data_length) {
            v.push(E::InputPredicateDataLength { index: i });
        }
    }
    if let Some(d) = data {
        if over(d.len(), p.max_message_data_length) {
            v.push(E::InputMessageDataLength { index: i });
        }
    }
    if let Some(w) = wi {
        if w as usize >= nwit {
            v.push(E::InputWitnessIndexBounds { index: i });
        }
    }
    if let MIn::Con { .. } = x {
        let n = outs.iter().filter(|o| matches!(o, MOut::Con { idx, .. } if *idx as usize == i)).count();
        if n != 1 {
            v.push(E::InputContractAssociatedOutputContract { index: i });
        }
    }
    v
}
pub fn output_rules(i: usize, o: &MOut, ins: &[MIn]) -> Vec<E> {
    match o {
        MOut::Con { idx, .. } if !matches!(ins.get(*idx as usize), Some(MIn::Con { .. })) => vec![E::OutputContractInputIndex { index: i }],
        _ => vec![],
    }
}
fn common(t: &MTx, h: u64, p: &P) -> Vec<E> {
    let mut v = vec![];
    if t.limit > p.max_gas_per_tx {
        v.push(E::TransactionGasLimit);
    }
    if t.mat > h {
        v.push(E::TransactionMaturity);
    }
    if over(t.ins.len(), p.max_inputs) {
        v.push(E::TransactionInputsMax);
    }
    if over(t.outs.len(), p.max_outputs) {
        v.push(E::TransactionOutputsMax);
    }
    if over(t.wit.len(), p.max_witnesses) {
        v.push(E::TransactionWitnessesMax);
    }
    for a in dups(t.outs.iter().filter_map(|o| if let MOut::Change { asset, .. } = o { Some(*asset) } else { None })) {
        v.push(E::TransactionOutputChangeAssetIdDuplicated(asset(&a)));
    }
    for u in dups(t.ins.iter().filter_map(coin_utxo)) {
        v.push(E::DuplicateInputUtxoId { utxo_id: r_utxo(&u) });
    }
    for c in dups(t.ins.iter().filter_map(con_id)) {
        v.push(E::DuplicateInputContractId { contract_id: cid(&c) });
    }
    for m in dups(t.ins.iter().filter_map(mid)) {
        v.push(E::DuplicateMessageInputId { message_id: m.into() });
    }
    for (i, x) in t.ins.iter().enumerate() {
        v.extend(input_rules(i, x, &t.outs, t.wit.len(), p));
    }
    let have: std::collections::BTreeSet<B32> = t.ins.iter().filter_map(in_asset).collect();
    for (i, o) in t.outs.iter().enumerate() {
        v.extend(output_rules(i, o, &t.ins));
        match o {
            MOut::Change { asset: a, .. } if !have.contains(a) => v.push(E::TransactionOutputChangeAssetIdNotFound(asset(a))),
            MOut::Coin { asset: a, .. } if !have.contains(a) => v.push(E::TransactionOutputCoinAssetIdNotFound(asset(a))),
            _ => {}
        }
    }
    v
}
/// Every rule of the basic check the transaction violates; empty iff it is valid.
pub fn rules(t: &MTx, h: u64, p: &P) -> Vec<E> {
    if t.kind == Kind::Mint {
        let mut v = vec![];
        if over(t.outs.len(), p.max_outputs) {
            v.push(E::TransactionOutputsMax);
        }
        if t.ptr.0 as u64 != h {
            v.push(E::TransactionMintIncorrectBlockHeight);
        }
        if t.outs.iter().any(|o| !matches!(o, MOut::Coin { .. })) {
            v.push(E::TransactionMintOutputIsNotCoin);
        }
        for a in dups(t.outs.iter().filter_map(|o| if let MOut::Coin { asset, .. } = o { Some(*asset) } else { None })) {
            v.push(E::TransactionOutputCoinAssetIdDuplicated(asset(&a)));
        }
        return v;
    }
    let mut v = common(t, h, p);
    if t.kind == Kind::Script {
        if over(t.script.len(), p.max_script_length) {
            v.push(E::TransactionScriptLength);
        }
        if over(t.sdata.len(), p.max_script_data_length) {
            v.push(E::TransactionScriptDataLength);
        }
        for (i, o) in t.outs.iter().enumerate() {
            if let MOut::Created { .. } = o {
                v.push(E::TransactionScriptOutputContractCreated { index: i });
            }
        }
    } else {
        match t.wit.get(t.bcwi as usize) {
            None => v.push(E::TransactionCreateBytecodeWitnessIndex),
            Some(w) => {
                if over(w.len(), p.contract_max_size) || w.len() as u64 / 4 != t.bclen {
                    v.push(E::TransactionCreateBytecodeLen);
                }
            }
        }
        if over(t.slots.len(), p.max_storage_slots) {
            v.push(E::TransactionCreateStorageSlotMax);
        }
        if t.slots.windows(2).any(|w| w[0].0 > w[1].0) {
            v.push(E::TransactionCreateStorageSlotOrder);
        }
        for (i, x) in t.ins.iter().enumerate() {
            if let MIn::Con { .. } = x {
                v.push(E::TransactionCreateInputContract { index: i });
            }
        }
        let mut seen = false;
        for (i, o) in t.outs.iter().enumerate() {
            match o {
                MOut::Con { .. } => v.push(E::TransactionCreateOutputContract { index: i }),
                MOut::Var { .. } => v.push(E::TransactionCreateOutputVariable { index: i }),
                MOut::Change { asset, .. } if *asset != BASE => v.push(E::TransactionCreateOutputChangeNotBaseAsset { index: i }),
                MOut::Created { .. } => {
                    if seen {
                        v.push(E::TransactionCreateOutputContractCreatedMultiple { index: i });
                    }
                    seen = true;
                }
                _ => {}
            }
        }
    }
    v
}

pub fn judge(what: &str, got: &Result<(), E>, want: &[E], t: &MTx, h: u64, p: &P) -> R {
    match got {
        Ok(()) => ensure!(want.is_empty(), "{what} accepted although these rules are violated: {:?}; height {h}, {p:?}, {}", &want[..want.len().min(5)], brief(t)),
        Err(e) => {
            ensure!(!want.is_empty(), "{what} refused a valid transaction with {e:?}; height {h}, {p:?}, {}", brief(t));
            ensure!(want.contains(e), "{what} names {e:?}, which is not violated (violated: {:?}); height {h}, {p:?}, {}", &want[..want.len().min(5)], brief(t));
        }
    }
    Ok(())
}
pub fn brief(t: &MTx) -> String {
    let mut s = format!("{t:?}");
    if s.len() > 1200 {
        s.truncate(1200);
        s.push_str("...");
    }
    s
}
/// The real basic check of the transaction, through the specific and the generic type, against the rules.
pub fn check_valid(ch: &mut Ch, t: &MTx, h: u64, p: &P) -> R {
    let want = rules(t, h, p);
    let tx = r_tx(t);
    let got = tx.check_without_signatures(h, p);
    judge("basic check", &got, &want, t, h, p)?;
    let spec = match &tx {
        Transaction::Script(s) => s.check_without_signatures(h, p),
        Transaction::Create(s) => s.check_without_signatures(h, p),
        Transaction::Mint(s) => s.check_without_signatures(h, p),
    };
    ensure!(spec == got, "specific type says {spec:?}, generic type {got:?}: {}", brief(t));
    ch.step(2);
    ch.traced();
    match &got {
        Ok(()) => ch.outcome("valid"),
        Err(e) => {
            let s = format!("{e:?}");
            ch.outcome(s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""));
        }
    }
    ch.sample(|| format!("height {h}, {got:?}, {t:?}"));
    Ok(())
}
/// Per-element entry points with arbitrary positions.
fn check_elems(ch: &mut Ch, t: &MTx, h: u64, p: &P) -> R {
    let ins: Vec<_> = t.ins.iter().map(r_in).collect();
    let outs: Vec<_> = t.outs.iter().map(r_out).collect();
    let wit: Vec<_> = t.wit.iter().map(|w| r_wit(w)).collect();
    for (k, (x, r)) in t.ins.iter().zip(&ins).enumerate() {
        for i in [k, k + 1, 255, 256] {
            judge("Input::check_without_signature", &r.check_without_signature(i, &outs, &wit, p), &input_rules(i, x, &t.outs, t.wit.len(), p), t, h, p)?;
            ch.step(1);
        }
    }
    for (k, (x, r)) in t.outs.iter().zip(&outs).enumerate() {
        for i in [k, k + 7] {
            judge("Output::check", &r.check(i, &ins), &output_rules(i, x, &t.ins), t, h, p)?;
            ch.step(1);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ spaces
fn aid(k: usize) -> B32 {
    match k {
        0 => BASE,
        k => pat(0x70 + k as u8, 1),
    }
}
/// Inputs whose ids, assets and kinds collide with each other.
const VIN: usize = 12;
fn vin(k: usize) -> MIn {
    let a = (pat(1, 1), 3u8);
    let b = (pat(2, 2), 3u8);
    let coin = |utxo, asset| MIn::CoinS { utxo, owner: pat(9, 9), amount: 5, asset, ptr: (0, 0), wi: 0, mat: 0 };
    let pred = |utxo, asset| MIn::CoinP { utxo, owner: pat(9, 8), amount: 5, asset, ptr: (0, 0), mat: 0, pred: vec![1, 2], pdata: vec![] };
    let con = |utxo, c: u8| MIn::Con { utxo, bal: Z, st: Z, ptr: (0, 0), cid: pat(c, 4) };
    match k {
        0 => coin(a, aid(0)),
        1 => coin(b, aid(1)),
        2 => coin(a, aid(1)),
        3 => pred(b, aid(2)),
        4 => pred(a, aid(1)),
        5 => con((Z, 0), 0x21),
        6 => con((Z, 0), 0x22),
        7 => MIn::MsgS { mid: pat(0x31, 1), sender: pat(1, 1), rec: pat(9, 9), amount: 5, nonce: 1, wi: 0, data: vec![1] },
        8 => MIn::MsgP { mid: pat(0x31, 1), sender: pat(1, 1), rec: pat(9, 9), amount: 5, nonce: 1, data: vec![], pred: vec![3], pdata: vec![1] },
        9 => MIn::MsgS { mid: pat(0x32, 1), sender: pat(1, 1), rec: pat(9, 9), amount: 5, nonce: 2, wi: 0, data: vec![] },
        10 => coin((a.0, 4), aid(0)),
        _ => con(a, 0x23),
    }
}
const VOUT: usize = 15;
fn vout(k: usize) -> MOut {
    match k {
        0..=3 => MOut::Coin { to: pat(9, 1), amount: 1, asset: aid(k) },
        4..=7 => MOut::Change { to: pat(9, 1), amount: 0, asset: aid(k - 4) },
        8..=11 => MOut::Con { idx: k as u8 - 8, bal: Z, st: Z },
        12 => MOut::Msg { rec: Z, amount: 0 },
        13 => MOut::Var { to: Z, amount: 0, asset: aid(3) },
        _ => MOut::Created { cid: pat(4, 4), st: Z },
    }
}
/// A head that violates nothing under `params0`.
fn vhead(kind: Kind) -> MTx {
    let mut t = MTx::new(kind);
    t.price = 1;
    t.limit = 10;
    t.mat = 3;
    t.ptr = (7, 1);
    t.wit = vec![bytes(1, 12)];
    t.bclen = 3;
    t.script = bytes(2, 4);
    if kind == Kind::Create {
        t.slots = vec![(pat(1, 0), Z), (pat(2, 0), Z)];
    }
    if kind == Kind::Mint {
        t = MTx { ptr: (7, 1), ..MTx::new(kind) };
    }
    t
}
const H0: u64 = 7;
/// Small limits, all different from each other, so that a rule reading another limit shows.
pub fn params0() -> P {
    P {
        contract_max_size: 24,
        max_inputs: 9,
        max_outputs: 10,
        max_witnesses: 7,
        max_gas_per_tx: 100,
        max_script_length: 13,
        max_script_data_length: 15,
        max_storage_slots: 5,
        max_predicate_length: 17,
        max_predicate_data_length: 19,
        gas_price_factor: 3,
        gas_per_byte: 2,
        max_message_data_length: 21,
    }
}
pub fn collisions(kind: Kind, ni: usize, no: usize) -> Space {
    space(
        &format!("collisions-{kind:?}"),
        0,
        &format!("every sequence of <= {ni} of {VIN} inputs with colliding ids and assets x every sequence of <= {no} of {VOUT} outputs"),
        move |ch| {
            let mut t = vhead(kind);
            let n = ch.free(ni + 1);
            for _ in 0..n {
                let k = ch.free(VIN);
                t.ins.push(vin(k));
            }
            let n = ch.free(no + 1);
            for _ in 0..n {
                let k = ch.free(VOUT);
                t.outs.push(vout(k));
            }
            ch.state(&t);
            check_valid(ch, &t, H0, &params0())?;
            if t.outs.len() <= 2 {
                check_elems(ch, &t, H0, &params0())?;
            }
            Ok(())
        },
    )
}
/// n elements, all valid, plus one output of another kind at the end.
fn long(kind: Kind, which: usize, n: usize) -> MTx {
    let mut t = vhead(kind);
    for i in 0..n {
        let id = {
            let mut b = pat(5, i);
            b[2] = (i >> 8) as u8;
            b
        };
        match which {
            0 => t.ins.push(match i % 2 {
                0 => MIn::CoinS { utxo: (id, 1), owner: Z, amount: 1, asset: BASE, ptr: (0, 0), wi: 0, mat: 0 },
                _ => MIn::CoinP { utxo: (id, 1), owner: Z, amount: 1, asset: BASE, ptr: (0, 0), mat: 0, pred: vec![1], pdata: vec![] },
            }),
            1 => {
                t.ins.push(MIn::Con { utxo: (Z, 0), bal: Z, st: Z, ptr: (0, 0), cid: id });
                t.outs.push(MOut::Con { idx: i as u8, bal: Z, st: Z });
            }
            2 => t.ins.push(match i % 2 {
                0 => MIn::MsgS { mid: id, sender: Z, rec: Z, amount: 1, nonce: 0, wi: 0, data: vec![] },
                _ => MIn::MsgP { mid: id, sender: Z, rec: Z, amount: 1, nonce: 0, data: vec![], pred: vec![1], pdata: vec![] },
            }),
            3 => {
                t.ins.push(MIn::CoinS { utxo: (id, 1), owner: Z, amount: 1, asset: id, ptr: (0, 0), wi: 0, mat: 0 });
                t.outs.push(MOut::Change { to: Z, amount: 0, asset: id });
            }
            _ => t.outs.push(MOut::Coin { to: Z, amount: 1, asset: id }),
        }
    }
    t
}
fn set_dup(t: &mut MTx, which: usize, i: usize, j: usize) {
    match which {
        0 | 1 | 2 => match (t.ins[i].clone(), &mut t.ins[j]) {
            (MIn::CoinS { utxo: u, .. } | MIn::CoinP { utxo: u, .. }, MIn::CoinS { utxo, .. } | MIn::CoinP { utxo, .. }) => *utxo = u,
            (MIn::Con { cid: c, .. }, MIn::Con { cid, .. }) => *cid = c,
            (MIn::MsgS { mid: m, .. } | MIn::MsgP { mid: m, .. }, MIn::MsgS { mid, .. } | MIn::MsgP { mid, .. }) => *mid = m,
            _ => unreachable!(),
        },
        _ => match (t.outs[i].clone(), &mut t.outs[j]) {
            (MOut::Change { asset: a, .. }, MOut::Change { asset, .. }) => *asset = a,
            (MOut::Coin { asset: a, .. }, MOut::Coin { asset, .. }) => *asset = a,
            _ => unreachable!(),
        },
    }
}
fn wide() -> P {
    P { max_inputs: 300, max_outputs: 300, max_witnesses: 300, max_storage_slots: 1000, ..P::DEFAULT }
}
/// A duplicate at every pair of positions of long lists.
pub fn dup_positions(kind: Kind, sizes: &'static [usize], allow: &'static [usize]) -> Space {
    space(&format!("duplicate-positions-{kind:?}"), 0, &format!("one duplicate at every pair of positions of lists of {sizes:?} coins / contracts / messages / change or coin outputs, and no duplicate"), move |ch| {
        let which = ch.of(allow);
        let n = ch.of(sizes);
        let mut t = long(kind, which, n);
        let j = ch.free(n);
        if j > 0 {
            let i = ch.free(j);
            set_dup(&mut t, which, i, j);
        }
        ch.state(&(which, n, j, hash64(&t.ins), hash64(&t.outs)));
        check_valid(ch, &t, H0, &wide())
    })
}
/// Identifiers that differ in a single bit are different.
pub fn near(kind: Kind, allow: &'static [usize]) -> Space {
    space(&format!("near-collisions-{kind:?}"), 0, "two or three elements whose ids or assets differ in exactly one bit, for every bit", move |ch| {
        let which = ch.of(allow);
        let mut t = long(kind, which, 3);
        set_dup(&mut t, which, 0, 2);
        let b = ch.free(257 + 8);
        let flip = |x: &mut B32| x[b / 8] ^= 1 << (b % 8);
        if b < 256 {
            match which {
                0..=2 => match &mut t.ins[2] {
                    MIn::CoinS { utxo, .. } | MIn::CoinP { utxo, .. } => flip(&mut utxo.0),
                    MIn::Con { cid, .. } => flip(cid),
                    MIn::MsgS { mid, .. } | MIn::MsgP { mid, .. } => flip(mid),
                },
                _ => {
                    if let MOut::Change { asset, .. } | MOut::Coin { asset, .. } = &mut t.outs[2] {
                        flip(asset);
                    }
                    // sometimes the matching input asset exists
                    if which == 3 && ch.flag() {
                        if let (MOut::Change { asset: a, .. }, MIn::CoinS { asset, .. }) = (t.outs[2].clone(), &mut t.ins[2]) {
                            *asset = a;
                        }
                    }
                }
            }
        } else if b > 256 && which == 0 {
            if let MIn::CoinS { utxo, .. } | MIn::CoinP { utxo, .. } = &mut t.ins[2] {
                utxo.1 ^= 1 << (b - 257);
            }
        }
        ch.state(&t);
        check_valid(ch, &t, H0, &wide())
    })
}
/// Contract inputs and outputs referencing each other across the whole index range.
pub fn contract_indices(sizes: &'static [usize]) -> Space {
    space("contract-indices", 0, &format!("{sizes:?} inputs with a contract at every position, one or two contract outputs with every index 0..=255 at the first or last place"), move |ch| {
        let n = ch.of(sizes);
        let p = ch.free(n);
        let q = ch.free(256);
        let mode = ch.free(3);
        let mut t = long(Kind::Script, 0, n);
        t.ins[p] = vin(5);
        let con = |q: usize| MOut::Con { idx: q as u8, bal: Z, st: Z };
        match mode {
            0 => t.outs = vec![con(q)],
            1 => t.outs = vec![vout(4), con(p), con(q)],
            _ => t.outs = vec![con(q), vout(0), con(p % 256)],
        }
        ch.state(&(n, p, q, mode));
        check_valid(ch, &t, H0, &wide())
    })
}
pub const EDGE: [i64; 3] = [0, -1, 1];
fn around(ch: &mut Ch, lim: u64, cap: u64) -> usize {
    // within, at, over
    let d = ch.pick(5);
    let l = lim.min(cap) as usize;
    match d {
        0 => (l / 2).max(1).min(l.max(1)),
        1 => l.saturating_sub(1),
        2 => l,
        3 => l + 1,
        _ => 0,
    }
}
fn psets(i: usize) -> P {
    let p = params0();
    match i {
        0 => p,
        // each limit the smallest, all others large
        1..=10 => {
            let b = 30;
            let mut q = P { contract_max_size: b, max_inputs: b, max_outputs: b, max_witnesses: b, max_gas_per_tx: 1 << 40, max_script_length: b, max_script_data_length: b, max_storage_slots: b, max_predicate_length: b, max_predicate_data_length: b, max_message_data_length: b, ..p };
            let s = 6;
            match i {
                1 => q.contract_max_size = s,
                2 => q.max_inputs = s,
                3 => q.max_outputs = s,
                4 => q.max_witnesses = s,
                5 => q.max_script_length = s,
                6 => q.max_script_data_length = s,
                7 => q.max_storage_slots = s,
                8 => q.max_predicate_length = s,
                9 => q.max_predicate_data_length = s,
                _ => q.max_message_data_length = s,
            }
            q
        }
        11 => P { contract_max_size: 0, max_inputs: 0, max_outputs: 0, max_witnesses: 0, max_gas_per_tx: 0, max_script_length: 0, max_script_data_length: 0, max_storage_slots: 0, max_predicate_length: 0, max_predicate_data_length: 0, max_message_data_length: 0, ..p },
        12 => P { contract_max_size: u64::MAX, max_inputs: u64::MAX, max_outputs: u64::MAX, max_witnesses: u64::MAX, max_gas_per_tx: u64::MAX, max_script_length: u64::MAX, max_script_data_length: u64::MAX, max_storage_slots: u64::MAX, max_predicate_length: u64::MAX, max_predicate_data_length: u64::MAX, max_message_data_length: u64::MAX, ..p },
        // limits that only show their value when all 64 bits are read
        13 => P { contract_max_size: 1 << 32, max_inputs: 1 << 32, max_outputs: 1 << 33, max_witnesses: 1 << 34, max_gas_per_tx: 1 << 32, max_script_length: 1 << 32, max_script_data_length: 1 << 32, max_storage_slots: 1 << 32, max_predicate_length: 1 << 32, max_predicate_data_length: 1 << 32, max_message_data_length: 1 << 32, ..p },
        14 => P { max_inputs: 256, max_outputs: 256, max_witnesses: 256, max_storage_slots: 256, max_gas_per_tx: 256, contract_max_size: 256, max_script_length: 256, max_script_data_length: 256, max_predicate_length: 256, max_predicate_data_length: 256, max_message_data_length: 256, ..p },
        _ => P { max_inputs: 65536, max_outputs: 65536, max_witnesses: 65536, max_storage_slots: 65536, max_gas_per_tx: 65536, contract_max_size: 65536, max_script_length: 65536, max_script_data_length: 65536, max_predicate_length: 65536, max_predicate_data_length: 65536, max_message_data_length: 65536, ..p },
    }
}
/// Every limit from below to above its parameter, under several parameter sets.
pub fn limits(kind: Kind, bound: u32, sets: usize) -> Space {
    space(&format!("limits-{kind:?}"), bound, &format!("{sets} parameter sets x every combination of <= {bound} deviations: each size, count and number at 0, limit-1, limit, limit+1; gas, maturity and height at boundaries; witness indices around the count"), move |ch| {
        let p = psets(ch.free(sets));
        let mut t = vhead(kind);
        let cap = 70_000;
        let (mi, mo, mw) = (p.max_inputs.min(cap) as usize, p.max_outputs.min(cap) as usize, p.max_witnesses.min(cap) as usize);
        let mut h = H0;
        match ch.pick(6) {
            0 => t.limit = p.max_gas_per_tx / 2,
            1 => t.limit = p.max_gas_per_tx,
            2 => t.limit = p.max_gas_per_tx.wrapping_add(1),
            3 => t.limit = p.max_gas_per_tx.wrapping_sub(1),
            4 => t.limit = u64::MAX,
            _ => t.limit = 0,
        }
        let (hh, mm) = [(7, 3), (7, 7), (7, 8), (0, 0), (0, 1), (u32::MAX as u64, 1 << 32), (1 << 32, u32::MAX as u64), (u64::MAX, u64::MAX), (u64::MAX - 1, u64::MAX), (1 << 32, 1), (1, 1 << 32)][ch.pick(11)];
        h = h * 0 + hh;
        t.mat = mm;
        // witnesses first: indices refer to them
        let nw = match ch.pick(6) {
            0 => mw.min(3).max((p.max_witnesses > 0) as usize),
            1 => mw,
            2 => mw + 1,
            3 => mw.saturating_sub(1),
            4 => 0,
            _ => 1,
        };
        t.wit = (0..nw).map(|_| vec![]).collect();
        let wi = |ch: &mut Ch| match ch.pick(5) {
            0 => 0u8,
            1 => (nw.saturating_sub(1)).min(255) as u8,
            2 => nw.min(255) as u8,
            3 => (nw + 1).min(255) as u8,
            _ => 255,
        };
        let (w0, w1) = (wi(ch), wi(ch));
        // one input of every kind, rotated so that each kind gets each position
        let (l_pred0, l_pd0) = (around(ch, p.max_predicate_length, cap), around(ch, p.max_predicate_data_length, cap));
        let (l_pred1, l_pd1) = (around(ch, p.max_predicate_length, cap), around(ch, p.max_predicate_data_length, cap));
        let (l_m0, l_m1) = (around(ch, p.max_message_data_length, cap), around(ch, p.max_message_data_length, cap));
        let mut ins = vec![
            MIn::CoinS { utxo: (pat(1, 1), 0), owner: Z, amount: 1, asset: BASE, ptr: (0, 0), wi: w0, mat: u64::MAX },
            MIn::CoinP { utxo: (pat(1, 2), 0), owner: Z, amount: 1, asset: aid(1), ptr: (0, 0), mat: 0, pred: bytes(1, l_pred0), pdata: bytes(2, l_pd0) },
            MIn::MsgS { mid: pat(1, 3), sender: Z, rec: Z, amount: 1, nonce: 0, wi: w1, data: bytes(3, l_m0) },
            MIn::MsgP { mid: pat(1, 4), sender: Z, rec: Z, amount: 1, nonce: 0, data: bytes(4, l_m1), pred: bytes(5, l_pred1), pdata: bytes(6, l_pd1) },
        ];
        let script = kind == Kind::Script;
        if script {
            ins.push(vin(5));
        }
        let rot = ch.pick(ins.len());
        ins.rotate_left(rot);
        // counts: pad with coins (or truncate) to the wanted number
        let base_in = ins.len().min(mi);
        let ni = match ch.pick(5) {
            0 => base_in,
            1 => mi,
            2 => mi + 1,
            3 => mi.saturating_sub(1),
            _ => 0,
        };
        ins.truncate(ni);
        while ins.len() < ni {
            let i = ins.len();
            let mut id = pat(0x55, i);
            id[3] = (i >> 8) as u8;
            ins.push(MIn::CoinS { utxo: (id, 9), owner: Z, amount: 1, asset: BASE, ptr: (0, 0), wi: 0, mat: 0 });
        }
        t.ins = ins;
        if let Some(c) = t.ins.iter().position(|x| matches!(x, MIn::Con { .. })) {
            t.outs.push(MOut::Con { idx: c as u8, bal: Z, st: Z });
        }
        if t.ins.iter().any(|x| in_asset(x) == Some(BASE)) {
            t.outs.push(vout(4));
            t.outs.push(vout(0));
        }
        t.outs.push(vout(12));
        if !script {
            t.outs.push(vout(14));
        }
        let no = match ch.pick(5) {
            0 => t.outs.len().min(mo),
            1 => mo,
            2 => mo + 1,
            3 => mo.saturating_sub(1),
            _ => 0,
        };
        t.outs.truncate(no);
        while t.outs.len() < no {
            t.outs.push(vout(12));
        }
        if script {
            t.script = bytes(1, around(ch, p.max_script_length, cap));
            t.sdata = bytes(2, around(ch, p.max_script_data_length, cap));
        } else {
            let n = around(ch, p.max_storage_slots, 66_000);
            t.slots = (0..n)
                .map(|i| {
                    let mut k = Z;
                    k[28..].copy_from_slice(&(i as u32).to_be_bytes());
                    (k, Z)
                })
                .collect();
            let l = around(ch, p.contract_max_size, cap);
            t.bcwi = wi(ch);
            if let Some(w) = t.wit.get_mut(t.bcwi as usize) {
                *w = bytes(7, l);
            }
            t.bclen = match ch.pick(4) {
                0 => l as u64 / 4,
                1 => (l as u64 + 3) / 4,
                2 => l as u64,
                _ => (l as u64 / 4).wrapping_sub(1),
            };
        }
        ch.state(&(hash64(&t), h, hash64(&p)));
        check_valid(ch, &t, h, &p)
    })
}
/// The offending element at every position of long lists.
pub fn positions(kind: Kind, n_in: usize) -> Space {
    space(&format!("positions-{kind:?}"), 0, &format!("one offending input or output of each sort at every position of lists of up to {n_in} elements"), move |ch| {
        let n = ch.of(&[1, 2, 3, 9, n_in]);
        let i = ch.free(n);
        let sort = ch.free(16);
        let mut t = long(kind, 0, n);
        t.outs = (0..n).map(|_| vout(12)).collect();
        let p = P { max_predicate_length: 4, max_predicate_data_length: 5, max_message_data_length: 6, ..wide() };
        let pred = |a, b| MIn::CoinP { utxo: (pat(8, 8), 0), owner: Z, amount: 1, asset: BASE, ptr: (0, 0), mat: 0, pred: bytes(1, a), pdata: bytes(1, b) };
        let msgp = |a, b, c| MIn::MsgP { mid: pat(8, 9), sender: Z, rec: Z, amount: 1, nonce: 0, data: bytes(1, c), pred: bytes(1, a), pdata: bytes(1, b) };
        match sort {
            0 => t.ins[i] = pred(0, 0),
            1 => t.ins[i] = pred(5, 5),
            2 => t.ins[i] = pred(4, 6),
            3 => t.ins[i] = msgp(0, 0, 0),
            4 => t.ins[i] = msgp(5, 5, 6),
            5 => t.ins[i] = msgp(4, 6, 6),
            6 => t.ins[i] = msgp(4, 5, 7),
            7 => t.ins[i] = MIn::CoinS { utxo: (pat(8, 8), 0), owner: Z, amount: 1, asset: BASE, ptr: (0, 0), wi: 1, mat: 0 },
            8 => t.ins[i] = vin(5),
            9 => t.outs[i] = MOut::Con { idx: 0, bal: Z, st: Z },
            10 => t.outs[i] = vout(3),
            11 => t.outs[i] = vout(7),
            12 => t.outs[i] = if kind == Kind::Script { vout(14) } else { vout(13) },
            13 => {
                t.ins[i] = vin(5);
                t.outs[n - 1 - i] = MOut::Con { idx: i as u8, bal: Z, st: Z };
            }
            14 => {
                t.outs[0] = vout(14);
                t.outs[i] = vout(14);
            }
            _ => {
                t.ins[n - 1 - i] = vin(1);
                t.outs[i] = vout(5);
            }
        }
        ch.state(&(n, i, sort));
        check_valid(ch, &t, H0, &p)
    })
}
// ---- create
pub fn slot_orders(len: usize, keys: usize, sizes: &'static [usize]) -> Vec<Space> {
    vec![
        space("slot-orders", 0, &format!("every sequence of <= {len} slots over {keys} keys x 2 values"), move |ch| {
            let n = ch.free(len + 1);
            let mut t = vhead(Kind::Create);
            t.slots.clear();
            for _ in 0..n {
                let k = ch.free(keys);
                // keys that differ first at different bytes
                let mut b = Z;
                match k {
                    0 => {}
                    1 => b[31] = 1,
                    2 => b[31] = 0x80,
                    3 => b[15] = 1,
                    4 => b[0] = 1,
                    5 => b[0] = 0x80,
                    6 => b[7] = 0xff,
                    _ => b = [0xff; 32],
                }
                let v = if ch.flag() { pat(9, 9) } else { Z };
                t.slots.push((b, v));
            }
            ch.state(&t.slots);
            check_valid(ch, &t, H0, &P { max_storage_slots: 8, ..params0() })
        }),
        space("slot-inversions", 0, &format!("sorted lists of {sizes:?} slots with the key at any position moved to any other, made equal to its neighbour, or left alone"), move |ch| {
            let n = ch.of(sizes);
            let mut t = vhead(Kind::Create);
            t.slots = (0..n)
                .map(|i| {
                    let mut b = Z;
                    b[30] = (i >> 8) as u8;
                    b[31] = i as u8;
                    (b, pat(3, n - i))
                })
                .collect();
            let i = ch.free(n);
            let j = ch.free(n + 1);
            if j == n {
                if i + 1 < n {
                    t.slots[i + 1].0 = t.slots[i].0;
                }
            } else {
                let s = t.slots.remove(i);
                t.slots.insert(j, s);
            }
            ch.state(&(n, i, j));
            check_valid(ch, &t, H0, &wide())
        }),
    ]
}
pub fn bytecode_space(hi: usize) -> Space {
    space("bytecode-lengths", 0, &format!("bytecode of 0..={hi} bytes x declared lengths around a quarter x contract size limits around it x witness positions"), move |ch| {
        let l = ch.free(hi + 1);
        let mut t = vhead(Kind::Create);
        t.bclen = match ch.free(9) {
            0 => l as u64 / 4,
            1 => (l as u64 / 4).wrapping_add(1),
            2 => (l as u64 / 4).wrapping_sub(1),
            3 => l as u64,
            4 => l as u64 / 8,
            5 => 0,
            6 => l as u64 / 4 + (1 << 32),
            7 => l as u64 / 4 + (1 << 62),
            _ => u64::MAX,
        };
        let lim = match ch.free(7) {
            0 => l as u64,
            1 => (l as u64).saturating_sub(1),
            2 => l as u64 + 1,
            3 => l as u64 / 4,
            4 => 0,
            5 => u64::MAX,
            _ => l as u64 * 4,
        };
        let n = ch.free(4);
        t.wit = (0..n).map(|i| bytes(1, l + 4 + i)).collect();
        t.bcwi = ch.of(&[0u8, 1, 2, 3, 255]);
        if let Some(w) = t.wit.get_mut(t.bcwi as usize) {
            *w = bytes(2, l);
        }
        ch.state(&t);
        check_valid(ch, &t, H0, &P { contract_max_size: lim, ..params0() })
    })
}
// ---- mint
pub fn mint_spaces(no: usize) -> Vec<Space> {
    vec![
        space("mint-outputs", 0, &format!("every sequence of <= {no} of {VOUT} outputs x output limits 0..={} x heights", no + 1), move |ch| {
            let mut t = vhead(Kind::Mint);
            let n = ch.free(no + 1);
            for _ in 0..n {
                let k = ch.free(VOUT);
                t.outs.push(vout(k));
            }
            let max = ch.free(no + 2) as u64;
            let h = ch.of(&[H0, H0 + 1]);
            ch.state(&(hash64(&t), max, h));
            check_valid(ch, &t, h, &P { max_outputs: max, ..params0() })
        }),
        space("mint-heights", 0, "pointer heights x check heights at the boundaries of 8, 16, 32 and 64 bits, pointer index at boundaries", move |ch| {
            const HS: [u64; 15] = [0, 1, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_ffff_ffff, u64::MAX - 1, u64::MAX];
            let a = ch.of(&HS);
            let h = ch.of(&HS);
            let i = ch.of(&[0u16, 1, 255, 65535]);
            let mut t = vhead(Kind::Mint);
            t.ptr = (a as u32, i);
            let n = ch.free(2);
            t.outs = (0..n).map(|_| vout(0)).collect();
            ch.state(&(hash64(&t), h));
            check_valid(ch, &t, h, &params0())
        }),
        space("mint-output-limit", 0, "0..=300 outputs x limits at -1, 0, +1, defaults and extremes", move |ch| {
            let n = ch.free(301);
            let max = match ch.free(6) {
                0 => n as u64,
                1 => n as u64 + 1,
                2 => (n as u64).saturating_sub(1),
                3 => 255,
                4 => u64::MAX,
                _ => n as u64 + (1 << 32),
            };
            let t = long(Kind::Mint, 4, n);
            ch.state(&(n, max));
            check_valid(ch, &t, H0, &P { max_outputs: max, ..params0() })
        }),
    ]
}
/// A valid transaction with one element of every allowed kind and all fields distinct.
pub fn rich_valid(kind: Kind) -> MTx {
    let mut t = rich(kind);
    for (i, x) in t.ins.iter_mut().enumerate() {
        if let MIn::CoinS { wi, .. } | MIn::MsgS { wi, .. } = x {
            *wi = (i % 2) as u8;
        }
    }
    if kind == Kind::Create {
        t.ins.remove(2);
        t.outs.retain(|o| !matches!(o, MOut::Con { .. } | MOut::Var { .. }));
        t.bcwi = 1;
        t.bclen = t.wit[1].len() as u64 / 4;
        t.slots.sort();
    }
    if kind == Kind::Script {
        t.outs.retain(|o| !matches!(o, MOut::Created { .. }));
    }
    if kind == Kind::Mint {
        t.outs.retain(|o| matches!(o, MOut::Coin { .. }));
        return t;
    }
    let a = in_asset(&t.ins[0]).unwrap();
    for o in t.outs.iter_mut() {
        match o {
            MOut::Coin { asset, .. } => *asset = a,
            MOut::Change { asset, .. } => *asset = BASE,
            MOut::Con { idx, .. } => *idx = 2,
            _ => {}
        }
    }
    t
}
/// A transaction with every element kind that violates one rule (or sits right at its edge), whatever else it
/// holds: every combination of field deviations, with the violation kept.
pub fn broken(kind: Kind, bound: u32) -> Space {
    one_violation(kind, &format!("broken-{kind:?}"), bound, &[], &[])
}
/// The same, with one field or one list made large.
pub fn grown(kind: Kind, bound: u32, lens: &'static [usize], counts: &'static [usize]) -> Space {
    one_violation(kind, &format!("grown-{kind:?}"), bound, lens, counts)
}
fn one_violation(kind: Kind, name: &str, bound: u32, lens: &'static [usize], counts: &'static [usize]) -> Space {
    let base = rich_valid(kind);
    let more = if lens.is_empty() { String::new() } else { format!(", with any variable-length field of {lens:?} bytes or any sort of element {counts:?} times more") };
    space(name, bound, &format!("a transaction with every element kind and one violation (each rule in turn, the duplicated value itself also deviating) or none{more}, every combination of field deviations up to the bound"), move |ch| {
        let mut p = P { max_gas_per_tx: u64::MAX, ..P::DEFAULT };
        let mut h = u64::MAX;
        let mut t = base.clone();
        // indices of the elements made to agree after the deviations
        let mut tie: Option<(usize, usize)> = None;
        let mut tie_out: Option<(usize, usize)> = None;
        // no input of the base asset; with or without the outputs of that asset
        let mut no_base: Option<bool> = None;
        let at = |t: &MTx, f: fn(&MIn) -> bool| t.ins.iter().position(|x| f(x));
        let n_in = t.ins.len();
        // the first input of a kind, as corpus::def_in numbers them
        let first_of = |t: &MTx, k: usize| t.ins.iter().position(|x| std::mem::discriminant(x) == std::mem::discriminant(&def_in(k, 0, [1, 1, 1]))).unwrap();
        let front = |t: &mut MTx, x: MIn| {
            t.ins.push(x);
            t.ins.len() - 1
        };
        let con_at = at(&t, |x| matches!(x, MIn::Con { .. }));
        let script = kind == Kind::Script;
        // (the last: nothing violated)
        let which = ch.free(if script { 29 } else if kind == Kind::Create { 34 } else { 5 });
        if kind == Kind::Mint {
            h = t.ptr.0 as u64;
            t.outs = (0..4).map(|i| def_out(0, i)).collect();
            match which {
                0 => tie_out = Some((0, 1)),
                1 => tie_out = Some((0, 3)),
                2 => tie_out = Some((2, 3)),
                3 => p.max_outputs = 3,
                _ => {}
            }
        } else {
            match which {
                // 0..=8 the same identifier twice, every mix of kinds
                0..=3 => {
                    let (a, b) = [(0, 0), (0, 1), (1, 1), (1, 0)][which];
                    let x = first_of(&t, a);
                    let y = front(&mut t, def_in(b, 7, [6, 10, 3]));
                    tie = Some((x, y));
                }
                4..=7 => {
                    let (a, b) = [(3, 3), (3, 4), (4, 4), (4, 3)][which - 4];
                    let x = first_of(&t, a);
                    let y = front(&mut t, def_in(b, 7, [6, 10, 3]));
                    tie = Some((x, y));
                }
                8 => {
                    let y = front(&mut t, def_in(2, 7, [0, 0, 0]));
                    if let Some(x) = con_at {
                        tie = Some((x, y));
                        t.outs.push(MOut::Con { idx: y as u8, bal: Z, st: Z });
                    }
                }
                9 => {
                    let x = t.outs.iter().position(|o| matches!(o, MOut::Change { .. })).unwrap();
                    t.outs.push(t.outs[x].clone());
                    tie_out = Some((x, t.outs.len() - 1));
                }
                10 => t.outs.push(MOut::Coin { to: pat(1, 1), amount: 4, asset: pat(0x77, 7) }),
                11 => t.outs.push(MOut::Change { to: pat(1, 1), amount: 4, asset: pat(0x77, 7) }),
                12 => t.outs.push(MOut::Con { idx: 0, bal: pat(1, 1), st: pat(2, 1) }),
                13 => t.outs.push(MOut::Con { idx: n_in as u8, bal: pat(1, 1), st: pat(2, 1) }),
                14 => match at(&t, |x| matches!(x, MIn::CoinP { .. })) {
                    Some(i) => match &mut t.ins[i] {
                        MIn::CoinP { pred, .. } => pred.clear(),
                        _ => {}
                    },
                    None => {}
                },
                15 => match at(&t, |x| matches!(x, MIn::MsgP { .. })) {
                    Some(i) => match &mut t.ins[i] {
                        MIn::MsgP { pred, .. } => pred.clear(),
                        _ => {}
                    },
                    None => {}
                },
                16 => t.wit.truncate(1),
                17 => p.max_inputs = n_in as u64 - 1,
                18 => p.max_outputs = t.outs.len() as u64 - 1,
                19 => p.max_witnesses = 1,
                20 => p.max_predicate_length = 9,
                21 => p.max_predicate_data_length = 2,
                22 => p.max_message_data_length = 5,
                23 => h = t.mat - 1,
                24 => p.max_gas_per_tx = t.limit - 1,
                25 if script => t.outs.push(def_out(5, 7)),
                26 | 27 if script => no_base = Some(which == 27),
                28 if script => {}
                33 => {}
                31 | 32 => no_base = Some(which == 32),
                25 => t.outs.push(def_out(1, 7)),
                26 => t.outs.push(def_out(4, 7)),
                27 => t.outs.push(def_out(5, 7)),
                28 => t.bcwi = 2,
                29 => p.contract_max_size = t.wit[1].len() as u64 - 1,
                _ => p.max_storage_slots = 1,
            }
        }
        if !lens.is_empty() {
            grow(ch, &mut t, lens, counts);
            if kind == Kind::Create {
                t.bclen = t.wit.get(t.bcwi as usize).map_or(0, |w| w.len() as u64 / 4);
            }
        }
        let mut t = dev_tx(ch, &t);
        if let Some(drop) = no_base {
            t.ins.retain(|x| !matches!(x, MIn::MsgS { .. } | MIn::MsgP { .. }));
            for x in &mut t.ins {
                if let MIn::CoinS { asset, .. } | MIn::CoinP { asset, .. } = x {
                    *asset = if *asset == Z { pat(0x71, 1) } else { *asset };
                }
            }
            if drop {
                t.outs.retain(|o| !matches!(o, MOut::Coin { asset, .. } | MOut::Change { asset, .. } if *asset == Z));
            }
        }
        if let Some((x, y)) = tie {
            let (a, b) = t.ins.split_at_mut(y);
            match (&a[x], &mut b[0]) {
                (MIn::CoinS { utxo: u, .. } | MIn::CoinP { utxo: u, .. }, MIn::CoinS { utxo, .. } | MIn::CoinP { utxo, .. }) => *utxo = *u,
                (MIn::MsgS { mid: u, .. } | MIn::MsgP { mid: u, .. }, MIn::MsgS { mid, .. } | MIn::MsgP { mid, .. }) => *mid = *u,
                (MIn::Con { cid: u, .. }, MIn::Con { cid, .. }) => *cid = *u,
                _ => {}
            }
        }
        if let Some((x, y)) = tie_out {
            let (a, b) = t.outs.split_at_mut(y);
            match (&a[x], &mut b[0]) {
                (MOut::Change { asset: u, .. }, MOut::Change { asset, .. }) | (MOut::Coin { asset: u, .. }, MOut::Coin { asset, .. }) => *asset = *u,
                _ => {}
            }
        }
        ch.state(&(which, hash64(&t)));
        check_valid(ch, &t, h, &p)
    })
}
pub const LONG: [usize; 7] = [40, 100, 300, 1100, 5000, 20_000, 70_000];
pub const MANY: [usize; 5] = [5, 12, 40, 120, 230];
/// The general corpus (every element kind and field extreme) judged by the same rules.
fn corpus_check(h: u64, p: P) -> impl Fn(&mut Ch, &MTx) -> R {
    move |ch, t| check_valid(ch, t, h, &p)
}
pub fn c08_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![collisions(Kind::Script, if th { 4 } else { 3 }, 3)];
    if th {
        let mut s = collisions(Kind::Script, 3, 4);
        s.name = "collisions-Script-long".into();
        v.push(s);
    }
    v.push(limits(Kind::Script, if th { 3 } else { 2 }, 15));
    v.push(limits_big(Kind::Script));
    v.push(dup_positions(Kind::Script, if th { &[2, 3, 5, 17, 64, 255, 256] } else { &[2, 3, 5, 17, 100, 255] }, &[0, 1, 2, 3]));
    v.push(near(Kind::Script, &[0, 1, 2, 3]));
    v.push(contract_indices(if th { &[1, 2, 9, 100, 255, 256, 257] } else { &[1, 2, 9, 255, 257] }));
    v.push(positions(Kind::Script, 255));
    v.push(broken(Kind::Script, 2));
    v.push(grown(Kind::Script, if th { 1 } else { 0 }, if th { &LONG } else { &LONG[..5] }, &MANY));
    let g = std::sync::Arc::new(corpus_check(u64::MAX, P { max_gas_per_tx: u64::MAX, ..P::DEFAULT }));
    let base = rich_valid(Kind::Script);
    v.push(space("corpus-Script", if th { 3 } else { 2 }, "a valid transaction with one element of every allowed kind, every combination of field deviations up to the bound", move |ch| {
        let t = dev_tx(ch, &base);
        ch.state(&t);
        g(ch, &t)
    }));
    v
}
fn limits_big(kind: Kind) -> Space {
    let mut s = limits(kind, 1, 16);
    s.name = format!("limits-wide-{kind:?}");
    s
}
pub fn c09_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![collisions(Kind::Create, if th { 3 } else { 2 }, if th { 4 } else { 3 })];
    v.push(limits(Kind::Create, if th { 3 } else { 2 }, 15));
    v.push(limits_big(Kind::Create));
    v.push(dup_positions(Kind::Create, if th { &[2, 3, 5, 17, 64, 255] } else { &[2, 3, 5, 33, 255] }, &[0, 2, 3]));
    v.push(near(Kind::Create, &[0, 2, 3]));
    v.push(positions(Kind::Create, 255));
    v.push(broken(Kind::Create, 2));
    v.push(grown(Kind::Create, if th { 1 } else { 0 }, if th { &LONG } else { &LONG[..5] }, &MANY));
    v.extend(slot_orders(if th { 6 } else { 4 }, 8, if th { &[2, 3, 9, 64, 255, 300] } else { &[2, 3, 9, 100, 255] }));
    v.push(bytecode_space(if th { 300 } else { 70 }));
    let g = corpus_check(u64::MAX, P { max_gas_per_tx: u64::MAX, ..P::DEFAULT });
    let base = rich_valid(Kind::Create);
    v.push(space("corpus-Create", if th { 3 } else { 2 }, "a valid transaction with one element of every allowed kind, every combination of field deviations up to the bound", move |ch| {
        let t = dev_tx(ch, &base);
        ch.state(&t);
        g(ch, &t)
    }));
    v
}
pub fn c10_spaces(th: bool) -> Vec<Space> {
    let mut v = mint_spaces(if th { 5 } else { 4 });
    v.push(dup_positions(Kind::Mint, if th { &[2, 3, 5, 17, 64, 255, 300] } else { &[2, 3, 5, 17, 255] }, &[4]));
    v.push(near(Kind::Mint, &[4]));
    v.push(broken(Kind::Mint, if th { 3 } else { 2 }));
    v.push(grown(Kind::Mint, if th { 2 } else { 1 }, &LONG, &MANY));
    let g = corpus_check(u64::MAX, P::DEFAULT);
    v.push(space("corpus-Mint", 3, "a mint with one output of every kind, every combination of <= 3 field deviations", move |ch| {
        let mut b = rich(Kind::Mint);
        if ch.flag() {
            b.outs = (0..4).map(|i| def_out(0, i)).collect();
        }
        let t = dev_tx(ch, &b);
        ch.state(&t);
        g(ch, &t)?;
        check_valid(ch, &t, b.ptr.0 as u64, &P::DEFAULT)
    }));
    v
}
