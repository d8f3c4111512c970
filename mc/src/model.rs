//! Reference model of the protocol's data: plain structs, an independent encoder with labelled
//! spans, the signing form, and conversions to and from the real types (public API only).
use fuel_tx::field::*;
use fuel_tx::{Input, Mint, Output, Script as RScript, Create as RCreate, StorageSlot, Transaction, TxPointer as RPtr, UtxoId, Witness};
use fuel_tx::{Address, AssetId, Bytes32, ContractId, MessageId, Salt as RSalt};
use sha2::{Digest, Sha256};

pub type B32 = [u8; 32];
pub const Z: B32 = [0; 32];

pub fn sha(parts: &[&[u8]]) -> B32 {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

/// A pattern value no two fields share by accident: tag then counter bytes.
pub fn pat(tag: u8, i: usize) -> B32 {
    let mut b = [0u8; 32];
    for (k, x) in b.iter_mut().enumerate() {
        *x = tag.wrapping_mul(31).wrapping_add(k as u8).wrapping_add((i as u8).wrapping_mul(7)) ^ 0x5a;
    }
    b[0] = tag;
    b[1] = i as u8;
    b[31] = tag ^ (i as u8) ^ 0x80;
    b
}
pub fn word(tag: u8, i: usize) -> u64 {
    u64::from_be_bytes([tag, i as u8 ^ 0x3c, tag ^ 0xff, 3, 4, 5, i as u8, tag.wrapping_add(9)])
}
pub fn bytes(tag: u8, n: usize) -> Vec<u8> {
    (0..n).map(|k| tag ^ (k as u8).wrapping_mul(37) ^ ((k >> 8) as u8) | 1).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MIn {
    CoinS { utxo: (B32, u8), owner: B32, amount: u64, asset: B32, ptr: (u32, u16), wi: u8, mat: u64 },
    CoinP { utxo: (B32, u8), owner: B32, amount: u64, asset: B32, ptr: (u32, u16), mat: u64, pred: Vec<u8>, pdata: Vec<u8> },
    Con { utxo: (B32, u8), bal: B32, st: B32, ptr: (u32, u16), cid: B32 },
    MsgS { mid: B32, sender: B32, rec: B32, amount: u64, nonce: u64, wi: u8, data: Vec<u8> },
    MsgP { mid: B32, sender: B32, rec: B32, amount: u64, nonce: u64, data: Vec<u8>, pred: Vec<u8>, pdata: Vec<u8> },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MOut {
    Coin { to: B32, amount: u64, asset: B32 },
    Con { idx: u8, bal: B32, st: B32 },
    Msg { rec: B32, amount: u64 },
    Change { to: B32, amount: u64, asset: B32 },
    Var { to: B32, amount: u64, asset: B32 },
    Created { cid: B32, st: B32 },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Script,
    Create,
    Mint,
}
pub const KINDS: [Kind; 3] = [Kind::Script, Kind::Create, Kind::Mint];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MTx {
    pub kind: Kind,
    pub price: u64,
    pub limit: u64,
    pub mat: u64,
    pub script: Vec<u8>,
    pub sdata: Vec<u8>,
    pub rroot: B32,
    pub bclen: u64,
    pub bcwi: u8,
    pub salt: B32,
    pub slots: Vec<(B32, B32)>,
    pub ptr: (u32, u16),
    pub ins: Vec<MIn>,
    pub outs: Vec<MOut>,
    pub wit: Vec<Vec<u8>>,
}
impl MTx {
    pub fn new(kind: Kind) -> MTx {
        MTx {
            kind,
            price: 0,
            limit: 0,
            mat: 0,
            script: vec![],
            sdata: vec![],
            rroot: Z,
            bclen: 0,
            bcwi: 0,
            salt: Z,
            slots: vec![],
            ptr: (0, 0),
            ins: vec![],
            outs: vec![],
            wit: vec![],
        }
    }
}

fn pad(n: usize) -> usize {
    (n + 7) / 8 * 8
}

/// Encoder: bytes plus (label, index, start, len) spans.
#[derive(Default)]
pub struct Enc {
    pub b: Vec<u8>,
    pub spans: Vec<(&'static str, usize, usize, usize)>,
    pub quiet: bool,
}
impl Enc {
    fn mark(&mut self, l: &'static str, i: usize, start: usize) {
        if !self.quiet {
            self.spans.push((l, i, start, self.b.len() - start));
        }
    }
    fn w(&mut self, l: &'static str, i: usize, v: u64) {
        let s = self.b.len();
        self.b.extend_from_slice(&v.to_be_bytes());
        self.mark(l, i, s);
    }
    fn a(&mut self, l: &'static str, i: usize, v: &B32) {
        let s = self.b.len();
        self.b.extend_from_slice(v);
        self.mark(l, i, s);
    }
    fn raw(&mut self, l: &'static str, i: usize, v: &[u8]) {
        let s = self.b.len();
        self.b.extend_from_slice(v);
        self.b.resize(s + pad(v.len()), 0);
        self.mark(l, i, s);
    }
    pub fn get(&self, l: &str, i: usize) -> Option<(usize, usize)> {
        self.spans.iter().find(|s| s.0 == l && s.1 == i).map(|s| (s.2, s.3))
    }
    fn utxo(&mut self, l: &'static str, i: usize, u: &(B32, u8)) {
        let s = self.b.len();
        self.b.extend_from_slice(&u.0);
        self.b.extend_from_slice(&(u.1 as u64).to_be_bytes());
        self.mark(l, i, s);
    }
    fn ptr(&mut self, l: &'static str, i: usize, p: &(u32, u16)) {
        let s = self.b.len();
        self.b.extend_from_slice(&(p.0 as u64).to_be_bytes());
        self.b.extend_from_slice(&(p.1 as u64).to_be_bytes());
        self.mark(l, i, s);
    }
    pub fn input(&mut self, i: usize, x: &MIn) {
        let s = self.b.len();
        match x {
            MIn::CoinS { utxo, owner, amount, asset, ptr, wi, mat } => {
                self.coin(i, utxo, owner, *amount, asset, ptr, *wi, *mat, &[], &[]);
            }
            MIn::CoinP { utxo, owner, amount, asset, ptr, mat, pred, pdata } => {
                self.coin(i, utxo, owner, *amount, asset, ptr, 0, *mat, pred, pdata);
            }
            MIn::Con { utxo, bal, st, ptr, cid } => {
                self.w("in.tag", i, 1);
                self.utxo("in.utxo", i, utxo);
                self.a("in.bal", i, bal);
                self.a("in.st", i, st);
                self.ptr("in.ptr", i, ptr);
                self.a("in.cid", i, cid);
            }
            MIn::MsgS { mid, sender, rec, amount, nonce, wi, data } => {
                self.msg(i, mid, sender, rec, *amount, *nonce, *wi, data, &[], &[]);
            }
            MIn::MsgP { mid, sender, rec, amount, nonce, data, pred, pdata } => {
                self.msg(i, mid, sender, rec, *amount, *nonce, 0, data, pred, pdata);
            }
        }
        self.mark("in", i, s);
    }
    fn coin(&mut self, i: usize, utxo: &(B32, u8), owner: &B32, amount: u64, asset: &B32, ptr: &(u32, u16), wi: u8, mat: u64, pred: &[u8], pdata: &[u8]) {
        self.w("in.tag", i, 0);
        self.utxo("in.utxo", i, utxo);
        self.a("in.owner", i, owner);
        self.w("in.amount", i, amount);
        self.a("in.asset", i, asset);
        self.ptr("in.ptr", i, ptr);
        self.w("in.wi", i, wi as u64);
        self.w("in.mat", i, mat);
        self.w("in.plen", i, pred.len() as u64);
        self.w("in.pdlen", i, pdata.len() as u64);
        self.raw("in.pred", i, pred);
        self.raw("in.pdata", i, pdata);
    }
    fn msg(&mut self, i: usize, mid: &B32, sender: &B32, rec: &B32, amount: u64, nonce: u64, wi: u8, data: &[u8], pred: &[u8], pdata: &[u8]) {
        self.w("in.tag", i, 2);
        self.a("in.mid", i, mid);
        self.a("in.sender", i, sender);
        self.a("in.rec", i, rec);
        self.w("in.amount", i, amount);
        self.w("in.nonce", i, nonce);
        self.w("in.wi", i, wi as u64);
        self.w("in.dlen", i, data.len() as u64);
        self.w("in.plen", i, pred.len() as u64);
        self.w("in.pdlen", i, pdata.len() as u64);
        self.raw("in.data", i, data);
        self.raw("in.pred", i, pred);
        self.raw("in.pdata", i, pdata);
    }
    pub fn output(&mut self, i: usize, x: &MOut) {
        let s = self.b.len();
        let ccv = |e: &mut Enc, tag: u64, to: &B32, amount: u64, asset: &B32| {
            e.w("out.tag", i, tag);
            e.a("out.to", i, to);
            e.w("out.amount", i, amount);
            e.a("out.asset", i, asset);
        };
        match x {
            MOut::Coin { to, amount, asset } => ccv(self, 0, to, *amount, asset),
            MOut::Change { to, amount, asset } => ccv(self, 3, to, *amount, asset),
            MOut::Var { to, amount, asset } => ccv(self, 4, to, *amount, asset),
            MOut::Con { idx, bal, st } => {
                self.w("out.tag", i, 1);
                self.w("out.idx", i, *idx as u64);
                self.a("out.bal", i, bal);
                self.a("out.st", i, st);
            }
            MOut::Msg { rec, amount } => {
                self.w("out.tag", i, 2);
                self.a("out.rec", i, rec);
                self.w("out.amount", i, *amount);
            }
            MOut::Created { cid, st } => {
                self.w("out.tag", i, 5);
                self.a("out.cid", i, cid);
                self.a("out.cst", i, st);
            }
        }
        self.mark("out", i, s);
    }
    pub fn witness(&mut self, i: usize, w: &[u8]) {
        let s = self.b.len();
        self.w("wit.len", i, w.len() as u64);
        self.raw("wit.data", i, w);
        self.mark("wit", i, s);
    }
    pub fn tx(&mut self, t: &MTx) {
        match t.kind {
            Kind::Script => {
                self.w("tag", 0, 0);
                self.w("price", 0, t.price);
                self.w("limit", 0, t.limit);
                self.w("mat", 0, t.mat);
                self.w("script.len", 0, t.script.len() as u64);
                self.w("sdata.len", 0, t.sdata.len() as u64);
                self.w("n.ins", 0, t.ins.len() as u64);
                self.w("n.outs", 0, t.outs.len() as u64);
                self.w("n.wit", 0, t.wit.len() as u64);
                self.a("rroot", 0, &t.rroot);
                self.raw("script", 0, &t.script);
                self.raw("sdata", 0, &t.sdata);
            }
            Kind::Create => {
                self.w("tag", 0, 1);
                self.w("price", 0, t.price);
                self.w("limit", 0, t.limit);
                self.w("mat", 0, t.mat);
                self.w("bclen", 0, t.bclen);
                self.w("bcwi", 0, t.bcwi as u64);
                self.w("n.slots", 0, t.slots.len() as u64);
                self.w("n.ins", 0, t.ins.len() as u64);
                self.w("n.outs", 0, t.outs.len() as u64);
                self.w("n.wit", 0, t.wit.len() as u64);
                self.a("salt", 0, &t.salt);
                let z = self.b.len();
                for (i, (k, v)) in t.slots.iter().enumerate() {
                    let s = self.b.len();
                    self.b.extend_from_slice(k);
                    self.b.extend_from_slice(v);
                    self.mark("slot", i, s);
                }
                self.mark("slots", 0, z);
            }
            Kind::Mint => {
                self.w("tag", 0, 2);
                self.ptr("ptr", 0, &t.ptr);
                self.w("n.outs", 0, t.outs.len() as u64);
            }
        }
        if t.kind != Kind::Mint {
            let s = self.b.len();
            for (i, x) in t.ins.iter().enumerate() {
                self.input(i, x);
            }
            self.mark("ins", 0, s);
        }
        let s = self.b.len();
        for (i, x) in t.outs.iter().enumerate() {
            self.output(i, x);
        }
        self.mark("outs", 0, s);
        if t.kind != Kind::Mint {
            let s = self.b.len();
            for (i, x) in t.wit.iter().enumerate() {
                self.witness(i, x);
            }
            self.mark("wits", 0, s);
        }
    }
}
pub fn enc_tx(t: &MTx) -> Vec<u8> {
    let mut e = Enc { quiet: true, ..Default::default() };
    e.tx(t);
    e.b
}
pub fn enc_tx_spans(t: &MTx) -> Enc {
    let mut e = Enc::default();
    e.tx(t);
    e
}
pub fn enc_in(x: &MIn) -> Enc {
    let mut e = Enc::default();
    e.input(0, x);
    e
}
pub fn enc_out(x: &MOut) -> Enc {
    let mut e = Enc::default();
    e.output(0, x);
    e
}
pub fn enc_wit(x: &[u8]) -> Enc {
    let mut e = Enc::default();
    e.witness(0, x);
    e
}

/// What the wire can represent: predicate kinds with an empty predicate read back as signed ones.
pub fn wire_in(x: &MIn) -> MIn {
    match x.clone() {
        MIn::CoinP { utxo, owner, amount, asset, ptr, mat, pred, .. } if pred.is_empty() => MIn::CoinS { utxo, owner, amount, asset, ptr, wi: 0, mat },
        MIn::MsgP { mid, sender, rec, amount, nonce, data, pred, .. } if pred.is_empty() => MIn::MsgS { mid, sender, rec, amount, nonce, wi: 0, data },
        y => y,
    }
}
pub fn wire_tx(t: &MTx) -> MTx {
    let mut u = t.clone();
    u.ins = u.ins.iter().map(wire_in).collect();
    u
}

/// Fields the id ignores, cleared on one element.
pub fn sign_in(x: &mut MIn) {
    match x {
        MIn::CoinS { ptr, .. } | MIn::CoinP { ptr, .. } => *ptr = (0, 0),
        MIn::Con { utxo, bal, st, ptr, .. } => {
            *utxo = (Z, 0);
            *bal = Z;
            *st = Z;
            *ptr = (0, 0);
        }
        _ => {}
    }
}
pub fn init_script_out(x: &mut MOut) {
    match x {
        MOut::Msg { rec, amount } => {
            *rec = Z;
            *amount = 0;
        }
        MOut::Change { amount, .. } => *amount = 0,
        MOut::Var { to, amount, asset } => {
            *to = Z;
            *amount = 0;
            *asset = Z;
        }
        _ => {}
    }
}
pub fn sign_out(x: &mut MOut) {
    if let MOut::Con { bal, st, .. } = x {
        *bal = Z;
        *st = Z;
    }
    init_script_out(x)
}
pub fn init_script(t: &MTx) -> MTx {
    let mut u = t.clone();
    u.outs.iter_mut().for_each(init_script_out);
    u
}
pub fn init_predicate(t: &MTx) -> MTx {
    let mut u = t.clone();
    u.ins.iter_mut().for_each(sign_in);
    u.outs.iter_mut().for_each(sign_out);
    u
}
pub fn sign_form(t: &MTx) -> MTx {
    if t.kind == Kind::Mint {
        return t.clone();
    }
    let mut u = init_predicate(t);
    u.rroot = Z;
    u.wit.clear();
    u
}
pub fn model_id(t: &MTx) -> B32 {
    sha(&[&enc_tx(&sign_form(t))])
}

// ---------------------------------------------------------------- real types
pub fn addr(b: &B32) -> Address {
    Address::from(*b)
}
pub fn asset(b: &B32) -> AssetId {
    AssetId::from(*b)
}
pub fn b32(b: &B32) -> Bytes32 {
    Bytes32::from(*b)
}
pub fn cid(b: &B32) -> ContractId {
    ContractId::from(*b)
}
pub fn r_utxo(u: &(B32, u8)) -> UtxoId {
    UtxoId::new(b32(&u.0), u.1)
}
pub fn r_ptr(p: &(u32, u16)) -> RPtr {
    RPtr::new(p.0, p.1)
}
pub fn r_slot(s: &(B32, B32)) -> StorageSlot {
    StorageSlot::new(b32(&s.0), b32(&s.1))
}
pub fn r_in(x: &MIn) -> Input {
    match x.clone() {
        MIn::CoinS { utxo, owner, amount, asset: a, ptr, wi, mat } => Input::coin_signed(r_utxo(&utxo), addr(&owner), amount, asset(&a), r_ptr(&ptr), wi, mat),
        MIn::CoinP { utxo, owner, amount, asset: a, ptr, mat, pred, pdata } => {
            Input::coin_predicate(r_utxo(&utxo), addr(&owner), amount, asset(&a), r_ptr(&ptr), mat, pred, pdata)
        }
        MIn::Con { utxo, bal, st, ptr, cid: c } => Input::contract(r_utxo(&utxo), b32(&bal), b32(&st), r_ptr(&ptr), cid(&c)),
        MIn::MsgS { mid, sender, rec, amount, nonce, wi, data } => Input::message_signed(MessageId::from(mid), addr(&sender), addr(&rec), amount, nonce, wi, data),
        MIn::MsgP { mid, sender, rec, amount, nonce, data, pred, pdata } => {
            Input::message_predicate(MessageId::from(mid), addr(&sender), addr(&rec), amount, nonce, data, pred, pdata)
        }
    }
}
pub fn r_out(x: &MOut) -> Output {
    match x.clone() {
        MOut::Coin { to, amount, asset: a } => Output::coin(addr(&to), amount, asset(&a)),
        MOut::Con { idx, bal, st } => Output::contract(idx, b32(&bal), b32(&st)),
        MOut::Msg { rec, amount } => Output::message(addr(&rec), amount),
        MOut::Change { to, amount, asset: a } => Output::change(addr(&to), amount, asset(&a)),
        MOut::Var { to, amount, asset: a } => Output::variable(addr(&to), amount, asset(&a)),
        MOut::Created { cid: c, st } => Output::contract_created(cid(&c), b32(&st)),
    }
}
pub fn r_wit(w: &[u8]) -> Witness {
    Witness::from(w.to_vec())
}
pub fn r_script(t: &MTx) -> RScript {
    assert!(t.kind == Kind::Script);
    let mut s = Transaction::script(
        t.price,
        t.limit,
        t.mat,
        t.script.clone(),
        t.sdata.clone(),
        t.ins.iter().map(r_in).collect(),
        t.outs.iter().map(r_out).collect(),
        t.wit.iter().map(|w| r_wit(w)).collect(),
    );
    *s.receipts_root_mut() = b32(&t.rroot);
    s
}
pub fn r_create(t: &MTx) -> RCreate {
    assert!(t.kind == Kind::Create);
    let mut s = Transaction::create(
        t.price,
        t.limit,
        t.mat,
        t.bcwi,
        RSalt::from(t.salt),
        t.slots.iter().map(r_slot).collect(),
        t.ins.iter().map(r_in).collect(),
        t.outs.iter().map(r_out).collect(),
        t.wit.iter().map(|w| r_wit(w)).collect(),
    );
    *s.bytecode_length_mut() = t.bclen;
    s
}
pub fn r_mint(t: &MTx) -> Mint {
    assert!(t.kind == Kind::Mint);
    Transaction::mint(r_ptr(&t.ptr), t.outs.iter().map(r_out).collect())
}
pub fn r_tx(t: &MTx) -> Transaction {
    match t.kind {
        Kind::Script => r_script(t).into(),
        Kind::Create => r_create(t).into(),
        Kind::Mint => r_mint(t).into(),
    }
}

pub fn m_utxo(u: &UtxoId) -> (B32, u8) {
    (**u.tx_id(), u.output_index())
}
pub fn m_ptr(p: &RPtr) -> (u32, u16) {
    (p.block_height(), p.tx_index())
}
pub fn m_in(x: &Input) -> MIn {
    match x.clone() {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => {
            MIn::CoinS { utxo: m_utxo(&utxo_id), owner: *owner, amount, asset: *asset_id, ptr: m_ptr(&tx_pointer), wi: witness_index, mat: maturity }
        }
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => MIn::CoinP {
            utxo: m_utxo(&utxo_id),
            owner: *owner,
            amount,
            asset: *asset_id,
            ptr: m_ptr(&tx_pointer),
            mat: maturity,
            pred: predicate,
            pdata: predicate_data,
        },
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => {
            MIn::Con { utxo: m_utxo(&utxo_id), bal: *balance_root, st: *state_root, ptr: m_ptr(&tx_pointer), cid: *contract_id }
        }
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => {
            MIn::MsgS { mid: *message_id, sender: *sender, rec: *recipient, amount, nonce, wi: witness_index, data }
        }
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => {
            MIn::MsgP { mid: *message_id, sender: *sender, rec: *recipient, amount, nonce, data, pred: predicate, pdata: predicate_data }
        }
    }
}
pub fn m_out(x: &Output) -> MOut {
    match *x {
        Output::Coin { to, amount, asset_id } => MOut::Coin { to: *to, amount, asset: *asset_id },
        Output::Contract { input_index, balance_root, state_root } => MOut::Con { idx: input_index, bal: *balance_root, st: *state_root },
        Output::Message { recipient, amount } => MOut::Msg { rec: *recipient, amount },
        Output::Change { to, amount, asset_id } => MOut::Change { to: *to, amount, asset: *asset_id },
        Output::Variable { to, amount, asset_id } => MOut::Var { to: *to, amount, asset: *asset_id },
        Output::ContractCreated { contract_id, state_root } => MOut::Created { cid: *contract_id, st: *state_root },
    }
}
pub fn m_wit(w: &Witness) -> Vec<u8> {
    w.as_ref().to_vec()
}
pub fn m_script(s: &RScript) -> MTx {
    let mut t = MTx::new(Kind::Script);
    t.price = *s.gas_price();
    t.limit = *s.gas_limit();
    t.mat = *s.maturity();
    t.script = s.script().clone();
    t.sdata = s.script_data().clone();
    t.rroot = **s.receipts_root();
    t.ins = s.inputs().iter().map(m_in).collect();
    t.outs = s.outputs().iter().map(m_out).collect();
    t.wit = s.witnesses().iter().map(m_wit).collect();
    t
}
pub fn m_create(s: &RCreate) -> MTx {
    let mut t = MTx::new(Kind::Create);
    t.price = *s.gas_price();
    t.limit = *s.gas_limit();
    t.mat = *s.maturity();
    t.bclen = *s.bytecode_length();
    t.bcwi = *s.bytecode_witness_index();
    t.salt = **s.salt();
    t.slots = s.storage_slots().iter().map(|s| (**s.key(), **s.value())).collect();
    t.ins = s.inputs().iter().map(m_in).collect();
    t.outs = s.outputs().iter().map(m_out).collect();
    t.wit = s.witnesses().iter().map(m_wit).collect();
    t
}
pub fn m_mint(s: &Mint) -> MTx {
    let mut t = MTx::new(Kind::Mint);
    t.ptr = m_ptr(s.tx_pointer());
    t.outs = s.outputs().iter().map(m_out).collect();
    t
}
pub fn m_tx(t: &Transaction) -> MTx {
    match t {
        Transaction::Script(s) => m_script(s),
        Transaction::Create(s) => m_create(s),
        Transaction::Mint(s) => m_mint(s),
    }
}
