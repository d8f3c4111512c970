//! C11 who authorises an input; C12 what signing does. The accept set is computed from the model's own
//! transaction id and the signature primitive of fuel-crypto (a dependency, taken as given).
use crate::commit::code_root;
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::valid::{brief, input_rules, judge, params0, rules, LONG, MANY};
use crate::{ensure, ensure_eq};
use fuel_crypto::{Message, PublicKey, SecretKey, Signature};
use fuel_tx::field::*;
use fuel_tx::{Cacheable, CheckError as E, Checkable, ConsensusParameters as P, Executable, IntoChecked, Signable, Transaction, UniqueIdentifier};
use std::cell::RefCell;
use std::collections::HashMap;

pub fn key(i: usize) -> SecretKey {
    let mut b = [0x11u8; 32];
    b[0] = i as u8 + 1;
    b[31] = 0x77 ^ i as u8;
    unsafe { SecretKey::from_bytes_unchecked(b) }
}
/// Address of a key: the hash of its 64 public key bytes.
pub fn owner(k: &SecretKey) -> B32 {
    let pk: PublicKey = PublicKey::from(k);
    sha(&[pk.as_ref()])
}
pub fn own(i: usize) -> B32 {
    thread_local! { static O: RefCell<HashMap<usize, B32>> = RefCell::default(); }
    O.with(|o| *o.borrow_mut().entry(i).or_insert_with(|| owner(&key(i))))
}
pub fn sign(i: usize, id: &B32) -> Vec<u8> {
    thread_local! { static O: RefCell<HashMap<(usize, B32), Vec<u8>>> = RefCell::default(); }
    O.with(|o| {
        let mut o = o.borrow_mut();
        if o.len() > 20_000 {
            o.clear();
        }
        o.entry((i, *id)).or_insert_with(|| Signature::sign(&key(i), unsafe { Message::as_ref_unchecked(id) }).as_ref().to_vec()).clone()
    })
}
/// The address whose key made this signature over the id, if it is one.
pub fn signer(w: &[u8], id: &B32) -> Option<B32> {
    thread_local! { static O: RefCell<HashMap<(Vec<u8>, B32), Option<B32>>> = RefCell::default(); }
    if w.len() != 64 {
        return None;
    }
    O.with(|o| {
        let mut o = o.borrow_mut();
        if o.len() > 20_000 {
            o.clear();
        }
        *o.entry((w.to_vec(), *id)).or_insert_with(|| {
            let mut b = [0u8; 64];
            b.copy_from_slice(w);
            let s = unsafe { Signature::from_bytes_unchecked(b) };
            s.recover(unsafe { Message::as_ref_unchecked(id) }).ok().map(|pk| sha(&[pk.as_ref()]))
        })
    })
}
fn auth_input(i: usize, x: &MIn, wit: &[Vec<u8>], id: &B32) -> Vec<E> {
    match x {
        MIn::CoinS { owner, wi, .. } | MIn::MsgS { rec: owner, wi, .. } => match wit.get(*wi as usize) {
            None => vec![E::InputWitnessIndexBounds { index: i }],
            Some(w) if signer(w, id) != Some(*owner) => vec![E::InputInvalidSignature { index: i }],
            _ => vec![],
        },
        MIn::CoinP { owner, pred, .. } | MIn::MsgP { rec: owner, pred, .. } if code_root(pred) != *owner => vec![E::InputPredicateOwner { index: i }],
        _ => vec![],
    }
}
pub fn auth_rules(t: &MTx, id: &B32) -> Vec<E> {
    if t.kind == Kind::Mint {
        return vec![];
    }
    t.ins.iter().enumerate().flat_map(|(i, x)| auth_input(i, x, &t.wit, id)).collect()
}
fn verdict<T>(r: Result<T, E>) -> Result<(), E> {
    r.map(|_| ())
}
/// Everything that decides authorisation, compared with the model.
pub fn c11(ch: &mut Ch, t: &MTx, h: u64, p: &P, full: bool) -> R {
    let id = model_id(t);
    let auth = auth_rules(t, &id);
    let basic = rules(t, h, p);
    let mut all = basic.clone();
    all.extend(auth.iter().cloned());
    let mut tx = r_tx(t);
    judge("signature check", &tx.check_signatures(), &auth, t, h, p)?;
    judge("full check", &tx.check(h, p), &all, t, h, p)?;
    match &tx {
        Transaction::Script(s) => {
            judge("signature check (script)", &s.check_signatures(), &auth, t, h, p)?;
            judge("full check (script)", &s.check(h, p), &all, t, h, p)?;
        }
        Transaction::Create(s) => {
            judge("signature check (create)", &s.check_signatures(), &auth, t, h, p)?;
            judge("full check (create)", &s.check(h, p), &all, t, h, p)?;
        }
        Transaction::Mint(s) => {
            judge("signature check (mint)", &s.check_signatures(), &auth, t, h, p)?;
            judge("full check (mint)", &s.check(h, p), &all, t, h, p)?;
        }
    }
    ch.step(4);
    // whoever turns it into a checked transaction gets the same answer
    let checked = verdict(tx.clone().into_checked(h, p));
    let checked_basic = verdict(tx.clone().into_checked_basic(h, p));
    ensure!(
        checked.is_ok() == (checked_basic.is_ok() && auth.is_empty()),
        "into_checked {checked:?}, into_checked_basic {checked_basic:?}, violated authorisations {:?}: {}",
        &auth[..auth.len().min(4)],
        brief(t)
    );
    if let (Err(e), Ok(())) = (&checked, &checked_basic) {
        ensure!(auth.contains(e), "into_checked names {e:?}, violated: {auth:?}: {}", brief(t));
    }
    if let Ok(c) = tx.clone().into_checked_basic(h, p) {
        judge("checked signature check", &verdict(c.check_signatures()), &auth, t, h, p)?;
    }
    ch.step(3);
    let owners_ok = t.ins.iter().all(|x| !matches!(x, MIn::CoinP { owner, pred, .. } | MIn::MsgP { rec: owner, pred, .. } if code_root(pred) != *owner));
    match &tx {
        Transaction::Script(s) => ensure_eq!(s.check_predicate_owners(), owners_ok, "check_predicate_owners of {}", brief(t)),
        Transaction::Create(s) => ensure_eq!(s.check_predicate_owners(), owners_ok, "check_predicate_owners of {}", brief(t)),
        _ => {}
    }
    if full {
        // element by element, at its own and at other positions, over this and over other hashes
        let rid = b32(&id);
        let other = sha(&[&id]);
        let wit: Vec<_> = t.wit.iter().map(|w| r_wit(w)).collect();
        let outs: Vec<_> = t.outs.iter().map(r_out).collect();
        for (i, x) in t.ins.iter().enumerate() {
            let r = r_in(x);
            for at in [i, i + 1, 300] {
                judge("Input::check_signature", &r.check_signature(at, &rid, &wit), &auth_input(at, x, &t.wit, &id), t, h, p)?;
                let mut want = input_rules(at, x, &t.outs, t.wit.len(), p);
                want.extend(auth_input(at, x, &t.wit, &id));
                judge("Input::check", &r.check(at, &rid, &outs, &wit, p), &want, t, h, p)?;
                ch.step(2);
            }
            judge("Input::check_signature over another hash", &r.check_signature(i, &b32(&other), &wit), &auth_input(i, x, &t.wit, &other), t, h, p)?;
            let n = wit.len().saturating_sub(1);
            judge("Input::check_signature with fewer witnesses", &r.check_signature(i, &rid, &wit[..n]), &auth_input(i, x, &t.wit[..n], &id), t, h, p)?;
            ch.step(2);
        }
        tx.precompute();
        judge("signature check with metadata", &tx.check_signatures(), &auth, t, h, p)?;
        judge("full check with metadata", &tx.check(h, p), &all, t, h, p)?;
        ch.step(2);
    }
    ch.traced();
    ch.outcome(match (basic.is_empty(), auth.is_empty()) {
        (true, true) => "authorised and valid",
        (false, true) => "authorised, invalid",
        (true, false) => "unauthorised, valid",
        _ => "unauthorised, invalid",
    });
    ch.sample(|| format!("violated authorisations {auth:?}: {}", brief(t)));
    Ok(())
}

pub fn coin_s(o: B32, wi: u8, n: u8) -> MIn {
    MIn::CoinS { utxo: (pat(n, 1), n), owner: o, amount: 1000 + n as u64, asset: Z, ptr: (1, 2), wi, mat: 0 }
}
pub fn msg_s(o: B32, wi: u8, n: u8) -> MIn {
    // the sender is a key's address too, so that mistaking it for the recipient shows
    MIn::MsgS { mid: pat(n, 2), sender: own(0), rec: o, amount: 1000 + n as u64, nonce: n as u64, wi, data: vec![n; n as usize % 3] }
}
pub fn coin_p(o: B32, pred: Vec<u8>, n: u8) -> MIn {
    MIn::CoinP { utxo: (pat(n, 1), n), owner: o, amount: 1000 + n as u64, asset: Z, ptr: (1, 2), mat: 0, pred, pdata: vec![n] }
}
fn msg_p(o: B32, pred: Vec<u8>, n: u8) -> MIn {
    MIn::MsgP { mid: pat(n, 2), sender: code_root(&[1, 2, 3, 4]), rec: o, amount: 1000 + n as u64, nonce: n as u64, data: vec![], pred, pdata: vec![n] }
}
pub fn con(n: u8) -> MIn {
    MIn::Con { utxo: (pat(n, 1), n), bal: Z, st: Z, ptr: (0, 0), cid: pat(n, 3) }
}
fn head(kind: Kind) -> MTx {
    let mut t = MTx::new(kind);
    t.limit = 10;
    t.price = 1;
    if kind == Kind::Create {
        t.bclen = 0;
        t.bcwi = 0;
    } else {
        t.script = bytes(1, 4);
    }
    t
}
pub fn params() -> P {
    P { gas_price_factor: 1_000_000, contract_max_size: 100, max_inputs: 255, max_outputs: 255, max_witnesses: 255, max_predicate_length: 1 << 20, max_predicate_data_length: 1 << 20, max_message_data_length: 1 << 20, ..params0() }
}
fn an_input(ch: &mut Ch, n: u8, kinds: bool) -> MIn {
    let pr = vec![1, 2, 3, 4];
    let o = |i: usize| if i == 2 { pat(0x99, 9) } else { own(i) };
    match ch.free(if kinds { 5 } else { 2 }) {
        0 => {
            let o = o(ch.free(3));
            coin_s(o, ch.free(3) as u8, n)
        }
        1 => {
            let o = o(ch.free(3));
            msg_s(o, ch.free(3) as u8, n)
        }
        2 => coin_p([code_root(&pr), own(0), code_root(&[9])][ch.free(3)], pr, n),
        3 => msg_p([code_root(&pr), own(0), code_root(&[9])][ch.free(3)], pr, n),
        _ => con(n),
    }
}
const WITS: usize = 8;
fn a_witness(k: usize, id: &B32) -> Vec<u8> {
    match k {
        0 => sign(0, id),
        1 => sign(1, id),
        2 => sign(0, &sha(&[id])),
        3 => vec![],
        4 => sign(0, id)[..63].to_vec(),
        5 => {
            let mut w = sign(0, id);
            w.push(0);
            w
        }
        6 => {
            let mut w = sign(0, id);
            w[40] ^= 4;
            w
        }
        _ => vec![0; 64],
    }
}
fn contracts_out(t: &mut MTx) {
    for (i, x) in t.ins.iter().enumerate() {
        if let MIn::Con { .. } = x {
            t.outs.push(MOut::Con { idx: i as u8, bal: Z, st: Z });
        }
    }
}
/// One element of every kind, correctly authorised by construction.
pub fn signed_rich(kind: Kind) -> MTx {
    let mut t = head(kind);
    let pr = bytes(0x51, 12);
    t.ins = vec![coin_s(own(0), 1, 1), coin_p(code_root(&pr), pr.clone(), 2), msg_s(own(1), 2, 3), msg_p(code_root(&pr[..9]), pr[..9].to_vec(), 4), coin_s(own(0), 1, 5)];
    if kind == Kind::Script {
        t.ins.push(con(6));
        t.outs = vec![MOut::Con { idx: 5, bal: pat(1, 1), st: pat(2, 2) }, MOut::Var { to: pat(3, 3), amount: 5, asset: pat(4, 4) }];
        t.sdata = bytes(3, 5);
        t.rroot = pat(8, 8);
    } else {
        t.slots = vec![(pat(1, 1), pat(2, 2))];
        t.outs = vec![MOut::Created { cid: pat(5, 5), st: pat(6, 6) }];
    }
    t.outs.extend([MOut::Coin { to: pat(7, 7), amount: 3, asset: Z }, MOut::Change { to: pat(7, 8), amount: 0, asset: Z }, MOut::Msg { rec: pat(7, 9), amount: 9 }]);
    let code = bytes(0x61, 16);
    t.bclen = if kind == Kind::Create { 4 } else { 0 };
    t.wit = vec![code, vec![], vec![]];
    let id = model_id(&t);
    t.wit[1] = sign(0, &id);
    t.wit[2] = sign(1, &id);
    t
}

/// Authorises every input but `bad`, which gets one of 3 faults. Keys 0 and 1 share witnesses 1 and 2.
pub fn authorise(t: &mut MTx, bad: Option<(usize, usize)>) {
    while t.wit.len() < 4 {
        t.wit.push(vec![]);
    }
    for (i, x) in t.ins.iter_mut().enumerate() {
        let wrong = bad.filter(|b| b.0 == i).map(|b| b.1);
        match x {
            MIn::CoinS { owner: o, wi, .. } | MIn::MsgS { rec: o, wi, .. } => {
                *o = own(i % 2);
                *wi = if wrong.is_some() { 3 } else { 1 + (i % 2) as u8 };
            }
            MIn::CoinP { owner: o, pred, .. } | MIn::MsgP { rec: o, pred, .. } => {
                *o = code_root(pred);
                match wrong {
                    None => {}
                    Some(0) => o[0] ^= 0x80,
                    Some(1) => o[31] ^= 1,
                    _ => *o = own(0),
                }
            }
            _ => {}
        }
    }
    let id = model_id(t);
    t.wit[1] = sign(0, &id);
    t.wit[2] = sign(1, &id);
    if let Some((i, f)) = bad {
        t.wit[3] = match f {
            0 => sign((i + 1) % 2, &id),
            1 => sign(i % 2, &sha(&[&id])),
            _ => vec![0; 64],
        };
    }
}
pub fn c11_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    for kind in [Kind::Script, Kind::Create] {
        let n = if th { 3 } else { 2 };
        v.push(space(&format!("assignments-{kind:?}"), 0, &format!("<= {n} inputs of every kind, owner (2 keys, a stranger; right, key-owned and foreign predicate root), witness index 0..=2, x 2 witnesses with {WITS} contents each"), move |ch| {
            let mut t = head(kind);
            let k = ch.free(n + 1);
            for i in 0..k {
                t.ins.push(an_input(ch, i as u8 + 1, i < 2));
            }
            contracts_out(&mut t);
            let id = model_id(&t);
            let m = if k == 3 { 5 } else { WITS };
            t.wit = vec![a_witness(ch.free(m), &id), a_witness(ch.free(m), &id)];
            ch.state(&t);
            c11(ch, &t, 7, &params(), k < 3)
        }));
        let d = 2;
        v.push(space(&format!("altered-after-signing-{kind:?}"), d, &format!("a fully authorised transaction with every element kind; every combination of <= {d} field changes after signing"), move |ch| {
            let base = signed_rich(kind);
            let t = dev_tx(ch, &base);
            ch.state(&t);
            let full = t == base;
            c11(ch, &t, 7, &params(), full)
        }));
    }
    v.push(space("signature-bits", 0, "every single bit of every signature of a fully authorised transaction flipped; every length 0..=140 by truncation and by extension with 0 and 0xff; every single byte set to 0 and 0xff", |ch| {
        let mut t = signed_rich([Kind::Script, Kind::Create][ch.free(2)]);
        let w = 1 + ch.free(2);
        match ch.free(3) {
            0 => {
                let i = ch.free(512);
                t.wit[w][i / 8] ^= 1 << (i % 8);
            }
            1 => {
                let n = ch.free(141);
                let f = [0, 0xff][ch.free(2)];
                t.wit[w].resize(n, f);
            }
            _ => {
                let i = ch.free(64);
                t.wit[w][i] = [0, 0xff][ch.free(2)];
            }
        }
        ch.state(&t);
        c11(ch, &t, 7, &params(), true)
    }));
    v.push(space("owner-bits", 0, "a fully authorised transaction signed anew with every single bit of every input's owner flipped, with every byte of it set to 0 and 0xff, and with signatures over the id with any one bit flipped", |ch| {
        let mut t = signed_rich([Kind::Script, Kind::Create][ch.free(2)]);
        let mut id = model_id(&t);
        match ch.free(3) {
            2 => {
                let i = ch.free(256);
                id[i / 8] ^= 1 << (i % 8);
                let k = ch.free(2);
                t.wit[1 + k] = sign(k, &id);
            }
            m => {
                let k = ch.free(5);
                let (MIn::CoinS { owner: o, .. } | MIn::CoinP { owner: o, .. } | MIn::MsgS { rec: o, .. } | MIn::MsgP { rec: o, .. }) = &mut t.ins[k] else { unreachable!() };
                if m == 0 {
                    let i = ch.free(256);
                    o[i / 8] ^= 1 << (i % 8);
                } else {
                    let i = ch.free(32);
                    o[i] = [0, 0xff][ch.free(2)];
                }
                id = model_id(&t);
                t.wit[1] = sign(0, &id);
                t.wit[2] = sign(1, &id);
            }
        }
        ch.state(&t);
        c11(ch, &t, 7, &params(), true)
    }));
    for kind in [Kind::Script, Kind::Create] {
        for (name, d) in [("one-wrong-after-change", if th { 2 } else { 1 }), ("one-wrong-values", if th { 3 } else { 2 })] {
            let own_values = name == "one-wrong-values";
            v.push(space(&format!("{name}-{kind:?}"), d, &format!("a transaction with every element kind, {}every combination of <= {d} field values{}, then every input authorised anew but for one of 5 (another key's signature, another id's, none; an owner one bit from the predicate's root), or none", if own_values { "the wrong input's fields at " } else { "" }, if own_values { "" } else { " of all of it" }), move |ch| {
                let target = ch.free(6);
                let fault = if target < 5 { ch.free(3) } else { 0 };
                let base = signed_rich(kind);
                let mut t = base.clone();
                if !own_values {
                    t = dev_tx(ch, &base);
                } else if target < 5 {
                    t.ins[target] = dev_in(ch, t.ins[target].clone());
                } else {
                    return Ok(());
                }
                if t.ins.len() < 5 {
                    return Ok(());
                }
                let mut keyed = vec![];
                for (i, x) in t.ins.iter_mut().enumerate() {
                    let slot = 1 + i as u8;
                    match x {
                        MIn::CoinS { owner: o, wi, .. } | MIn::MsgS { rec: o, wi, .. } => {
                            (*o, *wi) = (own(i % 2), slot);
                            keyed.push(i);
                        }
                        MIn::CoinP { owner: o, pred, .. } | MIn::MsgP { rec: o, pred, .. } => {
                            *o = code_root(pred);
                            if i == target {
                                match fault {
                                    0 => o[0] ^= 0x80,
                                    1 => o[31] ^= 1,
                                    _ => *o = own(0),
                                }
                            }
                        }
                        _ => {}
                    }
                }
                if t.wit.len() < 7 {
                    t.wit.resize(7, vec![]);
                }
                let id = model_id(&t);
                for i in keyed {
                    t.wit[1 + i] = match (i == target, fault) {
                        (false, _) => sign(i % 2, &id),
                        (_, 0) => sign((i + 1) % 2, &id),
                        (_, 1) => sign(i % 2, &sha(&[&id])),
                        _ => vec![0; 64],
                    };
                }
                ch.state(&t);
                c11(ch, &t, 7, &params(), false)
            }));
        }
    }
    for kind in [Kind::Script, Kind::Create] {
        v.push(space(&format!("one-wrong-grown-{kind:?}"), 0, &format!("a transaction with every element kind and any variable-length field of {LONG:?} bytes or any sort of element {MANY:?} times more; every input authorised but for one of 5 or the last (3 faults each), or none"), move |ch| {
            let mut t = signed_rich(kind);
            grow(ch, &mut t, &LONG, &MANY);
            let target = ch.free(7);
            let bad = match target {
                5 => Some((t.ins.len() - 1, ch.free(3))),
                6 => None,
                i => Some((i, ch.free(3))),
            };
            authorise(&mut t, bad);
            ch.state(&t);
            c11(ch, &t, 7, &params(), false)
        }));
    }
    let n = if th { 255 } else { 40 };
    v.push(space("position", 0, &format!("1..=12 and {n} inputs, mixed kinds, exactly one unauthorised at every position, 6 kinds of fault, own or shared witnesses"), move |ch| {
        let c = ch.free(13);
        let n = if c == 12 { n } else { c + 1 };
        let bad = ch.free(n + 1); // n: none
        let fault = if bad < n { ch.free(6) } else { 0 };
        let shared = ch.flag();
        let mut t = head(Kind::Script);
        for i in 0..n {
            let wi = if shared { (i % 2) as u8 } else { i as u8 };
            let pr = bytes(i as u8, 3 + i % 9);
            t.ins.push(match i % 5 {
                0 | 3 => coin_s(own(i % 2), wi, i as u8),
                1 => msg_s(own(i % 2), wi, i as u8),
                2 => coin_p(code_root(&pr), pr, i as u8),
                _ => msg_p(code_root(&pr), pr, i as u8),
            });
        }
        if bad < n {
            let stranger = own(2);
            let is_pred = matches!(t.ins[bad], MIn::CoinP { .. } | MIn::MsgP { .. });
            match (&mut t.ins[bad], fault) {
                (MIn::CoinS { owner, .. }, 0) | (MIn::CoinP { owner, .. }, 0) => *owner = stranger,
                (MIn::MsgS { rec, .. }, 0) | (MIn::MsgP { rec, .. }, 0) => *rec = stranger,
                (MIn::CoinP { pred, .. }, 1) | (MIn::MsgP { pred, .. }, 1) => pred.push(1),
                (MIn::CoinP { pred, .. }, 2) | (MIn::MsgP { pred, .. }, 2) => pred[0] ^= 1,
                (MIn::CoinS { wi, .. }, 1) | (MIn::MsgS { wi, .. }, 1) => *wi = 255,
                (MIn::CoinS { wi, .. }, 2) | (MIn::MsgS { wi, .. }, 2) => *wi = wi.wrapping_add(1),
                _ => {}
            }
            if is_pred && fault > 2 {
                ch.state(&(n, bad, fault, "same"));
                return Ok(());
            }
        }
        let id = model_id(&t);
        t.wit = (0..if shared { 2 } else { n }).map(|i| sign(i % 2, &id)).collect();
        if bad < n && fault > 2 {
            let wi = if shared { bad % 2 } else { bad };
            match fault {
                3 => t.wit[wi] = sign(2, &id),
                4 => t.wit[wi] = vec![],
                _ => t.wit[wi] = sign(bad % 2, &sha(&[b"x"])),
            }
        }
        ch.state(&t);
        c11(ch, &t, 7, &params(), false)
    }));
    let (m, l) = if th { (5, 10) } else { (4, 9) };
    v.push(space("predicate-sequences", 0, &format!("every sequence of <= {m} predicates, of lengths 1, 2, 8, {l}, coin or message alternating or not, each with the right or a wrong owner, for script and create"), move |ch| {
        let mut t = head(if ch.flag() { Kind::Script } else { Kind::Create });
        for i in 0..ch.free(m + 1) {
            let pr = bytes(i as u8, ch.of(&[1, 2, 8, l]));
            let o = if ch.flag() { code_root(&pr) } else { own(1) };
            t.ins.push(if ch.flag() { coin_p(o, pr, i as u8) } else { msg_p(o, pr, i as u8) });
        }
        ch.state(&t);
        c11(ch, &t, 7, &params(), false)
    }));
    let ns: &'static [usize] = if th { &[255, 256, 257, 258, 300, 520] } else { &[255, 258, 300] };
    v.push(space("position-past-a-byte", 0, &format!("{ns:?} inputs guarded by predicates (limit raised), one unauthorised input of each of 4 kinds at every position, or none"), move |ch| {
        let n = ch.of(ns);
        let bad = ch.free(n + 1);
        let fault = if bad < n { ch.free(4) } else { 0 };
        let mut t = head(Kind::Script);
        let pr = |i: usize| vec![i as u8, (i >> 8) as u8, 9];
        for i in 0..n {
            t.ins.push(if i % 2 == 0 { coin_p(code_root(&pr(i)), pr(i), i as u8) } else { msg_p(code_root(&pr(i)), pr(i), i as u8) });
            match t.ins.last_mut() {
                Some(MIn::CoinP { utxo, .. }) => utxo.0 = sha(&[b"u", &i.to_le_bytes()]),
                Some(MIn::MsgP { rec: _, mid, .. }) => *mid = sha(&[b"m", &i.to_le_bytes()]),
                _ => {}
            }
        }
        if bad < n {
            t.ins[bad] = match fault {
                0 => coin_p(own(1), pr(bad), bad as u8),
                1 => msg_p(own(1), pr(bad), bad as u8),
                2 => coin_s(own(1), 0, bad as u8),
                _ => msg_s(own(1), 0, bad as u8),
            };
        }
        let id = model_id(&t);
        t.wit = vec![sign(0, &id)];
        let mut p = params();
        p.max_inputs = 1000;
        ch.state(&t);
        c11(ch, &t, 7, &p, false)
    }));
    v.push(space("witness-index", 0, "256 witnesses, one input: the signature at every witness position x the index naming it, its neighbours, 0 and 255", |ch| {
        let at = ch.free(256);
        let wi = [at, at.wrapping_sub(1) & 255, (at + 1) & 255, 0, 255][ch.free(5)];
        let mut t = head(Kind::Script);
        t.ins = vec![if ch.flag() { msg_s(own(0), wi as u8, 1) } else { coin_s(own(0), wi as u8, 1) }];
        let id = model_id(&t);
        t.wit = (0..256).map(|_| vec![]).collect();
        t.wit[at] = sign(0, &id);
        if ch.flag() {
            t.wit.truncate(at + 1);
        }
        ch.state(&t);
        let mut p = params();
        p.max_witnesses = 256;
        c11(ch, &t, 7, &p, false)
    }));
    let hi = if th { 600 } else { 140 };
    let big = if th { &BIG[..] } else { &BIG[..15] };
    v.push(space("predicate-roots", 0, &format!("predicates of every length 0..={hi} and {big:?}, coin and message: owner the root, the root of the neighbouring lengths, zero-padded and other codes, one bit off, zero"), move |ch| {
        let i = ch.free(hi + 1 + big.len());
        let n = if i <= hi { i } else { big[i - hi - 1] };
        let code = bytes(0x33, n);
        let o = match ch.free(8) {
            0 => code_root(&code),
            1 => code_root(&bytes(0x33, n + 1)),
            2 => code_root(&code[..n.saturating_sub(1)]),
            3 => {
                let mut c = code.clone();
                c.push(0);
                code_root(&c)
            }
            4 => sha(&[&code]),
            5 => Z,
            6 => {
                let mut o = code_root(&code);
                o[31] ^= 1;
                o
            }
            _ => {
                let mut o = code_root(&code);
                o[0] ^= 0x80;
                o
            }
        };
        let mut t = head(Kind::Script);
        t.ins = vec![match ch.free(2) {
            0 => coin_p(o, code, 1),
            _ => msg_p(o, code, 1),
        }];
        ch.state(&t);
        c11(ch, &t, 7, &params(), true)
    }));
    v
}

// -------------------------------------------------------------------------------------------- C12
trait Tx12: Signable + Cacheable + GasPrice + Outputs + Witnesses + Clone + PartialEq + Checkable + UniqueIdentifier {
    fn m(&self) -> MTx;
}
impl Tx12 for fuel_tx::Script {
    fn m(&self) -> MTx {
        m_script(self)
    }
}
impl Tx12 for fuel_tx::Create {
    fn m(&self) -> MTx {
        m_create(self)
    }
}
fn owned(x: &MIn) -> Option<(B32, usize)> {
    match x {
        MIn::CoinS { owner, wi, .. } | MIn::MsgS { rec: owner, wi, .. } => Some((*owner, *wi as usize)),
        _ => None,
    }
}
/// One signing step of the real code against the model: `t` is updated to the expected content, where a
/// signed slot takes whatever valid signature the code put there.
fn sign_step<T: Tx12>(ch: &mut Ch, tx: &mut T, t: &mut MTx, k: usize) -> R {
    let id = model_id(t);
    tx.sign_inputs(&key(k));
    let got = tx.m();
    let slots: Vec<usize> = t.ins.iter().filter_map(owned).filter(|(o, w)| *o == own(k) && *w < t.wit.len()).map(|x| x.1).collect();
    let mut want = t.clone();
    for s in slots {
        let w = got.wit.get(s).cloned().unwrap_or_default();
        ensure!(signer(&w, &id) == Some(own(k)), "after signing with key {k}, witness {s} is {w:02x?}, not its signature over the id; {}", brief(t));
        want.wit[s] = w;
    }
    ensure!(got == want, "signing with key {k} turned {t:?} into {got:?}");
    ensure_eq!(*tx.id(), id, "id after signing");
    *t = want;
    ch.step(1);
    Ok(())
}
fn settle<T: Tx12>(ch: &mut Ch, tx: &T, t: &MTx) -> R {
    let id = model_id(t);
    let auth = auth_rules(t, &id);
    judge("signature check", &tx.check_signatures(), &auth, t, 0, &params())?;
    let mut fresh = tx.clone();
    fresh.precompute();
    ensure_eq!(*fresh.id(), id, "id after recomputation");
    ch.step(2);
    ch.outcome(if auth.is_empty() { "all authorised" } else { "some unauthorised" });
    Ok(())
}
const POOL: usize = 12;
fn pool(k: usize, n: u8) -> MIn {
    let pr = vec![1, 2, 3, 4];
    match k {
        0 => coin_s(own(0), 0, n),
        1 => coin_s(own(0), 1, n),
        2 => coin_s(own(1), 1, n),
        3 => msg_s(own(0), 2, n),
        4 => msg_s(own(1), 0, n),
        5 => coin_s(own(1), 255, n),
        6 => coin_p(own(0), pr, n),
        7 => msg_p(own(0), pr, n),
        8 => con(n),
        9 => coin_s(own(2), 2, n),
        10 => coin_s(own(0), 3, n),
        _ => msg_s(own(1), 2, n),
    }
}
fn history<T: Tx12>(ch: &mut Ch, mut tx: T, mut t: MTx, depth: usize) -> R {
    let mut cached = false;
    let mut signed = [false; 3];
    for _ in 0..depth {
        match ch.free(8) {
            0 => break,
            k @ 1..=3 => {
                sign_step(ch, &mut tx, &mut t, k - 1)?;
                signed[k - 1] = true;
            }
            4 => {
                tx.precompute();
                cached = true;
                ch.step(1);
            }
            5 => {
                // a change the id ignores
                for o in tx.outputs_mut() {
                    if let fuel_tx::Output::Change { amount, .. } = o {
                        *amount += 1
                    }
                }
                for o in &mut t.outs {
                    if let MOut::Change { amount, .. } = o {
                        *amount += 1
                    }
                }
                ch.step(1);
            }
            6 => {
                // a change the id commits to; a cache is brought up to date
                *tx.gas_price_mut() = t.price + 1;
                t.price += 1;
                signed = [false; 3];
                if cached {
                    tx.precompute();
                }
                ch.step(1);
            }
            _ => {
                // tampering with a witness
                if !t.wit.is_empty() {
                    t.wit[0].push(7);
                    tx.witnesses_mut()[0].as_vec_mut().push(7);
                    signed = [false; 3];
                }
                ch.step(1);
            }
        }
        ensure!(tx.m() == t, "content is {:?}, expected {t:?}", tx.m());
        ensure_eq!(*tx.id(), model_id(&t), "id");
    }
    settle(ch, &tx, &t)?;
    // all keys signed, slots apart, predicates aside: accepted
    let o: Vec<(B32, usize)> = t.ins.iter().filter_map(owned).collect();
    let apart = o.iter().all(|a| a.1 < t.wit.len() && o.iter().all(|b| a.1 != b.1 || a.0 == b.0));
    let pred = t.ins.iter().any(|x| matches!(x, MIn::CoinP { .. } | MIn::MsgP { .. }));
    if apart && !pred && o.iter().all(|a| (0..3).any(|k| signed[k] && own(k) == a.0)) {
        let r = tx.check_signatures();
        ensure!(r.is_ok(), "all owners signed, the check says {r:?}: {}", brief(&t));
        ch.outcome("signed by all owners");
    }
    ch.state(&t);
    ch.traced();
    ch.sample(|| brief(&t));
    Ok(())
}
fn start(ch: &mut Ch, t: MTx, depth: usize) -> R {
    match t.kind {
        Kind::Script => history(ch, r_script(&t), t, depth),
        _ => history(ch, r_create(&t), t, depth),
    }
}
pub fn c12_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    for kind in [Kind::Script, Kind::Create] {
        let n = if th { 4 } else { 3 };
        v.push(space(&format!("arrangements-{kind:?}"), 0, &format!("every sequence of <= {n} inputs from {POOL} (own, foreign, shared and out-of-range witness slots, key-owned predicates, contracts), 0..=4 witnesses, empty or already filled; each key signs once, in both orders, cached or not"), move |ch| {
            let mut t = head(kind);
            let k = ch.free(n + 1);
            for i in 0..k {
                t.ins.push(pool(ch.free(POOL), i as u8 + 1));
            }
            let w = ch.free(5);
            let f = ch.flag();
            t.wit = (0..w).map(|i| if f { bytes(i as u8, 64 + i) } else { vec![] }).collect();
            t.outs = vec![MOut::Change { to: Z, amount: 0, asset: Z }];
            let rev = ch.flag();
            let cached = ch.flag();
            fn go<T: Tx12>(ch: &mut Ch, mut tx: T, mut t: MTx, rev: bool, cached: bool) -> R {
                if cached {
                    tx.precompute();
                }
                for k in if rev { [1, 0] } else { [0, 1] } {
                    sign_step(ch, &mut tx, &mut t, k)?;
                }
                ch.state(&t);
                ch.traced();
                settle(ch, &tx, &t)
            }
            match kind {
                Kind::Script => go(ch, r_script(&t), t, rev, cached),
                _ => go(ch, r_create(&t), t, rev, cached),
            }
        }));
        let depth = if th { 7 } else { 5 };
        v.push(space(&format!("histories-{kind:?}"), 0, &format!("every history of <= {depth} operations from {{sign with key 0, 1, 2; precompute; malleable change; committed change; witness tampering}} on 5 input arrangements"), move |ch| {
            let mut t = head(kind);
            let a: &[usize] = [&[0usize, 2, 9][..], &[0, 3, 11, 8], &[0, 4], &[1, 2, 6], &[0, 0, 10, 2, 5]][ch.free(5)];
            t.ins = a.iter().enumerate().map(|(i, k)| pool(*k, i as u8 + 1)).collect();
            t.wit = vec![vec![]; 4];
            t.outs = vec![MOut::Change { to: Z, amount: 0, asset: Z }];
            start(ch, t, depth)
        }));
        v.push(space(&format!("many-inputs-{kind:?}"), 0, "1..=255 and 300 inputs of one owner with witness slots ascending, descending, all the same, strided, or all the same but the last; a stranger's input at every tenth position (of up to 255)", move |ch| {
            let n = 1 + ch.free(256);
            let n = if n == 256 { 300 } else { n };
            let how = ch.free(5);
            let mut t = head(kind);
            t.ins = (0..n)
                .map(|i| {
                    let wi = match how {
                        0 => i,
                        1 => n - 1 - i,
                        2 => 0,
                        3 => i * 7 % n,
                        _ => (i + 1 == n && n > 1) as usize,
                    };
                    let o = if how < 2 && n < 257 && i % 10 == 9 { own(1) } else { own(0) };
                    if i % 2 == 0 {
                        coin_s(o, wi as u8, i as u8)
                    } else {
                        msg_s(o, wi as u8, i as u8)
                    }
                })
                .collect();
            t.wit = vec![vec![1]; n];
            fn go<T: Tx12>(ch: &mut Ch, mut tx: T, mut t: MTx) -> R {
                sign_step(ch, &mut tx, &mut t, 0)?;
                sign_step(ch, &mut tx, &mut t, 1)?;
                ensure!(tx.check_signatures().is_ok(), "all owners signed: {}", brief(&t));
                ch.state(&t);
                ch.traced();
                ch.outcome("signed by all owners");
                Ok(())
            }
            match kind {
                Kind::Script => go(ch, r_script(&t), t),
                _ => go(ch, r_create(&t), t),
            }
        }));
    }
    for kind in [Kind::Script, Kind::Create] {
        v.push(space(&format!("fields-kept-{kind:?}"), 1, "a transaction with one element of every kind, every single field deviation: signing with each key leaves all other content as it was", move |ch| {
            let base = signed_rich(kind);
            let mut t = dev_tx(ch, &base);
            let k = ch.free(3);
            ch.state(&(&t, k));
            ch.traced();
            match kind {
                Kind::Script => sign_step(ch, &mut r_script(&t), &mut t, k),
                _ => sign_step(ch, &mut r_create(&t), &mut t, k),
            }
        }));
    }
    let d = if th { 3 } else { 2 };
    v.push(space("keyed-values", d, &format!("a keyed coin or message with every combination of <= {d} field values, first or last of three inputs, in a script or create: its owner's key signs it, another does not"), move |ch| {
        let kind = [Kind::Script, Kind::Create][ch.free(2)];
        let last = ch.flag();
        let k = ch.free(2);
        let mut t = signed_rich(kind);
        t.ins.truncate(3);
        t.outs.retain(|o| !matches!(o, MOut::Con { .. }));
        let at = if last { 2 } else { 0 };
        // (either kind of keyed input at either place)
        if ch.flag() {
            t.ins.swap(0, 2);
        }
        let keep = owned(&t.ins[at]).unwrap();
        t.ins[at] = dev_in(ch, t.ins[at].clone());
        match &mut t.ins[at] {
            MIn::CoinS { owner: o, wi, .. } | MIn::MsgS { rec: o, wi, .. } => (*o, *wi) = (keep.0, keep.1 as u8),
            _ => return Ok(()),
        }
        t.wit = vec![bytes(1, 8), vec![], vec![9; 64]];
        ch.state(&(&t, k));
        ch.traced();
        match kind {
            Kind::Script => sign_step(ch, &mut r_script(&t), &mut t, k),
            _ => sign_step(ch, &mut r_create(&t), &mut t, k),
        }
    }));
    v.push(space("owner-bits", 0, "a keyed coin, message or predicate input whose owner is one bit, or one byte, away from the signer's: its witness stays as it was", |ch| {
        let mut o = own(0);
        if ch.flag() {
            let i = ch.free(256);
            o[i / 8] ^= 1 << (i % 8);
        } else {
            let i = ch.free(32);
            o[i] = [0, 0xff][ch.free(2)];
        }
        let kind = [Kind::Script, Kind::Create][ch.free(2)];
        let mut t = head(kind);
        t.ins = vec![match ch.free(4) {
            0 => coin_s(o, 1, 1),
            1 => msg_s(o, 1, 1),
            2 => coin_p(o, vec![1], 1),
            _ => msg_p(o, vec![1], 1),
        }];
        if ch.flag() {
            t.ins.push(coin_s(own(0), 0, 2));
        }
        t.wit = vec![vec![], vec![5; 64]];
        ch.state(&t);
        ch.traced();
        match kind {
            Kind::Script => sign_step(ch, &mut r_script(&t), &mut t, 0),
            _ => sign_step(ch, &mut r_create(&t), &mut t, 0),
        }
    }));
    v.push(space("keyed-grown", 0, &format!("a script or create with every element kind and any variable-length field of {LONG:?} bytes or any sort of element {MANY:?} times more: each of three keys signs what is its own"), move |ch| {
        let kind = [Kind::Script, Kind::Create][ch.free(2)];
        let mut t = signed_rich(kind);
        grow(ch, &mut t, &LONG, &MANY);
        let k = ch.free(3);
        for (i, x) in t.ins.iter_mut().enumerate() {
            if let MIn::CoinS { owner: o, .. } | MIn::MsgS { rec: o, .. } = x {
                *o = own(i % 2);
            }
        }
        ch.state(&(&t, k));
        ch.traced();
        match kind {
            Kind::Script => sign_step(ch, &mut r_script(&t), &mut t, k),
            _ => sign_step(ch, &mut r_create(&t), &mut t, k),
        }
    }));
    v
}
