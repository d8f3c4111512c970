//! C23: what exists without std - sizes, offsets, preparation, constructors, and the other properties' spaces.
//! Compiled into both crates, so the same cases run on the full and on the reduced build.
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::shared::*;
use crate::{ensure, ensure_eq};
use fuel_tx::{Executable, Input, Output, Transaction};
use fuel_types::bytes::SizedBytes;

/// Advertised sizes and offsets against the reference encoder's positions.
pub fn places(ch: &mut Ch, t: &MTx) -> R {
    let e = enc_tx_spans(t);
    let span = spans(&e);
    let tx = r_tx(t);
    ensure!(m_tx(&tx) == *t, "constructor changed the fields of {}", short(t));
    ensure_eq!(tx.serialized_size(), e.b.len(), "size of {}", short(t));
    let inner = match &tx {
        Transaction::Script(s) => s.serialized_size(),
        Transaction::Create(s) => s.serialized_size(),
        Transaction::Mint(s) => s.serialized_size(),
    };
    ensure_eq!(inner, e.b.len(), "size through the specific type of {}", short(t));
    for (i, x) in t.ins.iter().enumerate() {
        let (_, n) = span[&("in", i)];
        ensure_eq!(r_in(x).serialized_size(), n, "size of {x:?}");
    }
    for (i, x) in t.outs.iter().enumerate() {
        let (_, n) = span[&("out", i)];
        ensure_eq!(r_out(x).serialized_size(), n, "size of {x:?}");
    }
    for (i, x) in t.wit.iter().enumerate() {
        let (_, n) = span[&("wit", i)];
        ensure_eq!(r_wit(x).serialized_size(), n, "size of a witness of {} bytes", x.len());
    }
    for (l, i, got) in all_offsets(&tx) {
        let want = offset_of(t, &span, l, i);
        ensure!(got == want, "offset {l}[{i}]: got {got:?}, expected {want:?} in {}", short(t));
        ch.step(1);
    }
    in_offsets(ch, t, &e)?;
    prepared(ch, t)?;
    ch.traced();
    ch.outcome(match t.kind {
        Kind::Script => "script",
        Kind::Create => "create",
        Kind::Mint => "mint",
    });
    ch.sample(|| short(t));
    Ok(())
}
fn prepared(ch: &mut Ch, t: &MTx) -> R {
    let mut tx = r_tx(t);
    let want = if t.kind == Kind::Mint { t.clone() } else { init_predicate(t) };
    for n in 0..2 {
        match &mut tx {
            Transaction::Script(s) => {
                s.prepare_init_predicate();
            }
            Transaction::Create(s) => {
                s.prepare_init_predicate();
            }
            Transaction::Mint(_) => {}
        }
        ensure!(m_tx(&tx) == want, "predicate preparation {n} of {}: {tx:?}", short(t));
        ch.step(1);
    }
    Ok(())
}
/// Constructors of single elements, and copies.
fn element(ch: &mut Ch, e: &Elem) -> R {
    match e {
        Elem::In(x) => {
            let r: Input = r_in(x);
            ensure!(m_in(&r) == *x && r.clone() == r && std_hash(&r.clone()) == std_hash(&r), "input {x:?} became {r:?}");
            crate::access::input(ch, x)?;
        }
        Elem::Out(x) => {
            let r: Output = r_out(x);
            ensure!(m_out(&r) == *x && r.clone() == r, "output {x:?} became {r:?}");
            crate::access::output(ch, x)?;
        }
        Elem::Wit(w) => ensure!(m_wit(&r_wit(w)) == *w, "witness {w:?}"),
        Elem::Slot(k, v) => {
            let s = r_slot(&(*k, *v));
            ensure!(**s.key() == *k && **s.value() == *v && s.serialized_size() == 64, "slot {k:02x?} {v:02x?} became {s:?}");
        }
        Elem::Utxo(a, i) => {
            let u = r_utxo(&(*a, *i));
            ensure!(**u.tx_id() == *a && u.output_index() == *i && u.serialized_size() == 40, "UTXO id {a:02x?} {i} became {u:?}");
        }
        Elem::Ptr(h, i) => {
            let p = r_ptr(&(*h, *i));
            ensure!(p.block_height() == *h && p.tx_index() == *i && p.serialized_size() == 16, "pointer {h} {i} became {p:?}");
        }
    }
    ch.step(3);
    ch.traced();
    Ok(())
}
fn own_spaces(th: bool, d: u32) -> Vec<Space> {
    let mut v = tx_spaces(th, d, places);
    v.extend(elem_spaces(th, d, element));
    v.push(space("receipt-constructors", 0, "constructors computing the length word, data length 0..=600", |ch| {
        let n = ch.free(601);
        ch.state(&n);
        crate::receipts::c04_ctor(ch, n)
    }));
    v
}

pub fn c23_spaces(th: bool) -> Vec<Space> {
    let d = if th { 3 } else { 2 };
    let mut v = own_spaces(th, d);
    for (p, s) in [
        ("script", crate::valid::c08_spaces(th)),
        ("create", crate::valid::c09_spaces(th)),
        ("mint", crate::valid::c10_spaces(th)),
        ("fee", crate::fee::fee_spaces(th)),
        ("access", crate::access::c22_spaces(th)),
        ("parameters", crate::consensus::c21_spaces(th)),
        ("text", crate::text::c20_spaces(th)),
        ("commitment", crate::commit::c16_spaces(th)),
        ("message", crate::commit::c24_spaces(th)),
        ("receipt", crate::receipts::rc_spaces(th, d, crate::receipts::reduced)),
        ("serde", {
            let mut v = tx_spaces(th, 1, c19_tx);
            v.extend(elem_spaces(th, 2, c19_elem));
            v.extend(crate::receipts::rc_spaces(th, 1, crate::receipts::c19_rc));
            v.extend(crate::json::json_spaces(th));
            v
        }),
    ] {
        for mut x in s {
            x.name = format!("{p}-{}", x.name).into();
            v.push(x);
        }
    }
    v
}
