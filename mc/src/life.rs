//! C06 metadata caches through histories of modifications; C17 preparation for the VM.
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::valid::brief;
use crate::wire::*;
use crate::{ensure, ensure_eq};
use fuel_tx::field::*;
use fuel_tx::{Cacheable, Executable, Input, Output, Transaction, UniqueIdentifier};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::io::Write as _;

/// Is a cache made for content `c` up to date for content `t`?
fn fresh(c: &MTx, t: &MTx) -> bool {
    sign_form(c) == sign_form(t) && c.wit.iter().map(|w| w.len()).eq(t.wit.iter().map(|w| w.len()))
}
macro_rules! both {
    ($tx:expr, $s:ident => $body:expr) => {
        match $tx {
            Transaction::Script($s) => $body,
            Transaction::Create($s) => $body,
            Transaction::Mint(_) => {}
        }
    };
}
pub const MUTS: usize = 9;
/// One modification through the public mutators; false if it does not apply.
pub fn mutate(op: usize, tx: &mut Transaction, t: &mut MTx) -> bool {
    match op {
        0 => {
            if t.kind == Kind::Mint {
                return false;
            }
            let x = def_in(1, t.ins.len() + 1, [0, 5, 3]);
            both!(tx, s => s.inputs_mut().push(r_in(&x)));
            t.ins.push(x);
        }
        1 => {
            if t.ins.is_empty() {
                return false;
            }
            both!(tx, s => {s.inputs_mut().remove(0);});
            t.ins.remove(0);
        }
        2 => {
            let x = def_out(t.outs.len() % 6, t.outs.len());
            match tx {
                Transaction::Script(s) => s.outputs_mut().push(r_out(&x)),
                Transaction::Create(s) => s.outputs_mut().push(r_out(&x)),
                Transaction::Mint(s) => s.outputs_mut().push(r_out(&x)),
            }
            t.outs.push(x);
        }
        3 => match tx {
            Transaction::Script(s) => {
                s.script_mut().extend([1, 2, 3, 4, 5]);
                t.script.extend([1, 2, 3, 4, 5]);
            }
            Transaction::Create(s) => {
                let x = (pat(0xee, t.slots.len()), pat(0xef, 1));
                s.storage_slots_mut().push(r_slot(&x));
                t.slots.push(x);
            }
            Transaction::Mint(s) => {
                t.ptr.1 = t.ptr.1.wrapping_add(1);
                *s.tx_pointer_mut() = r_ptr(&t.ptr);
            }
        },
        4 => {
            // grow a predicate in place
            let Some(i) = t.ins.iter().position(|x| matches!(x, MIn::CoinP { .. } | MIn::MsgP { .. })) else { return false };
            if let MIn::CoinP { pred, .. } | MIn::MsgP { pred, .. } = &mut t.ins[i] {
                pred.extend([9; 8]);
            }
            let x = r_in(&t.ins[i]);
            both!(tx, s => s.inputs_mut()[i] = x);
        }
        5 => {
            // fields the id ignores
            if t.kind == Kind::Mint {
                return false;
            }
            for o in &mut t.outs {
                if let MOut::Change { amount, .. } | MOut::Var { amount, .. } | MOut::Msg { amount, .. } = o {
                    *amount = amount.wrapping_add(1)
                }
                if let MOut::Con { bal, .. } = o {
                    bal[3] ^= 1
                }
            }
            for x in &mut t.ins {
                if let MIn::Con { st, utxo, .. } = x {
                    st[4] ^= 1;
                    utxo.1 ^= 1;
                }
                if let MIn::CoinS { ptr, .. } = x {
                    ptr.0 ^= 1;
                }
            }
            let (i, o): (Vec<Input>, Vec<Output>) = (t.ins.iter().map(r_in).collect(), t.outs.iter().map(r_out).collect());
            both!(tx, s => {*s.inputs_mut() = i; *s.outputs_mut() = o;});
            if let Transaction::Script(s) = tx {
                t.rroot[7] ^= 1;
                *s.receipts_root_mut() = b32(&t.rroot);
            }
        }
        6 => match tx {
            Transaction::Script(s) => {
                t.price = t.price.wrapping_add(1);
                *s.gas_price_mut() = t.price;
            }
            Transaction::Create(s) => {
                t.salt[0] ^= 1;
                *s.salt_mut() = t.salt.into();
            }
            Transaction::Mint(s) => {
                t.ptr.0 = t.ptr.0.wrapping_add(1);
                *s.tx_pointer_mut() = r_ptr(&t.ptr);
            }
        },
        7 => {
            if t.kind == Kind::Mint {
                return false;
            }
            let w = bytes(t.wit.len() as u8, 5);
            both!(tx, s => s.witnesses_mut().push(r_wit(&w)));
            t.wit.push(w);
        }
        _ => {
            if t.wit.is_empty() {
                return false;
            }
            t.wit[0].extend([1; 8]);
            both!(tx, s => s.witnesses_mut()[0].as_vec_mut().extend([1; 8]));
        }
    }
    true
}
fn c06_start(kind: Kind, shape: usize) -> MTx {
    let mut t = def_head(kind);
    match shape {
        0 => {
            t.script.clear();
            t.sdata.clear();
            t.slots.clear();
        }
        1 => {
            t = rich(kind);
        }
        _ => {
            if kind != Kind::Mint {
                t.ins = vec![def_in(1, 0, [0, 3, 0]), def_in(2, 1, [0; 3]), def_in(4, 2, [5, 9, 1])];
                t.wit = vec![bytes(1, 3)];
            }
            t.outs = vec![def_out(3, 0), def_out(1, 1)];
        }
    }
    t
}
fn c06_history(ch: &mut Ch, mut t: MTx, depth: usize) -> R {
    let mut tx = r_tx(&t);
    let other = {
        let mut o = rich(t.kind);
        if t.kind != Kind::Mint {
            o.price = 77;
        }
        o.ins.truncate(2);
        o.outs.reverse();
        o
    };
    let mut cache: Option<MTx> = None;
    ch.step(1);
    for _ in 0..depth {
        let op = ch.free(MUTS + 8);
        ch.step(1);
        let mut decoded = false;
        match op {
            0 => break,
            1 => {
                tx.precompute();
                ensure!(tx.is_computed(), "not computed after precompute");
                cache = Some(t.clone());
            }
            2 => tx = tx.clone(),
            3 => {
                // what a stale cache does to the encoding is not promised
                if cache.as_ref().map_or(true, |c| fresh(c, &t)) {
                    let b = tx.to_bytes();
                    tx = Transaction::from_bytes(&b).map_err(|e| format!("own encoding refused: {e}"))?;
                    decoded = true;
                } else {
                    return Ok(());
                }
            }
            4 => {
                let b = enc_tx(&other);
                let n = tx.write(&b).map_err(|e| format!("decoding in place: {e}"))?;
                ensure_eq!(n, b.len(), "bytes consumed in place");
                t = other.clone();
                decoded = true;
            }
            5 => {
                tx = Transaction::from_json(tx.to_json()).ok_or("own JSON refused")?;
                decoded = true;
            }
            6 => {
                both!(&mut tx, s => {s.prepare_init_script();});
                t = if t.kind == Kind::Mint { t } else { init_script(&t) };
            }
            7 => {
                both!(&mut tx, s => {s.prepare_init_predicate();});
                t = if t.kind == Kind::Mint { t } else { init_predicate(&t) };
            }
            k => {
                if !mutate(k - 8, &mut tx, &mut t) {
                    return Ok(());
                }
            }
        }
        if decoded {
            ensure!(!tx.is_computed(), "a decoded value claims to have metadata");
            cache = None;
        }
        if !tx.is_computed() {
            cache = None;
        }
    }
    ch.state(&(&t, cache.as_ref().map(|c| (model_id(c), fresh(c, &t)))));
    let u = r_tx(&t);
    ensure!(!u.is_computed(), "a constructed transaction claims to have metadata");
    ensure!(m_tx(&tx) == t, "content {:?}, expected {t:?}", m_tx(&tx));
    ensure!(tx == u && u == tx, "equality depends on the cache: {}", brief(&t));
    ensure!(std_hash(&tx) == std_hash(&u), "hash depends on the cache: {}", brief(&t));
    let up = cache.as_ref().map_or(true, |c| fresh(c, &t));
    if up {
        let want = enc_tx(&t);
        ensure!(tx.clone().to_bytes() == want, "encoding (metadata {:?}): {}", cache.is_some(), brief(&t));
        ensure_eq!(tx.serialized_size(), want.len(), "size");
        ensure_eq!(*tx.id(), model_id(&t), "id (metadata {:?}) of {}", cache.is_some(), brief(&t));
        offsets_equal(&u, &tx)?;
        ensure!(tx.to_json() == u.to_json(), "JSON depends on the cache");
    }
    ch.outcome(match (&cache, up) {
        (None, _) => "no metadata",
        (_, true) => "up-to-date metadata",
        _ => "stale metadata",
    });
    tx.precompute();
    ensure_eq!(*tx.id(), model_id(&t), "id after precompute of {}", brief(&t));
    cache_transparent(&t, &u, &tx)?;
    // the same through the specific types
    match (tx, u) {
        (Transaction::Script(mut a), Transaction::Script(b)) => {
            ensure!(a == b && std_hash(&a) == std_hash(&b), "specific equality depends on the cache");
            ensure!(a.is_computed() && !b.is_computed(), "specific is_computed");
            ensure_eq!(a.id(), b.id(), "specific id");
            a.precompute();
            ensure_eq!(a.id(), b.id(), "specific id recomputed");
        }
        (Transaction::Create(mut a), Transaction::Create(b)) => {
            ensure!(a == b && std_hash(&a) == std_hash(&b), "specific equality depends on the cache");
            ensure!(a.is_computed() && !b.is_computed(), "specific is_computed");
            ensure_eq!(a.id(), b.id(), "specific id");
            a.precompute();
            ensure_eq!(a.id(), b.id(), "specific id recomputed");
        }
        (Transaction::Mint(mut a), Transaction::Mint(b)) => {
            ensure!(a == b && std_hash(&a) == std_hash(&b), "specific equality depends on the cache");
            ensure!(a.is_computed() && !b.is_computed(), "specific is_computed");
            ensure_eq!(a.id(), b.id(), "specific id");
            a.precompute();
            ensure_eq!(a.id(), b.id(), "specific id recomputed");
        }
        _ => return Err("kind changed".into()),
    }
    ch.traced();
    ch.sample(|| format!("metadata {:?} fresh {up}: {}", cache.is_some(), brief(&t)));
    Ok(())
}
pub fn c06_tx(ch: &mut Ch, t: &MTx) -> R {
    let u = r_tx(t);
    let mut c = u.clone();
    c.precompute();
    ensure_eq!(*c.id(), model_id(t), "cached id of {}", brief(t));
    let w = wire_tx(t);
    if w == *t {
        cache_transparent(t, &u, &c)?;
    } else {
        offsets_equal(&u, &c)?;
        ensure!(u == c && std_hash(&u) == std_hash(&c), "equality or hash depends on the cache: {}", brief(t));
    }
    // precomputing twice changes nothing
    let mut d = c.clone();
    d.precompute();
    offsets_equal(&c, &d)?;
    ensure_eq!(d.id(), c.id(), "id precomputed twice");
    ch.step(3);
    ch.traced();
    ch.outcome("cached = uncached");
    Ok(())
}
pub fn c06_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    for kind in KINDS {
        let depth = if th { 5 } else { 4 };
        v.push(space(&format!("histories-{kind:?}"), 0, &format!("every history of <= {depth} operations from {{precompute, clone, binary round trip, decoding another value in place, JSON round trip, script and predicate preparation, and {MUTS} kinds of modification}} on 3 starting transactions"), move |ch| {
            let t = c06_start(kind, ch.free(3));
            c06_history(ch, t, depth)
        }));
        if kind != Kind::Mint {
            let depth = if th { 8 } else { 6 };
            // modifications and precomputations only, deeper
            v.push(space(&format!("refresh-{kind:?}"), 0, &format!("every history of <= {depth} operations from {{precompute, add input, remove input, grow before the lists, add witness}}"), move |ch| {
                let mut t = c06_start(kind, 2);
                let mut tx = r_tx(&t);
                let mut cache: Option<MTx> = None;
                for _ in 0..depth {
                    ch.step(1);
                    match ch.free(6) {
                        0 => break,
                        1 => {
                            tx.precompute();
                            cache = Some(t.clone());
                        }
                        k => {
                            if !mutate([0, 1, 3, 7][k - 2], &mut tx, &mut t) {
                                return Ok(());
                            }
                        }
                    }
                }
                ch.state(&(&t, cache.is_some()));
                let u = r_tx(&t);
                ensure!(tx == u && std_hash(&tx) == std_hash(&u), "equality or hash depends on the cache: {}", brief(&t));
                if cache.as_ref().map_or(true, |c| fresh(c, &t)) {
                    ensure_eq!(*tx.id(), model_id(&t), "id of {}", brief(&t));
                    offsets_equal(&u, &tx)?;
                    ch.outcome("up to date");
                } else {
                    ch.outcome("stale");
                }
                tx.precompute();
                ensure_eq!(*tx.id(), model_id(&t), "id of {}", brief(&t));
                offsets_equal(&u, &tx)?;
                ch.traced();
                Ok(())
            }));
        }
    }
    v.extend(tx_spaces(th, if th { 2 } else { 1 }, c06_tx));
    v
}

// -------------------------------------------------------------------------------------------- C17
fn prep(tx: &mut Transaction, script: bool) {
    if script {
        both!(tx, s => {s.prepare_init_script();})
    } else {
        both!(tx, s => {s.prepare_init_predicate();})
    }
}
pub fn c17_tx(ch: &mut Ch, t: &MTx) -> R {
    if t.kind == Kind::Mint {
        return Ok(());
    }
    let id = model_id(t);
    let (ws, wp) = (init_script(t), init_predicate(t));
    for (script, want, name) in [(true, &ws, "script"), (false, &wp, "predicate")] {
        let mut a = r_tx(t);
        prep(&mut a, script);
        let got = m_tx(&a);
        ensure!(got == *want, "{name} preparation turned {t:?} into {got:?}, expected {want:?}");
        ensure_eq!(*a.id(), id, "id after {name} preparation of {}", brief(t));
        prep(&mut a, script);
        ensure!(m_tx(&a) == *want, "a second {name} preparation changed {want:?} into {:?}", m_tx(&a));
        // the other one on top
        prep(&mut a, !script);
        ensure!(m_tx(&a) == wp, "both preparations give {:?}, expected {wp:?}", m_tx(&a));
        ensure_eq!(*a.id(), id, "id after both preparations");
        let mut b = r_tx(t);
        b.precompute();
        prep(&mut b, script);
        ensure!(m_tx(&b) == *want, "{name} preparation with metadata");
        ensure_eq!(*b.id(), id, "id after {name} preparation with metadata");
        b.precompute();
        ensure_eq!(*b.id(), id, "recomputed id after {name} preparation");
        ch.step(4);
    }
    ch.traced();
    ch.outcome(if ws == *t && wp == *t { "nothing to clear" } else { "cleared" });
    ch.sample(|| format!("{} -> {}", brief(t), brief(&wp)));
    Ok(())
}
pub fn c17_elem(ch: &mut Ch, e: &Elem) -> R {
    match e {
        Elem::In(x) => {
            let mut r = r_in(x);
            r.prepare_init_predicate();
            let mut w = x.clone();
            sign_in(&mut w);
            ensure!(m_in(&r) == w, "predicate preparation of {x:?} gives {:?}", m_in(&r));
            r.prepare_init_predicate();
            ensure!(m_in(&r) == w, "second predicate preparation of {x:?} gives {:?}", m_in(&r));
        }
        Elem::Out(x) => {
            let mut r = r_out(x);
            r.prepare_init_predicate();
            let mut w = x.clone();
            sign_out(&mut w);
            ensure!(m_out(&r) == w, "predicate preparation of {x:?} gives {:?}", m_out(&r));
            let mut r = r_out(x);
            r.prepare_init_script();
            let mut w = x.clone();
            init_script_out(&mut w);
            ensure!(m_out(&r) == w, "script preparation of {x:?} gives {:?}", m_out(&r));
            r.prepare_init_script();
            ensure!(m_out(&r) == w, "second script preparation of {x:?} gives {:?}", m_out(&r));
        }
        _ => return Ok(()),
    }
    ch.step(2);
    ch.traced();
    ch.outcome("element");
    Ok(())
}
pub fn c17_spaces(th: bool) -> Vec<Space> {
    let mut v: Vec<Space> = tx_spaces(th, if th { 3 } else { 2 }, c17_tx).into_iter().filter(|s| !s.name.contains("Mint")).collect();
    v.extend(elem_spaces(th, if th { 3 } else { 2 }, c17_elem));
    for kind in [Kind::Script, Kind::Create] {
        let depth = if th { 6 } else { 5 };
        v.push(space(&format!("prep-histories-{kind:?}"), 0, &format!("every history of <= {depth} operations from {{script preparation, predicate preparation, precompute, restore malleable values, add output, add input}}"), move |ch| {
            let base = rich(kind);
            let mut t = base.clone();
            let mut tx = r_tx(&t);
            let mut stale = false;
            for _ in 0..depth {
                ch.step(1);
                match ch.free(7) {
                    0 => break,
                    1 => {
                        prep(&mut tx, true);
                        t = init_script(&t);
                    }
                    2 => {
                        prep(&mut tx, false);
                        t = init_predicate(&t);
                    }
                    3 => {
                        tx.precompute();
                        stale = false;
                    }
                    4 => {
                        mutate(5, &mut tx, &mut t);
                    }
                    5 => {
                        mutate(2, &mut tx, &mut t);
                        stale = true;
                    }
                    _ => {
                        mutate(0, &mut tx, &mut t);
                        stale = true;
                    }
                }
                ensure!(m_tx(&tx) == t, "content {:?}, expected {t:?}", m_tx(&tx));
            }
            if stale {
                tx.precompute();
            }
            ensure_eq!(*tx.id(), model_id(&t), "id of {}", brief(&t));
            ch.state(&t);
            ch.traced();
            ch.outcome("history");
            Ok(())
        }));
    }
    v
}
