//! Enumerated spaces of transactions (as reference-model values) shared by several properties.
use crate::explore::*;
use crate::model::*;
use std::sync::Arc;

pub const IN_KINDS: usize = 5;
pub const OUT_KINDS: usize = 6;

/// Distinct non-default input of a kind; lengths depend on the position so alignments vary.
pub fn def_in(kind: usize, i: usize, l: [usize; 3]) -> MIn {
    let t = 0x10 + (i as u8 & 0x0f) * 0x0d;
    let u = (pat(t, i), t | 1);
    let p = (0x0102_0301u32.wrapping_add(i as u32), 0x0a01u16.wrapping_add(i as u16));
    match kind {
        0 => MIn::CoinS { utxo: u, owner: pat(t + 1, i), amount: word(t + 2, i), asset: pat(t + 3, i), ptr: p, wi: t | 2, mat: word(t + 4, i) },
        1 => MIn::CoinP { utxo: u, owner: pat(t + 1, i), amount: word(t + 2, i), asset: pat(t + 3, i), ptr: p, mat: word(t + 4, i), pred: bytes(t + 5, l[1].max(1)), pdata: bytes(t + 6, l[2]) },
        2 => MIn::Con { utxo: u, bal: pat(t + 1, i), st: pat(t + 2, i), ptr: p, cid: pat(t + 3, i) },
        3 => MIn::MsgS { mid: pat(t, i), sender: pat(t + 1, i), rec: pat(t + 2, i), amount: word(t + 3, i), nonce: word(t + 4, i), wi: t | 4, data: bytes(t + 5, l[0]) },
        _ => MIn::MsgP {
            mid: pat(t, i),
            sender: pat(t + 1, i),
            rec: pat(t + 2, i),
            amount: word(t + 3, i),
            nonce: word(t + 4, i),
            data: bytes(t + 5, l[0]),
            pred: bytes(t + 6, l[1].max(1)),
            pdata: bytes(t + 7, l[2]),
        },
    }
}
pub fn def_out(kind: usize, i: usize) -> MOut {
    let t = 0x80 + (i as u8 & 0x0f) * 0x07;
    match kind {
        0 => MOut::Coin { to: pat(t, i), amount: word(t + 1, i), asset: pat(t + 2, i) },
        1 => MOut::Con { idx: t | 1, bal: pat(t, i), st: pat(t + 1, i) },
        2 => MOut::Msg { rec: pat(t, i), amount: word(t + 1, i) },
        3 => MOut::Change { to: pat(t, i), amount: word(t + 1, i), asset: pat(t + 2, i) },
        4 => MOut::Var { to: pat(t, i), amount: word(t + 1, i), asset: pat(t + 2, i) },
        _ => MOut::Created { cid: pat(t, i), st: pat(t + 1, i) },
    }
}
pub fn def_head(kind: Kind) -> MTx {
    let mut t = MTx::new(kind);
    match kind {
        Kind::Script => {
            t.price = word(0xe0, 1);
            t.limit = word(0xe1, 2);
            t.mat = word(0xe2, 3);
            t.rroot = pat(0xe3, 4);
            t.script = bytes(0xe4, 11);
            t.sdata = bytes(0xe5, 6);
        }
        Kind::Create => {
            t.price = word(0xe0, 1);
            t.limit = word(0xe1, 2);
            t.mat = word(0xe2, 3);
            t.bclen = word(0xe6, 5);
            t.bcwi = 0x7b;
            t.salt = pat(0xe7, 6);
            t.slots = vec![(pat(0xe8, 1), pat(0xe9, 1)), (pat(0xea, 2), pat(0xeb, 2))];
        }
        Kind::Mint => t.ptr = (0xd1d2_d3d4, 0xc1c2),
    }
    t
}

const LENS: [[usize; 3]; 5] = [[0, 1, 0], [3, 8, 5], [8, 7, 0], [5, 16, 9], [0, 3, 16]];

/// S1: every sequence of input kinds x output kinds x witness counts, up to the given lengths.
pub fn shapes(ch: &mut Ch, kind: Kind, max_in: usize, max_out: usize, max_wit: usize) -> MTx {
    let mut t = def_head(kind);
    if kind != Kind::Mint {
        let n = ch.free(max_in + 1);
        for i in 0..n {
            let k = ch.free(IN_KINDS);
            t.ins.push(def_in(k, i, LENS[(i + k) % 5]));
        }
        let w = ch.free(max_wit + 1);
        for i in 0..w {
            t.wit.push(bytes(0x40 + i as u8, [5, 0, 64, 8][i % 4]));
        }
        if kind == Kind::Create {
            let s = ch.free(3);
            t.slots.truncate(s);
        } else {
            let s = ch.free(3);
            if s == 1 {
                t.script.clear();
            }
            if s == 2 {
                t.sdata.clear();
            }
        }
    }
    let n = ch.free(max_out + 1);
    for i in 0..n {
        let k = ch.free(OUT_KINDS);
        t.outs.push(def_out(k, i));
    }
    t
}

// ---- field deviations ------------------------------------------------------------------------
pub fn dev_b32(ch: &mut Ch, d: B32, other: B32) -> B32 {
    match ch.pick(7) {
        0 => d,
        1 => Z,
        2 => [0xff; 32],
        3 => {
            let mut x = d;
            x[0] ^= 1;
            x
        }
        4 => {
            let mut x = d;
            x[31] ^= 0x80;
            x
        }
        5 => {
            let mut x = d;
            x[16] = x[16].wrapping_add(1);
            x
        }
        _ => other,
    }
}
pub const WORDS: [u64; 11] = [0, 1, 0x7f, 0xff, 0x100, 0xffff, 0x1_0000, 0xffff_ffff, 0x1_0000_0000, 0x8000_0000_0000_0000, u64::MAX];
pub fn dev_word(ch: &mut Ch, d: u64) -> u64 {
    let i = ch.pick(WORDS.len() + 1);
    if i == 0 {
        d
    } else {
        WORDS[i - 1]
    }
}
pub fn dev_u8(ch: &mut Ch, d: u8) -> u8 {
    [d, 0, 1, 0x7f, 0x80, 0xfe, 0xff][ch.pick(7)]
}
pub fn dev_ptr(ch: &mut Ch, d: (u32, u16)) -> (u32, u16) {
    let h = [d.0, 0, 1, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, u32::MAX][ch.pick(10)];
    let i = [d.1, 0, 1, 0xff, 0x100, 0x7fff, 0x8000, u16::MAX][ch.pick(8)];
    (h, i)
}
/// A vector deviates in length and in content (all zero, all ones).
pub fn dev_vec(ch: &mut Ch, d: Vec<u8>, tag: u8) -> Vec<u8> {
    const L: [usize; 15] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33];
    let i = ch.pick(L.len() + 3);
    if i == 0 {
        d
    } else if i == L.len() + 1 {
        vec![0; d.len() + 1]
    } else if i == L.len() + 2 {
        let mut v = d;
        if let Some(x) = v.last_mut() {
            *x = 0
        }
        v
    } else {
        bytes(tag, L[i - 1])
    }
}
pub fn dev_utxo(ch: &mut Ch, d: (B32, u8), o: B32) -> (B32, u8) {
    (dev_b32(ch, d.0, o), dev_u8(ch, d.1))
}
pub fn dev_in(ch: &mut Ch, x: MIn) -> MIn {
    let o = pat(0x33, 9);
    match x {
        MIn::CoinS { utxo, owner, amount, asset, ptr, wi, mat } => MIn::CoinS {
            utxo: dev_utxo(ch, utxo, owner),
            owner: dev_b32(ch, owner, asset),
            amount: dev_word(ch, amount),
            asset: dev_b32(ch, asset, owner),
            ptr: dev_ptr(ch, ptr),
            wi: dev_u8(ch, wi),
            mat: dev_word(ch, mat),
        },
        MIn::CoinP { utxo, owner, amount, asset, ptr, mat, pred, pdata } => MIn::CoinP {
            utxo: dev_utxo(ch, utxo, owner),
            owner: dev_b32(ch, owner, asset),
            amount: dev_word(ch, amount),
            asset: dev_b32(ch, asset, owner),
            ptr: dev_ptr(ch, ptr),
            mat: dev_word(ch, mat),
            pred: dev_vec(ch, pred, 0x91),
            pdata: dev_vec(ch, pdata, 0x92),
        },
        MIn::Con { utxo, bal, st, ptr, cid } => MIn::Con { utxo: dev_utxo(ch, utxo, o), bal: dev_b32(ch, bal, st), st: dev_b32(ch, st, bal), ptr: dev_ptr(ch, ptr), cid: dev_b32(ch, cid, bal) },
        MIn::MsgS { mid, sender, rec, amount, nonce, wi, data } => MIn::MsgS {
            mid: dev_b32(ch, mid, sender),
            sender: dev_b32(ch, sender, rec),
            rec: dev_b32(ch, rec, sender),
            amount: dev_word(ch, amount),
            nonce: dev_word(ch, nonce),
            wi: dev_u8(ch, wi),
            data: dev_vec(ch, data, 0x93),
        },
        MIn::MsgP { mid, sender, rec, amount, nonce, data, pred, pdata } => MIn::MsgP {
            mid: dev_b32(ch, mid, sender),
            sender: dev_b32(ch, sender, rec),
            rec: dev_b32(ch, rec, sender),
            amount: dev_word(ch, amount),
            nonce: dev_word(ch, nonce),
            data: dev_vec(ch, data, 0x93),
            pred: dev_vec(ch, pred, 0x94),
            pdata: dev_vec(ch, pdata, 0x95),
        },
    }
}
pub fn dev_out(ch: &mut Ch, x: MOut) -> MOut {
    match x {
        MOut::Coin { to, amount, asset } => MOut::Coin { to: dev_b32(ch, to, asset), amount: dev_word(ch, amount), asset: dev_b32(ch, asset, to) },
        MOut::Change { to, amount, asset } => MOut::Change { to: dev_b32(ch, to, asset), amount: dev_word(ch, amount), asset: dev_b32(ch, asset, to) },
        MOut::Var { to, amount, asset } => MOut::Var { to: dev_b32(ch, to, asset), amount: dev_word(ch, amount), asset: dev_b32(ch, asset, to) },
        MOut::Con { idx, bal, st } => MOut::Con { idx: dev_u8(ch, idx), bal: dev_b32(ch, bal, st), st: dev_b32(ch, st, bal) },
        MOut::Msg { rec, amount } => MOut::Msg { rec: dev_b32(ch, rec, pat(0x33, 8)), amount: dev_word(ch, amount) },
        MOut::Created { cid, st } => MOut::Created { cid: dev_b32(ch, cid, st), st: dev_b32(ch, st, cid) },
    }
}
/// S2: a transaction holding every element kind, every field deviating from a distinct default.
pub fn rich(kind: Kind) -> MTx {
    let mut t = def_head(kind);
    if kind != Kind::Mint {
        t.ins = (0..IN_KINDS).map(|k| def_in(k, k, [6, 10, 3])).collect();
        t.wit = vec![bytes(0x41, 9), bytes(0x42, 64)];
    }
    t.outs = (0..OUT_KINDS).map(|k| def_out(k, k)).collect();
    t
}
pub fn dev_tx(ch: &mut Ch, base: &MTx) -> MTx {
    let mut t = base.clone();
    match t.kind {
        Kind::Script | Kind::Create => {
            t.price = dev_word(ch, t.price);
            t.limit = dev_word(ch, t.limit);
            t.mat = dev_word(ch, t.mat);
        }
        Kind::Mint => t.ptr = dev_ptr(ch, t.ptr),
    }
    if t.kind == Kind::Script {
        t.rroot = dev_b32(ch, t.rroot, pat(0x34, 1));
        t.script = dev_vec(ch, t.script, 0x96);
        t.sdata = dev_vec(ch, t.sdata, 0x97);
    }
    if t.kind == Kind::Create {
        t.bclen = dev_word(ch, t.bclen);
        t.bcwi = dev_u8(ch, t.bcwi);
        t.salt = dev_b32(ch, t.salt, pat(0x34, 2));
        for s in &mut t.slots {
            s.0 = dev_b32(ch, s.0, s.1);
            s.1 = dev_b32(ch, s.1, s.0);
        }
    }
    t.ins = t.ins.into_iter().map(|x| dev_in(ch, x)).collect();
    t.outs = t.outs.into_iter().map(|x| dev_out(ch, x)).collect();
    for (i, w) in t.wit.iter_mut().enumerate() {
        *w = dev_vec(ch, std::mem::take(w), 0x98u8.wrapping_add(i as u8));
    }
    t
}

pub const BIG: [usize; 16] = [127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, (1 << 20) + 1];

/// S3: lengths. One variable-length field sweeps 0..=hi and the big lengths; pairs and triples sweep 0..=pair.
pub fn lengths(ch: &mut Ch, kind: Kind, hi: usize, pair: usize, tri: usize) -> MTx {
    let mut t = def_head(kind);
    t.slots.truncate(1);
    let mode = ch.free(3);
    let one = |ch: &mut Ch| {
        let i = ch.free(hi + 1 + BIG.len());
        if i <= hi {
            i
        } else {
            BIG[i - hi - 1]
        }
    };
    let fill = |ch: &mut Ch, tag: u8, n: usize| match ch.free(3) {
        0 => bytes(tag, n),
        1 => vec![0; n],
        _ => vec![0xff; n],
    };
    // every case carries one element after the swept ones, so that misplacement shows
    match mode {
        0 => {
            // single field
            let f = ch.free(if kind == Kind::Script { 10 } else { 8 });
            let n = one(ch);
            let v = fill(ch, 0xa0 + f as u8, n);
            match f {
                0 => t.ins = vec![with_lens(3, 0, v, bytes(1, 3), bytes(2, 5)), def_in(2, 1, [0; 3])],
                1 => t.ins = vec![with_lens(4, 0, v, bytes(1, 3), bytes(2, 5)), def_in(2, 1, [0; 3])],
                2 => t.ins = vec![with_lens(4, 0, bytes(1, 3), v, bytes(2, 5)), def_in(2, 1, [0; 3])],
                3 => t.ins = vec![with_lens(4, 0, bytes(1, 3), bytes(2, 5), v), def_in(2, 1, [0; 3])],
                4 => t.ins = vec![with_lens(1, 0, vec![], v, bytes(2, 5)), def_in(2, 1, [0; 3])],
                5 => t.ins = vec![with_lens(1, 0, vec![], bytes(2, 5), v), def_in(2, 1, [0; 3])],
                6 => t.wit = vec![v, bytes(7, 9)],
                7 => t.wit = vec![bytes(7, 9), v],
                8 => t.script = v,
                _ => t.sdata = v,
            }
        }
        1 => {
            let f = ch.free(if kind == Kind::Script { 5 } else { 4 });
            let (a, b) = (ch.free(pair + 1), ch.free(pair + 1));
            let (x, y) = (bytes(0xb1, a), bytes(0xb2, b));
            match f {
                0 => t.ins = vec![with_lens(1, 0, vec![], x, y), def_in(3, 1, [4, 0, 0])],
                1 => t.ins = vec![with_lens(3, 0, x, vec![], vec![]), with_lens(4, 1, y, bytes(3, 2), vec![])],
                2 => t.wit = vec![x, y, vec![1]],
                3 => {
                    t.ins = vec![with_lens(3, 0, x, vec![], vec![])];
                    t.wit = vec![y, vec![2]];
                }
                _ => {
                    t.script = x;
                    t.sdata = y;
                    t.ins = vec![def_in(1, 0, [0, 3, 2])];
                }
            }
        }
        _ => {
            let (a, b, c) = (ch.free(tri + 1), ch.free(tri + 1), ch.free(tri + 1));
            t.ins = vec![with_lens(4, 0, bytes(0xb1, a), bytes(0xb2, b), bytes(0xb3, c)), def_in(0, 1, [0; 3])];
        }
    }
    t.outs = vec![def_out(1, 0)];
    if t.wit.is_empty() {
        t.wit = vec![bytes(0x43, 3)];
    }
    t
}
pub fn with_lens(kind: usize, i: usize, d: Vec<u8>, p: Vec<u8>, pd: Vec<u8>) -> MIn {
    match def_in(kind, i, [1, 1, 1]) {
        MIn::CoinP { utxo, owner, amount, asset, ptr, mat, .. } => MIn::CoinP { utxo, owner, amount, asset, ptr, mat, pred: p, pdata: pd },
        MIn::MsgS { mid, sender, rec, amount, nonce, wi, .. } => MIn::MsgS { mid, sender, rec, amount, nonce, wi, data: d },
        MIn::MsgP { mid, sender, rec, amount, nonce, .. } => MIn::MsgP { mid, sender, rec, amount, nonce, data: d, pred: p, pdata: pd },
        x => x,
    }
}
/// Makes one thing of a transaction large: a variable-length field of any element, or a list. What is there
/// already keeps its place and, its length aside, its content. Returns whether anything was done.
pub fn grow(ch: &mut Ch, t: &mut MTx, lens: &[usize], counts: &[usize]) -> bool {
    fn vecs(t: &mut MTx) -> Vec<&mut Vec<u8>> {
        let mut f: Vec<&mut Vec<u8>> = vec![];
        if t.kind == Kind::Script {
            f.push(&mut t.script);
            f.push(&mut t.sdata);
        }
        for x in &mut t.ins {
            match x {
                MIn::CoinP { pred, pdata, .. } => f.extend([pred, pdata]),
                MIn::MsgS { data, .. } => f.push(data),
                MIn::MsgP { data, pred, pdata, .. } => f.extend([data, pred, pdata]),
                _ => {}
            }
        }
        f.extend(t.wit.iter_mut());
        f
    }
    let nv = vecs(t).len();
    let sorts = match t.kind {
        Kind::Script => 9,
        Kind::Create => 8,
        Kind::Mint => 1,
    };
    let i = ch.free(nv + sorts + 1);
    if i < nv {
        let n = ch.of(lens);
        *vecs(t).remove(i) = bytes(0x5a, n);
        return true;
    }
    if i == nv + sorts {
        return false;
    }
    let n = ch.of(counts);
    for k in 0..n {
        match (t.kind, i - nv) {
            (Kind::Mint, _) => t.outs.push(def_out(0, 20 + k)),
            (_, j @ 0..=3) => {
                let mut x = def_in([0, 1, 3, 4][j], 20 + k, [3, 4, 5]);
                if let MIn::CoinS { wi, .. } | MIn::MsgS { wi, .. } = &mut x {
                    *wi = 0;
                }
                t.ins.push(x);
            }
            (_, 4) => t.wit.push(bytes(k as u8, k % 9)),
            (_, 5) => t.outs.push(def_out(2, 20 + k)),
            (_, 6) => t.outs.push(MOut::Coin { to: pat(0x5b, k), amount: 0, asset: t.ins.iter().find_map(|x| if let MIn::CoinS { asset, .. } | MIn::CoinP { asset, .. } = x { Some(*asset) } else { None }).unwrap_or(Z) }),
            (Kind::Script, 7) => t.outs.push(def_out(4, 20 + k)),
            (Kind::Script, _) => {
                let at = t.ins.len();
                t.ins.push(def_in(2, 20 + k, [0; 3]));
                t.outs.push(MOut::Con { idx: at as u8, bal: Z, st: Z });
            }
            (_, _) => {
                t.slots.push((pat(0x5c, k), pat(0x5d, k)));
                t.slots.sort();
            }
        }
    }
    true
}
/// S4: element counts.
pub fn counts(ch: &mut Ch, hi: usize, huge: bool) -> MTx {
    let kind = KINDS[ch.free(3)];
    let which = ch.free(match kind {
        Kind::Script => 3,
        Kind::Create => 4,
        Kind::Mint => 1,
    });
    let big: &[usize] = if huge { &[1023, 1024, 1025, 65535, 65536, 65537] } else { &[65536] };
    // the very large counts only matter where a 16-bit count could hide
    let i = ch.free(hi + 1 + big.len());
    let n = if i <= hi { i } else { big[i - hi - 1] };
    let mut t = def_head(kind);
    t.slots.clear();
    match which {
        0 => t.outs = (0..n).map(|i| def_out(i % 6, i)).collect(),
        1 => t.ins = (0..n).map(|i| def_in(i % 5, i, [i % 3, i % 7 + 1, i % 2])).collect(),
        2 => t.wit = (0..n).map(|i| bytes(i as u8, i % 11)).collect(),
        _ => t.slots = (0..n).map(|i| (pat((i >> 8) as u8, i), pat(3, i))).collect(),
    }
    if which != 0 {
        t.outs = vec![def_out(2, 0)];
    }
    if which != 2 && kind != Kind::Mint {
        t.wit = vec![vec![9; 3]];
    }
    t
}

pub type Check = Arc<dyn Fn(&mut Ch, &MTx) -> R + Send + Sync>;

/// The shared corpus as explorer spaces around one per-transaction check.
pub fn tx_spaces(thorough: bool, d: u32, check: impl Fn(&mut Ch, &MTx) -> R + Send + Sync + 'static) -> Vec<Space> {
    let c: Check = Arc::new(check);
    let mut v = vec![];
    for kind in KINDS {
        let c1 = c.clone();
        let (mi, mo, mw) = if thorough { (4, 3, 2) } else { (3, 2, 2) };
        let (mi, mo, mw) = if kind == Kind::Mint { (0, if thorough { 6 } else { 4 }, 0) } else { (mi, mo, mw) };
        v.push(space(
            &format!("shapes-{kind:?}"),
            0,
            &format!("all sequences of <= {mi} inputs (5 kinds) x <= {mo} outputs (6 kinds) x <= {mw} witnesses x 3 body variants"),
            move |ch| {
                let t = shapes(ch, kind, mi, mo, mw);
                ch.state(&t);
                c1(ch, &t)
            },
        ));
        let c2 = c.clone();
        let base = rich(kind);
        v.push(space(
            &format!("fields-{kind:?}"),
            d,
            &format!("one element of every kind, all fields from boundary alphabets, every combination of <= {d} deviations from distinct defaults"),
            move |ch| {
                let t = dev_tx(ch, &base);
                ch.state(&t);
                c2(ch, &t)
            },
        ));
        if kind != Kind::Mint {
            let c3 = c.clone();
            let (hi, pair, tri) = if thorough { (300, 72, 24) } else { (72, 26, 9) };
            v.push(space(
                &format!("lengths-{kind:?}"),
                0,
                &format!("each variable-length field at 0..={hi} and {BIG:?} x 3 fillings; pairs at 0..={pair}; message data x predicate x predicate data at 0..={tri}"),
                move |ch| {
                    let t = lengths(ch, kind, hi, pair, tri);
                    ch.state(&t);
                    c3(ch, &t)
                },
            ));
        }
    }
    let c4 = c.clone();
    let hi = if thorough { 600 } else { 270 };
    v.push(space("counts", 0, &format!("each element list at 0..={hi} and around 2^10/2^16 elements"), move |ch| {
        let t = counts(ch, hi, thorough);
        ch.state(&t);
        c4(ch, &t)
    }));
    v
}
