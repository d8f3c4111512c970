//! C20 text forms of UTXO ids and transaction pointers.
use crate::explore::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use fuel_tx::{TxPointer, UtxoId};
use std::str::FromStr;

const LOW: &[u8; 16] = b"0123456789abcdef";
const UP: &[u8; 16] = b"0123456789ABCDEF";
fn hex(b: &[u8], up: bool) -> String {
    let d = if up { UP } else { LOW };
    b.iter().flat_map(|x| [d[(x >> 4) as usize] as char, d[(x & 15) as usize] as char]).collect()
}
fn nibble(c: u8) -> Option<u8> {
    Some(match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => return None,
    })
}
fn unhex(s: &[u8]) -> Option<Vec<u8>> {
    s.iter().map(|c| nibble(*c)).collect()
}
pub fn utxo_of(s: &str) -> Option<(B32, u8)> {
    let s = s.as_bytes();
    let s = if s.len() >= 2 && s[0] == b'0' && s[1] == b'x' { &s[2..] } else { s };
    let n = unhex(s)?;
    let all = match n.len() {
        0 => vec![0; 66],
        1 | 2 => {
            let mut v = vec![0; 66 - n.len()];
            v.extend(n);
            v
        }
        66 => n,
        _ => return None,
    };
    let mut id = Z;
    for i in 0..32 {
        id[i] = all[2 * i] * 16 + all[2 * i + 1];
    }
    Some((id, all[64] * 16 + all[65]))
}
pub fn ptr_of(s: &str) -> Option<(u32, u16)> {
    let n = unhex(s.as_bytes())?;
    if n.len() != 12 {
        return None;
    }
    let h = n[..8].iter().fold(0u32, |a, x| a << 4 | *x as u32);
    let i = n[8..].iter().fold(0u16, |a, x| a << 4 | *x as u16);
    Some((h, i))
}
/// Both parsers on any string.
fn parse_both(ch: &mut Ch, s: &str) -> R {
    ch.state(s);
    ch.step(2);
    ch.traced();
    let (u, p) = (utxo_of(s), ptr_of(s));
    let got = UtxoId::from_str(s).ok().map(|x| m_utxo(&x));
    ensure!(got == u, "UtxoId::from_str({s:?}) = {got:?}, expected {u:?}");
    let got = TxPointer::from_str(s).ok().map(|x| m_ptr(&x));
    ensure!(got == p, "TxPointer::from_str({s:?}) = {got:?}, expected {p:?}");
    let got: Option<UtxoId> = s.parse().ok();
    ensure!(got.is_some() == u.is_some(), "parse() of {s:?} as a UTXO id");
    ch.outcome(match (u.is_some(), p.is_some()) {
        (true, true) => "both",
        (true, false) => "UTXO id",
        (false, true) => "pointer",
        _ => "neither",
    });
    ch.sample(|| s.to_string());
    Ok(())
}
fn utxo_formats(ch: &mut Ch, id: &B32, i: u8) -> R {
    let u = r_utxo(&(*id, i));
    ch.state(&(id, i));
    ch.step(8);
    ch.traced();
    let (l, h) = (hex(id, false) + &hex(&[i], false), hex(id, true) + &hex(&[i], true));
    for (name, got, want) in [("{:x}", format!("{u:x}"), l.clone()), ("{:X}", format!("{u:X}"), h.clone()), ("{:#x}", format!("{u:#x}"), format!("0x{l}")), ("{:#X}", format!("{u:#X}"), format!("0x{h}"))] {
        ensure_eq!(got, want, "UTXO id {u:?} formatted with {name}");
        ensure!(UtxoId::from_str(&got).map(|x| x == u).unwrap_or(false), "formatted UTXO id {got:?} parses to {:?}", UtxoId::from_str(&got));
    }
    ch.outcome("UTXO id");
    Ok(())
}
fn ptr_formats(ch: &mut Ch, h: u32, i: u16) -> R {
    let p = TxPointer::new(h, i);
    ch.state(&(h, i));
    ch.step(4);
    ch.traced();
    let b = [h.to_be_bytes().to_vec(), i.to_be_bytes().to_vec()].concat();
    for (name, got, want) in [("{:x}", format!("{p:x}"), hex(&b, false)), ("{:X}", format!("{p:X}"), hex(&b, true))] {
        ensure_eq!(got, want, "pointer {p:?} formatted with {name}");
        ensure!(TxPointer::from_str(&got).map(|x| x == p).unwrap_or(false), "formatted pointer {got:?} parses to {:?}", TxPointer::from_str(&got));
    }
    ch.outcome("pointer");
    Ok(())
}
const CHARS: [char; 15] = ['0', 'a', 'F', '9', 'g', 'x', 'X', '+', '-', ' ', '_', '\0', 'é', '€', '😀'];
fn bases() -> Vec<String> {
    let full = hex(&pat(0x3c, 5), false);
    let mixed: String = full.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect();
    vec![
        "0123456789ab".into(),
        "FEDCBA987654".into(),
        "".into(),
        "7f".into(),
        "0x".into(),
        "0xA".into(),
        format!("{full}7e"),
        format!("0x{mixed}B0"),
        "0".repeat(66),
        "0x0123456789ab".into(),
    ]
}
fn edit(ch: &mut Ch, s: &mut Vec<char>, alpha: &[char]) {
    match ch.free(3) {
        0 => {
            let i = ch.free(s.len() + 1);
            s.insert(i, ch.of(alpha));
        }
        1 => {
            if !s.is_empty() {
                let i = ch.free(s.len());
                s[i] = ch.of(alpha);
            }
        }
        _ => {
            if !s.is_empty() {
                let i = ch.free(s.len());
                s.remove(i);
            }
        }
    }
}
pub fn c20_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(space("utxo-nibbles", 0, "3 base values, every pair of (one of 66 digits set to one of 16 values), 4 formats, parsed back", |ch| {
        let (mut id, mut i) = [(Z, 0u8), (pat(0x3c, 5), 0x7e), ([0xff; 32], 0xff)][ch.free(3)];
        for _ in 0..2 {
            let (p, n) = (ch.free(66), ch.free(16) as u8);
            let b = if p < 64 { &mut id[p / 2] } else { &mut i };
            *b = if p % 2 == 0 { (*b & 0x0f) | n << 4 } else { (*b & 0xf0) | n };
        }
        utxo_formats(ch, &id, i)
    }));
    v.push(space("utxo-bytes", 0, "every value of every byte of id and index", |ch| {
        let (mut id, mut i) = (pat(0x3c, 5), 0x7e);
        let p = ch.free(33);
        *(if p < 32 { &mut id[p] } else { &mut i }) = ch.free(256) as u8;
        utxo_formats(ch, &id, i)
    }));
    v.push(space("pointer-values", 0, "all 65536 indices x 4 heights; every pair of (one of 8 height digits set to one of 16 values) x 3 bases x 3 indices", |ch| {
        if ch.flag() {
            let (h, i) = ([0, 0x0102_0304, 0xabcd_ef98, u32::MAX][ch.free(4)], ch.free(65536) as u16);
            ptr_formats(ch, h, i)
        } else {
            let mut h = [0u32, 0x0102_0304, u32::MAX][ch.free(3)];
            for _ in 0..2 {
                let (p, n) = (ch.free(8) * 4, ch.free(16) as u32);
                h = (h & !(15 << p)) | n << p;
            }
            let i = [0, 0x0a0b, u16::MAX][ch.free(3)];
            ptr_formats(ch, h, i)
        }
    }));
    let len = if th { 5 } else { 4 };
    v.push(space("short-strings", 0, &format!("every string of <= {len} characters over {CHARS:?}"), move |ch| {
        let mut s = String::new();
        for _ in 0..len {
            let c = ch.free(CHARS.len() + 1);
            if c == 0 {
                break;
            }
            s.push(CHARS[c - 1]);
        }
        parse_both(ch, &s)
    }));
    v.push(space("one-character", 0, "every character below U+3000 (surrogates aside) inserted into or replacing every position of 12- and 66-digit strings and the empty one", |ch| {
        let base = ["0123456789ab".to_string(), hex(&pat(0x3c, 5), false) + "7e", String::new(), "0x".to_string()][ch.free(4)].clone();
        let mut s: Vec<char> = base.chars().collect();
        let small = s.len() < 20;
        let pos = if small { ch.free(s.len() + 1) } else { [0, 1, 33, 63, 64, 65, 66][ch.free(7)] };
        let c = char::from_u32(ch.free(0x3000) as u32).unwrap();
        if ch.flag() {
            s.insert(pos, c)
        } else if pos < s.len() {
            s[pos] = c
        }
        parse_both(ch, &s.into_iter().collect::<String>())
    }));
    for (k, b) in bases().into_iter().enumerate() {
        let n = b.chars().count();
        // three edits of short bases, two of long ones
        let (edits, small) = if n < 20 { (if th { 3 } else { 2 }, false) } else { (2, !th) };
        v.push(space(&format!("edits-{k}"), 0, &format!("{b:?}: every sequence of <= {edits} insertions, replacements and deletions over {} characters", if small { 5 } else { CHARS.len() }), move |ch| {
            let mut s: Vec<char> = b.chars().collect();
            let alpha: &[char] = if small { &['a', 'x', '+', 'é', '0'] } else { &CHARS };
            for _ in 0..ch.free(edits + 1) {
                edit(ch, &mut s, alpha);
            }
            parse_both(ch, &s.into_iter().collect::<String>())
        }));
    }
    let hi = if th { 300 } else { 145 };
    v.push(space("digit-counts", 0, &format!("8 prefixes x 0..={hi} digits x 4 fillings x 6 suffixes"), move |ch| {
        let p = ["", "0x", "0X", "0x0x", " ", "x", "+", "0x "][ch.free(8)];
        let n = ch.free(hi + 1);
        let f = ["0", "f", "F", "5aC0"][ch.free(4)];
        let s = ["", " ", "é", "0x", "\n", "\0"][ch.free(6)];
        let d: String = f.chars().cycle().take(n).collect();
        parse_both(ch, &format!("{p}{d}{s}"))
    }));
    v.push(space("wide-characters", 0, "a 2-, 3- or 4-byte character (or two) in place of as many digits at every position: the byte length stays 10..=14 or 64..=70", |ch| {
        let n = [10usize, 11, 12, 13, 14, 64, 65, 66, 67, 68, 69, 70][ch.free(12)];
        let two = ch.flag();
        let c = ['é', '€', '😀', '\u{ff11}', '\u{660}'][ch.free(5)];
        let w = c.len_utf8();
        let i = ch.free(n - w + 1);
        let mut s = "a".repeat(i) + &c.to_string() + &"b".repeat(n - w - i);
        if two {
            let d = ['é', '€', '😀'][ch.free(3)];
            let rest = n - w - i;
            if rest >= d.len_utf8() {
                let j = ch.free(rest - d.len_utf8() + 1);
                s = "a".repeat(i) + &c.to_string() + &"b".repeat(j) + &d.to_string() + &"c".repeat(rest - d.len_utf8() - j);
            }
        }
        if ch.flag() {
            s.insert_str(0, "0x");
        }
        parse_both(ch, &s)
    }));
    v
}
