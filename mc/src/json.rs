//! C19, second part: documents that are not quite a value's JSON, and parameter sets with missing fields.
use crate::consensus::{arr, distinct, from_arr, DEF, NAMES};
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::shared::{computed, serde_rt};
use crate::{ensure, ensure_eq};
use fuel_tx::{CheckError as E, ConsensusParameters as P, Contract, Transaction, TransactionFee};
use serde_json::Value;
use std::sync::Arc;

/// Does this text read as the value it says? Reading gives nothing, or exactly the transaction whose JSON it is.
fn honest(text: &str, orig: &Transaction, must_fail: bool) -> Result<bool, Fail> {
    match Transaction::from_json(text) {
        None => {
            let same = serde_json::from_str::<Value>(text).ok() == serde_json::to_value(orig).ok();
            ensure!(!same, "JSON of a transaction refused: {text}");
            Ok(false)
        }
        Some(t) => {
            ensure!(!must_fail, "text that is not a transaction's JSON read as {t:?}: {text}");
            ensure!(!computed(&t), "metadata came out of JSON");
            let v: Value = serde_json::from_str(text).map_err(|e| format!("{text} is not JSON ({e}) but gave a transaction"))?;
            let back = serde_json::to_value(&t).map_err(|e| e.to_string())?;
            ensure!(back == v, "text read as a different transaction: {text} gave {back}");
            Ok(true)
        }
    }
}
fn small(kind: Kind) -> MTx {
    let mut t = rich(kind);
    // one of each, so that every field of every kind is there; short so that all edits can be walked
    for w in &mut t.wit {
        w.truncate(3);
    }
    t.script.truncate(2);
    t.sdata.truncate(2);
    t.slots.truncate(1);
    t
}
/// Tokens of a JSON text (strings, numbers, words, punctuation).
fn tokens(s: &str) -> Vec<(usize, usize)> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        match b[i] {
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            c if c.is_ascii_alphanumeric() || c == b'-' => {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b"-+.".contains(&b[i])) {
                    i += 1;
                }
            }
            _ => i += 1,
        }
        v.push((st, i));
    }
    v
}
/// Paths to every node of a document.
fn paths(v: &Value, at: Vec<Value>, out: &mut Vec<Vec<Value>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let mut p = at.clone();
                p.push(Value::from(k.clone()));
                out.push(p.clone());
                paths(x, p, out);
            }
        }
        Value::Array(a) => {
            // long byte arrays: the ends and the middle
            for (i, x) in a.iter().enumerate() {
                if a.len() > 8 && x.is_number() && ![0, a.len() / 2, a.len() - 1].contains(&i) {
                    continue;
                }
                let mut p = at.clone();
                p.push(Value::from(i));
                out.push(p.clone());
                paths(x, p, out);
            }
        }
        _ => {}
    }
}
fn node<'a>(v: &'a mut Value, p: &[Value]) -> &'a mut Value {
    let mut v = v;
    for k in p {
        v = match k {
            Value::String(s) => v.get_mut(s).unwrap(),
            k => v.get_mut(k.as_u64().unwrap() as usize).unwrap(),
        };
    }
    v
}
/// The range of a numeric field, by its name.
fn range(name: &str) -> Option<u64> {
    Some(match name {
        "gas_price" | "gas_limit" | "maturity" | "amount" | "nonce" | "bytecode_length" => u64::MAX,
        "bytecode_witness_index" | "witness_index" | "output_index" | "input_index" => 255,
        "block_height" => u32::MAX as u64,
        "tx_index" => 65535,
        _ => return None,
    })
}
fn edits(name: &str, what: &str, body: impl Fn(&mut Ch, &str, &Transaction) -> R + Send + Sync + 'static) -> Space {
    let docs: Arc<Vec<(String, Transaction)>> = Arc::new(
        KINDS
            .iter()
            .map(|k| {
                let t = r_tx(&small(*k));
                (t.to_json(), t)
            })
            .collect(),
    );
    space(name, 0, what, move |ch| {
        let (j, t) = &docs[ch.free(docs.len())];
        body(ch, j, t)
    })
}
fn done(ch: &mut Ch, text: &str, some: bool) -> R {
    ch.state(text);
    ch.step(1);
    ch.traced();
    ch.outcome(if some { "a transaction" } else { "nothing" });
    ch.sample(|| text.to_string());
    Ok(())
}
pub fn json_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(edits("token-deletions", "JSON of a rich transaction of each kind: every single token deleted, and every pair of neighbouring tokens", |ch, j, t| {
        let tk = tokens(j);
        let i = ch.free(tk.len());
        let n = (1 + ch.free(if i + 1 < tk.len() { 2 } else { 1 })).min(tk.len() - i);
        let text = format!("{}{}", &j[..tk[i].0], &j[tk[i + n - 1].1..]);
        let some = honest(&text, t, false)?;
        done(ch, &text, some)
    }));
    v.push(edits("truncations", "every proper prefix of a document, and every document followed by one more character", |ch, j, t| {
        if ch.flag() {
            let n = ch.free(j.len());
            let text = &j[..n];
            honest(text, t, true)?;
            done(ch, text, false)
        } else {
            let c = char::from_u32(ch.free(256) as u32).unwrap();
            let ws = matches!(c, ' ' | '\t' | '\n' | '\r');
            let front = ch.flag();
            let text = if front { format!("{c}{j}") } else { format!("{j}{c}") };
            let some = honest(&text, t, !ws)?;
            ensure!(some == ws, "{c:?} around a document: read {some}");
            done(ch, &text, some)
        }
    }));
    v.push(edits("token-swaps", "every two neighbouring tokens swapped or a token doubled", |ch, j, t| {
        let tk = tokens(j);
        let i = ch.free(tk.len());
        let a = &j[tk[i].0..tk[i].1];
        let text = if ch.flag() && i + 1 < tk.len() {
            format!("{}{}{a}{}", &j[..tk[i].0], &j[tk[i + 1].0..tk[i + 1].1], &j[tk[i + 1].1..])
        } else {
            format!("{}{a}{}", &j[..tk[i].1], &j[tk[i].1..])
        };
        let some = honest(&text, t, false)?;
        done(ch, &text, some)
    }));
    v.push(edits("fields", "every node of the document: removed, doubled or replaced by another kind of value", |ch, j, t| {
        let mut v: Value = serde_json::from_str(j).map_err(|e| e.to_string())?;
        let mut ps = vec![];
        paths(&v, vec![], &mut ps);
        let p = &ps[ch.free(ps.len())];
        let (last, up) = p.split_last().unwrap();
        let op = ch.free(9);
        let mut must_fail = true;
        match op {
            0 => match (node(&mut v, up), last) {
                (Value::Object(m), Value::String(k)) => {
                    // every field is needed
                    m.remove(k);
                }
                (Value::Array(a), k) => {
                    a.remove(k.as_u64().unwrap() as usize);
                    must_fail = false;
                }
                _ => unreachable!(),
            },
            1 => *node(&mut v, p) = Value::Null,
            2 => *node(&mut v, p) = Value::Bool(true),
            3 => *node(&mut v, p) = Value::from(-1),
            4 => *node(&mut v, p) = Value::from(1.5),
            5 => {
                *node(&mut v, p) = Value::from("x");
            }
            6 => {
                *node(&mut v, p) = Value::Array(vec![]);
                must_fail = false;
            }
            7 => {
                *node(&mut v, p) = Value::Object(Default::default());
            }
            _ => match node(&mut v, up) {
                Value::Object(m) => {
                    // the name of the field changed
                    let k = last.as_str().unwrap();
                    let x = m.remove(k).unwrap();
                    m.insert(format!("{k}_"), x);
                }
                Value::Array(a) => {
                    let i = last.as_u64().unwrap() as usize;
                    let x = a[i].clone();
                    a.insert(i, x);
                    must_fail = false;
                }
                _ => unreachable!(),
            },
        }
        let text = v.to_string();
        let some = honest(&text, t, must_fail)?;
        done(ch, &text, some)
    }));
    v.push(edits("numbers", "every numeric field of every element set to each boundary number, in and out of its range", |ch, j, t| {
        let mut v: Value = serde_json::from_str(j).map_err(|e| e.to_string())?;
        let mut ps = vec![];
        paths(&v, vec![], &mut ps);
        ps.retain(|p| p.last().and_then(|l| l.as_str()).map_or(false, |n| range(n).is_some()));
        if ps.is_empty() {
            return Ok(());
        }
        let p = &ps[ch.free(ps.len())];
        let max = range(p.last().unwrap().as_str().unwrap()).unwrap();
        if !node(&mut v, p).is_number() {
            return Ok(());
        }
        let nums = ["0", "1", "255", "256", "65535", "65536", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e3", "1.0", "-0", "00", "0x1", "\"1\""];
        let i = ch.free(nums.len());
        let n = nums[i];
        *node(&mut v, p) = Value::from(123454321234u64);
        let text = v.to_string().replace("123454321234", n);
        let num: Option<u64> = if i < 13 { n.parse().ok() } else { None };
        let fits = num.map_or(false, |x| x <= max);
        let some = honest(&text, t, !fits)?;
        ensure!(some == fits, "{p:?} = {n}: read {some}, expected {fits}");
        done(ch, &text, some)
    }));
    v.push(space("other-documents", 0, "documents that are something else: scalars, containers, other types' JSON, the wrong variant's body, and every string of <= 3 tokens", move |ch| {
        let none = |ch: &mut Ch, text: String| {
            ensure!(Transaction::from_json(&text).is_none(), "{text} read as a transaction");
            done(ch, &text, false)
        };
        match ch.free(4) {
            0 => {
                let mut s = String::new();
                let tk = ["", "null", "true", "0", "-1", "\"Script\"", "\"x\"", "[", "]", "{", "}", ":", ",", "\"Mint\"", "\"Create\"", "[]", "{}", "é"];
                for _ in 0..if th { 4 } else { 3 } {
                    s.push_str(tk[ch.free(tk.len())]);
                }
                none(ch, s)
            }
            1 => {
                // the body of one variant under the name of another
                let (a, b) = (ch.free(3), ch.free(3));
                let v = serde_json::to_value(r_tx(&small(KINDS[a]))).unwrap();
                let body = v.as_object().unwrap().values().next().unwrap().clone();
                let name = serde_json::to_value(r_tx(&small(KINDS[b]))).unwrap().as_object().unwrap().keys().next().unwrap().clone();
                let text = format!("{{\"{name}\":{body}}}");
                if a != b {
                    return none(ch, text);
                }
                let some = honest(&text, &r_tx(&small(KINDS[a])), false)?;
                ensure!(some, "own JSON refused");
                none(ch, body.to_string())
            }
            2 => {
                let k = ch.free(IN_KINDS + OUT_KINDS + 5);
                let t = r_tx(&small(KINDS[ch.free(3)]));
                let v = if k < IN_KINDS {
                    serde_json::to_value(r_in(&def_in(k, 1, [2, 3, 1])))
                } else if k < IN_KINDS + OUT_KINDS {
                    serde_json::to_value(r_out(&def_out(k - IN_KINDS, 1)))
                } else {
                    match k - IN_KINDS - OUT_KINDS {
                        0 => serde_json::to_value(P::DEFAULT),
                        1 => serde_json::to_value(vec![t.clone()]),
                        2 => serde_json::to_value(t.to_json()),
                        3 => serde_json::to_value((t.clone(), t.clone())),
                        _ => serde_json::to_value(std::collections::BTreeMap::from([("a", t.clone())])),
                    }
                }
                .unwrap();
                none(ch, v.to_string())
            }
            _ => {
                // two variants in one document
                let (a, b) = (r_tx(&small(KINDS[ch.free(3)])).to_json(), r_tx(&small(KINDS[ch.free(3)])).to_json());
                let how = ch.free(3);
                none(ch, match how {
                    0 => format!("{},{}", &a[..a.len() - 1], &b[1..]),
                    1 => format!("{a}{b}"),
                    _ => format!("{a},{b}"),
                })
            }
        }
    }));
    let vals: [[u64; 13]; 3] = [distinct(), [u64::MAX; 13], [0; 13]];
    v.push(space("parameter-subsets", 0, "every subset of the 13 parameters present x 3 sets of values x 3 orders: the others are the defaults", move |ch| {
        let a = vals[ch.free(3)];
        let order = ch.free(3);
        let mut want = DEF;
        let mut f = vec![];
        for i in 0..13 {
            if ch.flag() {
                want[i] = a[i];
                f.push(format!("\"{}\":{}", NAMES[i], a[i]));
            }
        }
        match order {
            1 => f.reverse(),
            2 => {
                let n = f.len() / 2;
                f.rotate_left(n)
            }
            _ => {}
        }
        let text = format!("{{{}}}", f.join(","));
        let p: P = serde_json::from_str(&text).map_err(|e| format!("parameters {text} refused: {e}"))?;
        let got = arr(&p);
        for i in 0..13 {
            ensure_eq!(got[i], want[i], "{} read from {text}", NAMES[i]);
        }
        let p: P = serde_json::from_value(serde_json::from_str(&text).unwrap()).map_err(|e| e.to_string())?;
        ensure_eq!(arr(&p), want, "read through a value from {text}");
        ch.state(&text);
        ch.step(2);
        ch.traced();
        ch.outcome("parameters");
        Ok(())
    }));
    v.push(space("parameter-values", 3, "parameter sets with every combination of <= 3 values over the word alphabet: JSON and binary", |ch| {
        let mut a = distinct();
        for x in &mut a {
            *x = dev_word(ch, *x);
        }
        ch.state(&a);
        let p = from_arr(&a);
        let (x, y) = serde_rt(ch, "ConsensusParameters", &p)?;
        ensure_eq!(arr(&x), a, "parameters after JSON");
        ensure_eq!(arr(&y), a, "parameters after the binary form");
        ch.traced();
        ch.outcome("parameters");
        Ok(())
    }));
    v.push(space("other-types", 1, "contracts of every length 0..=300, fees and check errors of every variant over the word alphabet", |ch| {
        match ch.free(3) {
            0 => {
                let n = ch.free(301);
                let c = Contract::from(bytes(1, n));
                ch.state(&n);
                let (a, b) = serde_rt(ch, "Contract", &c)?;
                ensure!(a.as_ref() == &bytes(1, n)[..] && b.as_ref() == &bytes(1, n)[..], "contract code of {n} bytes");
            }
            1 => {
                let f: Vec<u64> = (0..4).map(|i| dev_word(ch, word(3, i))).collect();
                ch.state(&f);
                let fee = TransactionFee::new(f[0], f[1], f[2], f[3]);
                let (a, b) = serde_rt(ch, "TransactionFee", &fee)?;
                for x in [a, b] {
                    ensure!(TransactionFee::min(&x) == f[0] && x.total() == f[1] && x.min_gas() == f[2] && x.max_gas() == f[3], "fee {x:?}, expected {f:?}");
                }
            }
            _ => {
                let k = ch.free(38);
                let (i, x, y) = (dev_word(ch, 7) as usize, dev_word(ch, 8), dev_word(ch, 9));
                let a = dev_b32(ch, pat(5, 5), Z);
                let e = match k {
                    0 => E::InputWitnessIndexBounds { index: i },
                    1 => E::InputPredicateEmpty { index: i },
                    2 => E::InputPredicateLength { index: i },
                    3 => E::InputPredicateDataLength { index: i },
                    4 => E::InputPredicateOwner { index: i },
                    5 => E::InputInvalidSignature { index: i },
                    6 => E::InputContractAssociatedOutputContract { index: i },
                    7 => E::InputMessageDataLength { index: i },
                    8 => E::DuplicateInputUtxoId { utxo_id: r_utxo(&(a, x as u8)) },
                    9 => E::DuplicateMessageInputId { message_id: a.into() },
                    10 => E::DuplicateInputContractId { contract_id: a.into() },
                    11 => E::OutputContractInputIndex { index: i },
                    12 => E::TransactionCreateInputContract { index: i },
                    13 => E::TransactionCreateOutputContract { index: i },
                    14 => E::TransactionCreateOutputVariable { index: i },
                    15 => E::TransactionCreateOutputChangeNotBaseAsset { index: i },
                    16 => E::TransactionCreateOutputContractCreatedMultiple { index: i },
                    17 => E::TransactionCreateBytecodeLen,
                    18 => E::TransactionCreateBytecodeWitnessIndex,
                    19 => E::TransactionCreateStorageSlotMax,
                    20 => E::TransactionCreateStorageSlotOrder,
                    21 => E::TransactionScriptLength,
                    22 => E::TransactionScriptDataLength,
                    23 => E::TransactionScriptOutputContractCreated { index: i },
                    24 => E::TransactionMintOutputIsNotCoin,
                    25 => E::TransactionMintIncorrectBlockHeight,
                    26 => E::TransactionGasLimit,
                    27 => E::TransactionMaturity,
                    28 => E::TransactionInputsMax,
                    29 => E::TransactionOutputsMax,
                    30 => E::TransactionWitnessesMax,
                    31 => E::TransactionOutputCoinAssetIdDuplicated(a.into()),
                    32 => E::TransactionOutputChangeAssetIdDuplicated(a.into()),
                    33 => E::TransactionOutputChangeAssetIdNotFound(a.into()),
                    34 => E::TransactionOutputCoinAssetIdNotFound(a.into()),
                    35 => E::InsufficientFeeAmount { expected: x, provided: y },
                    36 => E::InsufficientInputAmount { asset: a.into(), expected: x, provided: y },
                    _ => E::ArithmeticOverflow,
                };
                ch.state(&format!("{e:?}"));
                serde_rt(ch, "CheckError", &e)?;
            }
        }
        ch.traced();
        ch.outcome("other types");
        Ok(())
    }));
    v
}
