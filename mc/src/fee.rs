//! C13 fees and refunds against exact integer arithmetic (also run on the reduced build, see C23).
use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use fuel_tx::{Chargeable, ConsensusParameters as P, Transaction, TransactionFee};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct MFee {
    pub bytes: u64,
    pub total: u64,
    pub min_gas: u64,
    pub max_gas: u64,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fee {
    /// everything fits in 64 bits
    Exact(MFee),
    /// an intermediate exceeds 64 bits: refusing is right, and so would be the exact result if it fits
    Refuse(Option<MFee>),
}
/// 256-bit product/division is avoided: an intermediate above 128 bits is never representable anyway.
pub fn model_fee(gpb: u64, metered: u64, limit: u64, price: u64, factor: u64) -> Fee {
    let bg = gpb as u128 * metered as u128;
    let mg = bg + limit as u128;
    let m = u64::MAX as u128;
    let ceil = |g: u128| g.checked_mul(price as u128).map(|x| x / factor as u128 + (x % factor as u128 != 0) as u128);
    let (b, t) = (ceil(bg), ceil(mg));
    let exact = match (b, t) {
        (Some(b), Some(t)) if bg <= m && mg <= m && b <= m && t <= m => Some(MFee { bytes: b as u64, total: t as u64, min_gas: bg as u64, max_gas: mg as u64 }),
        _ => None,
    };
    let fits = mg <= m && mg.checked_mul(price as u128).map_or(false, |x| x <= m);
    if fits {
        Fee::Exact(exact.expect("fits"))
    } else {
        Fee::Refuse(exact)
    }
}
pub fn judge_fee(what: &str, got: Option<TransactionFee>, want: Fee) -> R {
    let g = got.map(|f| MFee { bytes: TransactionFee::min(&f), total: f.total(), min_gas: f.min_gas(), max_gas: f.max_gas() });
    match (g, want) {
        (Some(a), Fee::Exact(b)) | (Some(a), Fee::Refuse(Some(b))) => ensure!(a == b, "{what}: got {a:?}, exact {b:?}"),
        (None, Fee::Exact(b)) => return Err(format!("{what}: refused although every intermediate fits 64 bits, exact {b:?}").into()),
        (Some(a), Fee::Refuse(None)) => return Err(format!("{what}: got {a:?} although the exact result does not fit 64 bits").into()),
        (None, Fee::Refuse(_)) => {}
    }
    Ok(())
}
const M: u64 = u64::MAX;
fn vals(th: bool) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 4, 7, 10, 255, 1_000_000_000, 999_999_999, 1_000_000_001, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 63) - 1, M - 1, M];
    if th {
        v.extend([5, 6, 8, 9, 11, 13, 16, 100, 1000, 65535, 65536, 100_000_000, 1 << 31, 1 << 40, (1 << 63) + 1, M / 2, M / 3, M / 3 + 1, M / 5, M - 2, M - 7]);
    }
    v
}
fn near(x: u64) -> [u64; 3] {
    [x.wrapping_sub(1), x, x.wrapping_add(1)]
}
pub fn fee_spaces(th: bool) -> Vec<Space> {
    let v = vals(th);
    let n = v.len();
    let mut out = vec![];
    {
        let v = v.clone();
        out.push(space("fee-values", 0, &format!("gas per byte x metered bytes x gas limit x price x factor, each over {n} boundary values plus the exact overflow frontiers given the earlier ones"), move |ch| {
            let gpb = ch.of(&v);
            let mut a = v.clone();
            if gpb > 1 {
                a.extend(near(M / gpb));
            }
            let metered = ch.of(&a);
            let bg = gpb as u128 * metered as u128;
            let mut a = v.clone();
            if bg <= M as u128 && bg > 3 {
                a.extend(near(M - bg as u64));
            }
            let limit = ch.of(&a);
            let mg = bg + limit as u128;
            let mut a = v.clone();
            if mg <= M as u128 && mg > 1 {
                a.extend(near(M / mg as u64));
                if bg > 1 {
                    a.extend(near(M / bg as u64));
                }
            }
            let price = ch.of(&a);
            let mut a: Vec<u64> = v.iter().copied().filter(|x| *x > 0).collect();
            if let Some(p) = mg.checked_mul(price as u128).filter(|p| *p <= M as u128 && *p > 4) {
                a.extend(near(p as u64));
                a.extend(near(p as u64 / 2).iter().filter(|x| **x > 0));
            }
            let factor = ch.of(&a);
            if factor == 0 {
                return Ok(());
            }
            let p = P { gas_per_byte: gpb, gas_price_factor: factor, ..P::DEFAULT };
            let want = model_fee(gpb, metered, limit, price, factor);
            let got = TransactionFee::checked_from_values(&p, metered, limit, price);
            ch.state(&(gpb, metered, limit, price, factor));
            ch.step(1);
            ch.traced();
            judge_fee("fee", got, want).map_err(|f| Fail { msg: format!("{} (gas per byte {gpb}, bytes {metered}, limit {limit}, price {price}, factor {factor})", f.msg), ..f })?;
            if let Some(f) = got {
                ensure!(TransactionFee::min(&f) <= f.total(), "minimum fee above the total: {f:?}");
                ensure_eq!(f.into_inner(), (TransactionFee::min(&f), f.total()), "into_inner");
                ensure_eq!(u64::from(f), f.total(), "conversion into a number");
                ensure_eq!(TransactionFee::new(TransactionFee::min(&f), f.total(), f.min_gas(), f.max_gas()), f, "new");
                let r = TransactionFee::gas_refund_value(&p, limit, price);
                match r {
                    Some(r) => ensure!(TransactionFee::min(&f).checked_add(r).map_or(false, |x| x <= f.total()), "refunding the whole gas limit gives {r}, more than was charged for it: {f:?} (factor {factor}, price {price}, limit {limit})"),
                    None => return Err(format!("no refund value for the gas limit of an acceptable fee {f:?}").into()),
                }
                for b in [0, f.total().wrapping_sub(1), f.total(), f.total().wrapping_add(1), M] {
                    let want = if b >= f.total() { Some(b - f.total()) } else { None };
                    ensure_eq!(f.checked_deduct_total(b), want, "deducting {f:?} from {b}");
                }
                ch.step(10);
            }
            ch.outcome(match want {
                Fee::Exact(f) if f.total as u128 * factor as u128 != f.max_gas as u128 * price as u128 => "exact, rounded up",
                Fee::Exact(_) => "exact, no remainder",
                Fee::Refuse(_) => "refused",
            });
            ch.sample(|| format!("gas per byte {gpb}, bytes {metered}, limit {limit}, price {price}, factor {factor} -> {got:?}"));
            Ok(())
        }));
    }
    let v2 = vals(true);
    let k = if th { 96 } else { 40 };
    out.push(space("refund-values", 0, &format!("gas x price x factor over {} boundary values and the frontiers of a 64-bit result; all triples up to {k}", v2.len()), move |ch| {
        let (gas, price, factor) = if ch.flag() {
            let gas = ch.of(&v2);
            let price = ch.of(&v2);
            let mut a: Vec<u64> = v2.iter().copied().filter(|x| *x > 0).collect();
            let x = gas as u128 * price as u128;
            // frontier of a result that just fits
            let f = x / (1u128 << 64);
            for d in 0..4u128 {
                let c = (f + d).saturating_sub(1);
                if c > 0 && c <= M as u128 {
                    a.push(c as u64);
                }
            }
            a.extend([gas.max(1), price.max(1), gas.saturating_add(1), price.saturating_add(1)]);
            (gas, price, ch.of(&a))
        } else {
            (ch.free(k + 1) as u64, ch.free(k + 1) as u64, ch.free(k) as u64 + 1)
        };
        let x = gas as u128 * price as u128 / factor as u128;
        let want = u64::try_from(x).ok();
        let p = P { gas_price_factor: factor, ..P::DEFAULT };
        let got = TransactionFee::gas_refund_value(&p, gas, price);
        ch.state(&(gas, price, factor));
        ch.step(1);
        ch.traced();
        ensure!(got == want, "refund of {gas} gas at price {price}, factor {factor}: got {got:?}, exact {x}");
        ch.outcome(if want.is_some() { "fits" } else { "refused" });
        ch.sample(|| format!("gas {gas}, price {price}, factor {factor} -> {got:?}"));
        Ok(())
    }));
    let k = if th { 12 } else { 7 };
    out.push(space("fee-small", 0, &format!("all quintuples of small numbers up to {k} (factor from 1)"), move |ch| {
        let (gpb, metered, limit, price, factor) = (ch.free(k + 1) as u64, ch.free(k + 1) as u64, ch.free(k + 1) as u64, ch.free(k + 1) as u64, ch.free(k) as u64 + 1);
        let p = P { gas_per_byte: gpb, gas_price_factor: factor, ..P::DEFAULT };
        ch.state(&(gpb, metered, limit, price, factor));
        ch.step(1);
        ch.traced();
        judge_fee("fee", TransactionFee::checked_from_values(&p, metered, limit, price), model_fee(gpb, metered, limit, price, factor)).map_err(|f| Fail { msg: format!("{} (gas per byte {gpb}, bytes {metered}, limit {limit}, price {price}, factor {factor})", f.msg), ..f })
    }));
    out.extend(tx_spaces(th, 2, c13_tx).into_iter().filter(|s| !s.name.ends_with("Mint")));
    out
}
fn fee_of<T: Chargeable>(ch: &mut Ch, t: &MTx, x: &T, metered: u64) -> R {
    ensure_eq!(x.metered_bytes_size() as u64, metered, "metered bytes of {t:?}");
    ensure_eq!(x.price(), t.price, "price of {t:?}");
    ensure_eq!(x.limit(), t.limit, "limit of {t:?}");
    for (gpb, factor) in [(4, 1_000_000_000), (1, 1), (0, 3), (u64::MAX / 300, 7), (1 << 40, u64::MAX)] {
        let p = P { gas_per_byte: gpb, gas_price_factor: factor, ..P::DEFAULT };
        judge_fee("fee of a transaction", TransactionFee::checked_from_tx(&p, x), model_fee(gpb, metered, t.limit, t.price, factor)).map_err(|f| Fail { msg: format!("{} (gas per byte {gpb}, factor {factor}, bytes {metered}) {t:?}", f.msg), ..f })?;
        ch.step(1);
    }
    ch.traced();
    Ok(())
}
pub fn c13_tx(ch: &mut Ch, t: &MTx) -> R {
    if t.kind == Kind::Mint {
        return Ok(());
    }
    // the fee does not depend on the witnesses
    let mut bare = t.clone();
    bare.wit.clear();
    let metered = enc_tx(&bare).len() as u64;
    match r_tx(t) {
        Transaction::Script(s) => fee_of(ch, t, &s, metered),
        Transaction::Create(s) => fee_of(ch, t, &s, metered),
        Transaction::Mint(_) => unreachable!(),
    }
}
