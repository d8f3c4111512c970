//! C21 consensus parameters.
use crate::explore::*;
use crate::{ensure, ensure_eq};
use fuel_tx::ConsensusParameters as P;

pub const NAMES: [&str; 13] = [
    "contract_max_size",
    "max_inputs",
    "max_outputs",
    "max_witnesses",
    "max_gas_per_tx",
    "max_script_length",
    "max_script_data_length",
    "max_storage_slots",
    "max_predicate_length",
    "max_predicate_data_length",
    "gas_price_factor",
    "gas_per_byte",
    "max_message_data_length",
];
/// The documented protocol constants.
pub const DEF: [u64; 13] = [16_777_216, 255, 255, 255, 100_000_000, 1_048_576, 1_048_576, 255, 1_048_576, 1_048_576, 1_000_000_000, 4, 1_048_576];
pub fn arr(p: &P) -> [u64; 13] {
    [
        p.contract_max_size,
        p.max_inputs,
        p.max_outputs,
        p.max_witnesses,
        p.max_gas_per_tx,
        p.max_script_length,
        p.max_script_data_length,
        p.max_storage_slots,
        p.max_predicate_length,
        p.max_predicate_data_length,
        p.gas_price_factor,
        p.gas_per_byte,
        p.max_message_data_length,
    ]
}
pub fn from_arr(a: &[u64; 13]) -> P {
    P {
        contract_max_size: a[0],
        max_inputs: a[1],
        max_outputs: a[2],
        max_witnesses: a[3],
        max_gas_per_tx: a[4],
        max_script_length: a[5],
        max_script_data_length: a[6],
        max_storage_slots: a[7],
        max_predicate_length: a[8],
        max_predicate_data_length: a[9],
        gas_price_factor: a[10],
        gas_per_byte: a[11],
        max_message_data_length: a[12],
    }
}
pub fn set(p: P, k: usize, v: u64) -> P {
    match k {
        0 => p.with_contract_max_size(v),
        1 => p.with_max_inputs(v),
        2 => p.with_max_outputs(v),
        3 => p.with_max_witnesses(v),
        4 => p.with_max_gas_per_tx(v),
        5 => p.with_max_script_length(v),
        6 => p.with_max_script_data_length(v),
        7 => p.with_max_storage_slots(v),
        8 => p.with_max_predicate_length(v),
        9 => p.with_max_predicate_data_length(v),
        10 => p.with_gas_price_factor(v),
        11 => p.with_gas_per_byte(v),
        _ => p.with_max_message_data_length(v),
    }
}
/// Distinct everywhere, different from the defaults.
pub fn distinct() -> [u64; 13] {
    let mut a = [0; 13];
    for (i, x) in a.iter_mut().enumerate() {
        *x = 0x0101 * (i as u64 + 1) + (i as u64) * 0x1_0000_0007;
    }
    a[1] = 9;
    a
}
pub fn compare(p: &P, want: &[u64; 13]) -> R {
    let got = arr(p);
    for i in 0..13 {
        ensure_eq!(got[i], want[i], "parameter {}", NAMES[i]);
    }
    ensure!(*p == from_arr(want), "parameters compare unequal to the same values");
    if let Some(n) = want[1].checked_mul(40).and_then(|n| n.checked_add(40)) {
        ensure_eq!(p.tx_offset() as u64, n, "tx_offset for {} inputs", want[1]);
    }
    Ok(())
}
const VALS: [u64; 8] = [0, 1, 255, 0x0123_4567_89ab_cdef, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 63];
fn start(ch: &mut Ch) -> (P, [u64; 13]) {
    match ch.free(3) {
        0 => (P::DEFAULT, DEF),
        1 => (P::default(), DEF),
        _ => (from_arr(&distinct()), distinct()),
    }
}
pub fn c21_spaces(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let seq = |name: &str, d: usize, vals: &'static [u64]| {
        space(name, 0, &format!("every sequence of <= {d} of the 13 setters x values {vals:?} from the defaults and from distinct values"), move |ch| {
            let (mut p, mut a) = start(ch);
            for _ in 0..d {
                let c = ch.free(14);
                if c == 0 {
                    break;
                }
                let v = ch.of(vals);
                p = set(p, c - 1, v);
                a[c - 1] = v;
                ch.step(1);
            }
            ch.state(&a);
            ch.traced();
            ch.outcome("set");
            ch.sample(|| format!("{a:?}"));
            compare(&p, &a)
        })
    };
    v.push(seq("setter-sequences-2", 2, &VALS));
    if th {
        v.push(seq("setter-sequences-3", 3, &VALS));
        v.push(seq("setter-sequences-5", 5, &[7, u64::MAX]));
    } else {
        v.push(seq("setter-sequences-3", 3, &VALS[2..6]));
    }
    v.push(space("all-set", 0, "all 13 setters in rotated and reversed order, from every start, twice over", |ch| {
        let (mut p, _) = start(ch);
        let (r, back, twice) = (ch.free(13), ch.flag(), ch.flag());
        let mut a = distinct();
        for round in 0..1 + twice as u64 {
            for i in 0..13 {
                let k = if back { (12 - i + r) % 13 } else { (i + r) % 13 };
                a[k] = distinct()[k] ^ (round * 0x55);
                p = set(p, k, a[k]);
                ch.step(1);
            }
        }
        ch.state(&(a, r, back, twice));
        ch.traced();
        ch.outcome("all set");
        compare(&p, &a)
    }));
    let hi = if th { 1_000_000 } else { 70_000 };
    v.push(space("tx-offset", 0, &format!("max_inputs 0..={hi} and 64-bit boundaries"), move |ch| {
        let i = ch.free(hi + 9);
        let n = if i <= hi { i as u64 } else { [u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 40, u64::MAX / 40 - 1, u64::MAX / 64, 1 << 57, (1 << 58) + 3][i - hi - 1] };
        let mut a = distinct();
        a[1] = n;
        ch.state(&n);
        ch.step(2);
        ch.traced();
        compare(&from_arr(&distinct()).with_max_inputs(n), &a)?;
        compare(&from_arr(&a), &a)
    }));
    v.push(space("defaults", 0, "DEFAULT, default() and the deprecated constants against the documented numbers", |ch| {
        compare(&P::DEFAULT, &DEF)?;
        compare(&P::default(), &DEF)?;
        #[allow(deprecated)]
        {
            use fuel_tx::default_parameters::*;
            let old = [
                CONTRACT_MAX_SIZE,
                MAX_INPUTS,
                MAX_OUTPUTS,
                MAX_WITNESSES,
                MAX_GAS_PER_TX,
                MAX_SCRIPT_LENGTH,
                MAX_SCRIPT_DATA_LENGTH,
                MAX_STORAGE_SLOTS,
                MAX_PREDICATE_LENGTH,
                MAX_PREDICATE_DATA_LENGTH,
                GAS_PRICE_FACTOR,
                GAS_PER_BYTE,
                MAX_MESSAGE_DATA_LENGTH,
            ];
            for i in 0..13 {
                ensure_eq!(old[i], DEF[i], "deprecated constant for {}", NAMES[i]);
            }
        }
        ch.state(&DEF);
        ch.step(3);
        ch.traced();
        ch.outcome("defaults");
        Ok(())
    }));
    v
}
