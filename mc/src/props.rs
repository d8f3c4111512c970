use crate::corpus::*;
use crate::explore::*;
use crate::model::*;
use crate::wire::*;

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec!["the reference model (mc/src/model.rs and the property's module) states the protocol correctly".to_string(), "bounds as listed per space; values outside the alphabets are not explored".to_string()];
    if prop == "C03" {
        v.push("allocation budget: 1 MiB + 512 bytes per input byte per decode".into());
    }
    v
}

pub fn spaces(prop: &str, th: bool) -> Option<Vec<Space>> {
    let d = if th { 3 } else { 2 };
    Some(match prop {
        "C01" => {
            let mut v = tx_spaces(th, d, c01_tx);
            v.extend(elem_spaces(th, 3, c01_elem));
            v
        }
        "C02" => {
            let mut v = tx_spaces(th, d, c02_tx);
            v.extend(elem_spaces(th, 3, c02_elem));
            for kind in KINDS {
                v.push(space(&format!("short-buffers-{kind:?}"), 0, "every sequence of <= 2 inputs x <= 2 outputs x <= 1 witness, every buffer length below the size", move |ch| {
                    let t = shapes(ch, kind, 2, 2, 1);
                    ch.state(&t);
                    c02_tx_with(ch, &t, true)
                }));
            }
            v
        }
        "C03" => crate::decode::spaces(th),
        "C04" => crate::receipts::c04_spaces(th),
        "C05" => {
            let mut v = tx_spaces(th, d, c05_tx);
            for kind in KINDS {
                let base = rich(kind);
                let id = model_id(&base);
                v.push(space(&format!("commitment-{kind:?}"), 2, "id of a rich transaction against the id after every combination of <= 2 field changes", move |ch| {
                    let t = dev_tx(ch, &base);
                    ch.state(&t);
                    c05_pair(ch, &base, &id, &t)
                }));
            }
            v
        }
        "C06" => crate::life::c06_spaces(th),
        "C07" => tx_spaces(th, d, c07_tx),
        "C08" => crate::valid::c08_spaces(th),
        "C09" => crate::valid::c09_spaces(th),
        "C10" => crate::valid::c10_spaces(th),
        "C11" => crate::auth::c11_spaces(th),
        "C12" => crate::auth::c12_spaces(th),
        "C13" => crate::fee::fee_spaces(th),
        "C14" => crate::money::spaces(th),
        "C15" => crate::wrapper::c15_spaces(th),
        "C17" => crate::life::c17_spaces(th),
        "C18" => crate::building::c18_spaces(th),
        "C16" => crate::commit::c16_spaces(th),
        "C20" => crate::text::c20_spaces(th),
        "C21" => crate::consensus::c21_spaces(th),
        "C22" => crate::access::c22_spaces(th),
        // and the same spaces in ../mc-nostd, on the reduced build
        "C23" => crate::reduced::c23_spaces(th),
        "C25" => crate::values::c25_spaces(th),
        "C24" => crate::commit::c24_spaces(th),
        "C19" => {
            let mut v = tx_spaces(th, d - 1, c19_tx);
            v.extend(elem_spaces(th, 2, c19_elem));
            v.extend(crate::receipts::rc_spaces(th, 2, crate::receipts::c19_rc));
            v.extend(crate::json::json_spaces(th));
            v
        }
        _ => return None,
    })
}
