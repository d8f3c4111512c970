use crate::explore::*;

pub fn assumptions(_: &str) -> Vec<String> {
    vec![
        "rand turns the source's words into numbers as documented; fuel-crypto makes valid keys from them".into(),
        "bounds as listed per space; sources outside them are not explored".into(),
    ]
}
pub fn spaces(prop: &str, th: bool) -> Option<Vec<Space>> {
    (prop == "C26").then(|| crate::factory::c26_spaces(th))
}
