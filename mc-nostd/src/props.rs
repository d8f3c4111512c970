use crate::explore::*;

pub fn assumptions(_: &str) -> Vec<String> {
    vec![
        "full build: std, builder, serde, random, internals; reduced build: default-features = false, alloc, serde, internals".into(),
        "the builder feature does not compile without std at this commit, so there is nothing to compare".into(),
        "both builds are compared with one reference model, case by case over the same spaces".into(),
        "bounds as listed per space; values outside the alphabets are not explored".into(),
    ]
}
pub fn spaces(prop: &str, th: bool) -> Option<Vec<Space>> {
    (prop == "C23").then(|| crate::reduced::c23_spaces(th))
}
