pub mod clih;
pub mod fmth;
pub mod gen;
pub mod kinds;
pub mod lexh;
pub mod parseh;
pub mod recog;
pub mod rt;
pub mod table;
pub mod texth;

/// Names of the harness entry points, for the replayer
pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_lex", lexh::h_lex), ("h_fmt", fmth::h_fmt), ("h_layout", fmth::h_layout), ("h_parse", parseh::h_parse),
    ("h_seq", parseh::h_seq), ("h_text", texth::h_text), ("h_space", texth::h_space), ("h_cli", clih::h_cli), ("h_cli_again", clih::h_cli_again), ("h_cli_options", clih::h_cli_options)];

pub fn call(f: fn(u64), a: u64) {
    f(a)
}
