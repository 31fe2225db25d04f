//! replay ENTRY MODELHEX P0,P1,... : runs one concrete model against the real code.
use vh::rt::{MODEL, PARAMS};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let m: Vec<u8> = (0..a[2].len() / 2).map(|i| u8::from_str_radix(&a[2][2 * i..2 * i + 2], 16).unwrap()).collect();
    MODEL.with(|x| x.borrow_mut().0 = m);
    PARAMS.with(|x| *x.borrow_mut() = a[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect());
    let f = vh::ENTRIES.iter().find(|e| e.0 == a[1]).expect("unknown entry").1;
    f();
    vh::rt::clean();
    println!("END");
}
