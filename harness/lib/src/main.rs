#![no_main]
#[path = "../../sym.rs"]
#[macro_use]
mod sym;
#[path = "../../refm.rs"]
mod refm;
mod codec;
mod matcher;
mod boolean;
mod repr;
mod access;
mod parse;
#[unsafe(no_mangle)]
extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
    let mut t: Vec<sym::Entry> = vec![];
    for m in [codec::TABLE, matcher::TABLE, boolean::TABLE, repr::TABLE, access::TABLE, parse::TABLE] {
        for e in m { t.push(sym::Entry(e.0, e.1)); }
    }
    sym::start(argc, argv, t.leak())
}
