use crate::{entry, Entry};

pub mod c23;
pub mod codegen;
pub mod declared;
pub mod illformed;
pub mod lalr;
pub mod lexing;
pub mod meta;
pub mod reading;
pub mod regexes;
pub mod types;

pub fn all() -> Vec<Entry> {
    vec![
        entry::<reading::C01>(),
        entry::<reading::C02>(),
        entry::<reading::C03>(),
        entry::<regexes::C04>(),
        entry::<regexes::C05>(),
        entry::<regexes::C06>(),
        entry::<lexing::C07>(),
        entry::<lexing::C08>(),
        entry::<lexing::C09>(),
        entry::<lalr::C10>(),
        entry::<lalr::C11>(),
        entry::<lalr::C12>(),
        entry::<lalr::C13>(),
        entry::<lalr::C14>(),
        entry::<lalr::C15>(),
        entry::<lalr::C16>(),
        entry::<codegen::C17>(),
        entry::<codegen::C18>(),
        entry::<types::C19>(),
        entry::<types::C20>(),
        entry::<types::C21>(),
        entry::<types::C22>(),
        entry::<c23::C23>(),
        entry::<types::C24>(),
        entry::<types::C25>(),
        entry::<meta::C26>(),
        entry::<declared::C27>(),
        entry::<illformed::C28>(),
    ]
}
