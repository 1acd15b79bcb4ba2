pub mod grammar;
pub mod layout;
pub mod regex;
pub mod typed;
