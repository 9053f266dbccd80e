use crate::run::Runner;
pub struct Prop { pub id: &'static str, pub rule: &'static str, pub assumptions: &'static [&'static str], pub run: fn(&Runner) }

mod assemble;
mod bus;
mod code;
mod determ;
mod ffi;
mod helpers;
mod hist;
mod host;
mod single;
mod tools;

pub const PROPS: &[Prop] = &[
    single::C01, code::C02, single::C03, single::C04, single::C05, single::C06, single::C07, single::C08, single::C09, single::C10, single::C11, hist::C12, hist::C13, hist::C14, hist::C15, single::C16, hist::C17,
    hist::C18, hist::C19, assemble::C20, assemble::C21, code::C22, helpers::C23, helpers::C24, ffi::C25, hist::C26, determ::C27, tools::C28, tools::C29, bus::C30, host::C31,
];
