mod cli;
mod conn;
mod directed;
mod engine;
mod ffi;
mod menu;
mod san;
mod server;
mod session;
mod stack;
mod start;
mod table;
mod tui;
mod wire;

use crate::check::Check;

pub fn all() -> Vec<&'static dyn Check> {
    vec![
        &table::C01,
        &table::C02,
        &table::C03,
        &table::C17,
        &stack::C28,
        &engine::C04,
        &engine::C05,
        &engine::C06,
        &engine::C07,
        &engine::C08,
        &engine::C09,
        &engine::C10,
        &engine::C11,
        &menu::C12,
        &engine::C13,
        &engine::C14,
        &engine::C15,
        &engine::C16,
        &server::C18,
        &server::C19,
        &session::C20,
        &session::C21,
        &wire::C22,
        &conn::C23,
        &ffi::C24,
        &tui::C25,
        &cli::C26,
        &engine::C27,
        &engine::C29,
        &san::C30,
        &start::C31,
    ]
}

pub fn find(id: &str) -> Option<&'static dyn Check> {
    all().into_iter().find(|c| c.id() == id)
}

pub fn helper(args: &[String]) -> i32 {
    match args.first().map(String::as_str) {
        Some("host") if args.len() == 2 => start::host(&args[1]),
        _ => 2,
    }
}
