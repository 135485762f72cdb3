//! An installed logger, as an application has one: every message of the library is formatted in full.

use std::cell::{Cell, RefCell};
use std::fmt::Write;

struct Sink(u64);

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

struct Formatting;

/// A recorded log event of the library itself.
#[derive(Clone, Debug)]
pub struct Report {
    pub level: log::Level,
    pub text: String,
}

thread_local! {
    static OFF: Cell<bool> = const { Cell::new(false) };
    static MESSAGES: Cell<u64> = const { Cell::new(0) };
    static TAPE: RefCell<Option<Vec<Report>>> = const { RefCell::new(None) };
}

static LOGGER: Formatting = Formatting;

impl log::Log for Formatting {
    fn enabled(&self, _: &log::Metadata) -> bool {
        !OFF.with(|o| o.get())
    }

    fn log(&self, record: &log::Record) {
        if self.enabled(record.metadata()) {
            let mut s = Sink(0);
            let _ = write!(s, "{}", record.args());
            MESSAGES.with(|m| m.set(m.get() + 1));
            let own = record.target() == "svgdom" || record.target().starts_with("svgdom::");
            if own && TAPE.with(|t| t.borrow().is_some()) {
                let e = Report { level: record.level(), text: record.args().to_string() };
                TAPE.with(|t| if let Some(ref mut v) = *t.borrow_mut() { v.push(e) });
            }
        }
    }

    fn flush(&self) {}
}

pub fn install() {
    if log::set_logger(&LOGGER).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
}

/// Runs `f` without logging.
pub fn silent<T>(f: impl FnOnce() -> T) -> T {
    OFF.with(|o| o.set(true));
    let v = f();
    OFF.with(|o| o.set(false));
    v
}

/// Messages formatted on this thread so far.
pub fn messages() -> u64 {
    MESSAGES.with(|m| m.get())
}

/// Runs `f` and returns what the library logged meanwhile.
pub fn recorded<T>(f: impl FnOnce() -> T) -> (T, Vec<Report>) {
    TAPE.with(|t| *t.borrow_mut() = Some(Vec::new()));
    let v = f();
    (v, TAPE.with(|t| t.borrow_mut().take()).unwrap_or_default())
}
