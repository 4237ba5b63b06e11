//! Stand-in for `colored`: underlining, off unless the environment or an override says otherwise.
use std::fmt;

pub struct ColoredString {
    text: String,
}

impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if control::on() { write!(f, "\x1b[4m{}\x1b[0m", self.text) } else { f.write_str(&self.text) }
    }
}

pub trait Colorize {
    fn underline(self) -> ColoredString;
}

impl Colorize for String {
    fn underline(self) -> ColoredString {
        ColoredString { text: self }
    }
}

impl Colorize for &str {
    fn underline(self) -> ColoredString {
        ColoredString { text: self.to_string() }
    }
}

pub mod control {
    use std::io::IsTerminal;
    use std::sync::atomic::{AtomicU8, Ordering};

    static OVERRIDE: AtomicU8 = AtomicU8::new(0);

    pub fn set_override(colorize: bool) {
        OVERRIDE.store(1 + u8::from(colorize), Ordering::Relaxed);
    }

    pub fn unset_override() {
        OVERRIDE.store(0, Ordering::Relaxed);
    }

    pub(crate) fn on() -> bool {
        match OVERRIDE.load(Ordering::Relaxed) {
            1 => return false,
            2 => return true,
            _ => {}
        }
        let set = |name| std::env::var(name).is_ok_and(|v| v != "0");
        if set("CLICOLOR_FORCE") {
            return true;
        }
        if std::env::var("NO_COLOR").is_ok() {
            return false;
        }
        std::env::var("CLICOLOR").map_or(true, |v| v != "0") && std::io::stdout().is_terminal()
    }
}
