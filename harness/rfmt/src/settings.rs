//! Formatting settings: generated, written as TOML, and turned into air's own options.
use crate::cst::Assign;
use air_r_formatter::context::RFormatOptions;
use vkit::Rng;
use workspace::format::{FormatSourceError, FormattedSource, format_source};

#[derive(Clone, Debug, PartialEq)]
pub struct Settings {
    pub width: u16,
    pub indent: u8,
    pub tab: bool,
    pub ending: &'static str,
    pub persistent: bool,
    pub assign: Assign,
    pub skip: Vec<String>,
    pub table: Vec<String>,
    pub default_table: bool,
}

impl Default for Settings {
    fn default() -> Self {
        Settings { width: 80, indent: 2, tab: false, ending: "lf", persistent: true, assign: Assign::Preserve, skip: vec![], table: vec![], default_table: false }
    }
}

impl Settings {
    pub fn random(r: &mut Rng) -> Self {
        let mut s = Settings::default();
        s.width = match r.below(6) { 0 | 1 => 80, 2 => r.range(1, 20) as u16, 3 => r.range(20, 60) as u16, 4 => r.range(60, 120) as u16, _ => if r.bool() { 320 } else { r.range(121, 320) as u16 } };
        s.indent = match r.below(4) { 0 | 1 => 2, 2 => 4, _ => r.range(1, 24) as u8 };
        s.tab = r.chance(1, 4);
        s.ending = if r.chance(1, 5) { "crlf" } else { "lf" };
        s.persistent = !r.chance(1, 3);
        if r.chance(1, 10) { s.skip = vec![r.word(&["f", "c", "map", "list"]).to_string()] }
        s.assign = *r.pick(&[Assign::Arrow, Assign::Equal, Assign::Preserve, Assign::Arrow]);
        s
    }
    pub fn toml(&self) -> String {
        let list = |l: &[String]| l.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ");
        format!(
            "[format]\nline-width = {}\nindent-width = {}\nindent-style = \"{}\"\nline-ending = \"{}\"\npersistent-line-breaks = {}\nassignment-style = \"{}\"\nskip = [{}]\ntable = [{}]\ndefault-table = {}\n",
            self.width, self.indent, if self.tab { "tab" } else { "space" }, self.ending, self.persistent,
            match self.assign { Assign::Arrow => "arrow", Assign::Equal => "equal", Assign::Preserve => "preserve" },
            list(&self.skip), list(&self.table), self.default_table,
        )
    }
    pub fn options(&self, code: &str) -> RFormatOptions {
        workspace::toml::parse_air_inline_toml(&self.toml())
            .unwrap_or_else(|e| panic!("own settings: {e}\n{}", self.toml()))
            .into_settings("".as_ref())
            .expect("own settings")
            .format
            .to_format_options(code)
    }
    /// Straight from the formatter, whatever air makes of that for its callers.
    pub fn format(&self, code: &str) -> Result<String, FormatSourceError> {
        let options = self.options(code);
        let parse = air_r_parser::parse(code, Default::default());
        if parse.has_error() { return Err(parse.into_error().expect("an error").into()) }
        Ok(air_r_formatter::format_node(options, &parse.syntax())?.print()?.into_code())
    }
    /// What air says about a text: whether it changes, and into what.
    pub fn verdict(&self, code: &str) -> Result<Option<String>, FormatSourceError> {
        Ok(match format_source(code, self.options(code))? {
            FormattedSource::Changed(new) => Some(new),
            FormattedSource::Unchanged => None,
        })
    }
    pub fn eol(&self) -> &'static str {
        if self.ending == "crlf" { "\r\n" } else { "\n" }
    }
    pub fn unit(&self) -> String {
        if self.tab { "\t".into() } else { " ".repeat(self.indent as usize) }
    }
}
