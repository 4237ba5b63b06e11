//! Formats stdin over the stand-ins (for looking at single inputs).
use std::io::Read;
fn main() {
    let mut code = String::new();
    std::io::stdin().read_to_string(&mut code).unwrap();
    let toml = std::env::args().nth(1).unwrap_or_default();
    let options = workspace::toml::parse_air_inline_toml(&toml)
        .unwrap()
        .into_settings("".as_ref())
        .unwrap()
        .format
        .to_format_options(&code);
    match workspace::format::format_source(&code, options) {
        Ok(workspace::format::FormattedSource::Changed(new)) => print!("{new}"),
        Ok(workspace::format::FormattedSource::Unchanged) => print!("{code}"),
        Err(error) => {
            eprintln!("{error:?}");
            std::process::exit(1);
        }
    }
}
