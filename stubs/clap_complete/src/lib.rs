//! Stand-in for `clap_complete`: names the shell, lists the subcommands.
use std::io::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, clap::ValueEnum)]
pub enum Shell {
    Bash,
    Elvish,
    Fish,
    #[value(name = "powershell")]
    PowerShell,
    Zsh,
}

pub fn generate<S: Into<String>>(shell: Shell, cmd: &mut clap::Command, bin_name: S, buf: &mut dyn Write) {
    let bin = bin_name.into();
    cmd.build();
    writeln!(buf, "# {shell:?} completions for {bin} (stand-in)").unwrap();
    for sub in cmd.get_subcommands() {
        writeln!(buf, "{bin} {}", sub.get_name()).unwrap();
    }
}
