//! Stand-in for `clap_complete`: no completions are made.
use clap::Command;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shell {
    Bash,
    Elvish,
    Fish,
    PowerShell,
    Zsh,
}
impl std::str::FromStr for Shell {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Ok(match s {
            "bash" => Shell::Bash,
            "elvish" => Shell::Elvish,
            "fish" => Shell::Fish,
            "powershell" => Shell::PowerShell,
            "zsh" => Shell::Zsh,
            _ => return Err("invalid value".into()),
        })
    }
}
pub trait Generator {}
impl Generator for Shell {}
pub fn generate<G: Generator, S: Into<String>>(_: G, _: &mut Command, _: S, _: &mut dyn std::io::Write) {}
