//! Stand-in for `argh` 0.1: `--name value` string options.
#![forbid(unsafe_code)]
pub use argh_derive::FromArgs;

pub trait FromArgs: Sized {
    /// `args` does not include the program name.
    fn from_args_list(args: &[String]) -> Result<Self, String>;
}

pub fn from_env<T: FromArgs>() -> T {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match T::from_args_list(&args) {
        Ok(t) => t,
        Err(message) => {
            eprintln!("{message}\nRun --help for more information.");
            std::process::exit(1)
        }
    }
}
