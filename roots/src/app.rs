use crate::io::EnvIo;
use nanvm_lib::app::run;

/// the application on an arbitrary file system and command line
pub fn root_app() -> std::io::Result<()> {
    run(&EnvIo)
}

/// the program of `nanvm`
#[path = "/repo/nanvm/src/main.rs"]
pub mod program;
