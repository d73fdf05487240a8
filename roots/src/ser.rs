use core::fmt;
use nanvm_lib::js::any::Any;
use nanvm_lib::mem::global::Global;
use nanvm_lib::serializer::{to_djs::{to_djs, WriteDjs}, to_json::{to_json, WriteJson}};

pub fn root_json(a: Any<Global>) -> Result<String, fmt::Error> {
    to_json(a)
}

pub fn root_djs(a: Any<Global>, common_js: bool) -> Result<String, fmt::Error> {
    to_djs(a, common_js)
}

/// a writer that may fail at any time
pub struct EnvW;

impl fmt::Write for EnvW {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        env_put(s)
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        env_putc(c)
    }
}

#[inline(never)]
pub fn env_put(_s: &str) -> fmt::Result {
    loop {}
}

#[inline(never)]
pub fn env_putc(_c: char) -> fmt::Result {
    loop {}
}

pub fn root_json_to(a: Any<Global>) -> fmt::Result {
    EnvW.write_json(a)
}

pub fn root_djs_to(a: Any<Global>, common_js: bool) -> fmt::Result {
    EnvW.write_djs(a, common_js)
}
