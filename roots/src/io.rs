// The outside world of the parser and the application: every operation is an environment
// query.  The bodies are never used.
use io_trait::{DirEntry, File, Io, Metadata};
use std::io::{self, Read, Seek, SeekFrom, Write};

#[derive(Clone)]
pub struct EnvIo;
#[derive(Debug)]
pub struct EnvFile;
pub struct EnvOut;
pub struct EnvMeta;
pub struct EnvEntry;
pub struct EnvArgs;

impl Read for EnvFile {
    fn read(&mut self, _b: &mut [u8]) -> io::Result<usize> {
        env_other(1)
    }
}
impl Write for EnvFile {
    fn write(&mut self, _b: &[u8]) -> io::Result<usize> {
        env_other(2)
    }
    fn flush(&mut self) -> io::Result<()> {
        env_other(3)
    }
}
impl Seek for EnvFile {
    fn seek(&mut self, _p: SeekFrom) -> io::Result<u64> {
        env_other(4)
    }
}
impl Metadata for EnvMeta {
    fn len(&self) -> u64 {
        env_other(5)
    }
    fn is_dir(&self) -> bool {
        env_other(6)
    }
}
impl File for EnvFile {
    type Metadata = EnvMeta;
    fn metadata(&self) -> io::Result<EnvMeta> {
        env_other(7)
    }
}
impl DirEntry for EnvEntry {
    type Metadata = EnvMeta;
    fn path(&self) -> String {
        env_other(8)
    }
    fn metadata(&self) -> io::Result<EnvMeta> {
        env_other(9)
    }
}
impl Write for EnvOut {
    fn write(&mut self, _b: &[u8]) -> io::Result<usize> {
        env_other(10)
    }
    fn flush(&mut self) -> io::Result<()> {
        env_other(11)
    }
}
impl Iterator for EnvArgs {
    type Item = String;
    #[inline(never)]
    fn next(&mut self) -> Option<String> {
        env_arg()
    }
}

impl Io for EnvIo {
    type Args = EnvArgs;
    type File = EnvFile;
    type Stdout = EnvOut;
    type Metadata = EnvMeta;
    type DirEntry = EnvEntry;
    type Instant = std::time::Instant;
    fn args(&self) -> EnvArgs {
        EnvArgs
    }
    fn stdout(&self) -> EnvOut {
        EnvOut
    }
    fn metadata(&self, _p: &str) -> io::Result<EnvMeta> {
        env_other(12)
    }
    fn create_dir(&self, _p: &str) -> io::Result<()> {
        env_other(13)
    }
    fn create(&self, p: &str) -> io::Result<EnvFile> {
        env_create(p)
    }
    fn open(&self, _p: &str) -> io::Result<EnvFile> {
        env_other(14)
    }
    fn now(&self) -> std::time::Instant {
        env_other(15)
    }
    fn read_dir(&self, _p: &str) -> io::Result<Vec<EnvEntry>> {
        env_other(16)
    }
    fn read_to_string(&self, p: &str) -> io::Result<String> {
        env_read(p)
    }
    fn write(&self, p: &str, d: &[u8]) -> io::Result<()> {
        env_write(p, d)
    }
    fn current_dir(&self) -> io::Result<String> {
        env_other(17)
    }
    fn set_current_dir(&self, _p: &str) -> io::Result<()> {
        env_other(18)
    }
}

/// contents of the file, or an error
#[inline(never)]
pub fn env_read(_p: &str) -> io::Result<String> {
    loop {}
}
/// the file is replaced, or an error
#[inline(never)]
pub fn env_write(_p: &str, _d: &[u8]) -> io::Result<()> {
    loop {}
}
#[inline(never)]
pub fn env_create(_p: &str) -> io::Result<EnvFile> {
    loop {}
}
/// the next command line argument
#[inline(never)]
pub fn env_arg() -> Option<String> {
    loop {}
}
/// any other operation
#[inline(never)]
pub fn env_other<T>(_k: u32) -> T {
    loop {}
}

/// an immutable array of the given elements (its construction is judged by M01-M03, V05)
#[inline(never)]
pub fn env_flex<I, R>(_v: Vec<I>) -> R {
    loop {}
}

/// the next token of an arbitrary document
#[inline(never)]
pub fn env_token<T>() -> Option<T> {
    None
}

/// an import was reported to the caller
#[inline(never)]
pub fn env_import(_path: String) {}
