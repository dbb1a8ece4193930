//! The system's random bytes (only key generation in the harness uses them).
use std::io::Read;
pub fn getrandom(dest: &mut [u8]) -> std::io::Result<()> { std::fs::File::open("/dev/urandom")?.read_exact(dest) }
