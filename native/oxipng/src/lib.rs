//! A stand-in for the parts of oxipng that the plugin `imgopt` needs.

use std::fmt::{self, Display};

#[derive(Clone, Debug, Default)]
pub struct Options(u8);

impl Options {
    pub fn from_preset(n: u8) -> Self {
        Self(n)
    }

    pub fn max_compression() -> Self {
        Self(6)
    }
}

#[derive(Clone, Debug)]
pub struct PngError(String);

impl Display for PngError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for PngError {}

pub fn optimize_from_memory(data: &[u8], _: &Options) -> Result<Vec<u8>, PngError> {
    match data.strip_prefix(b"\x89PNG") {
        Some(rest) if rest.starts_with(b"broken") => Err(PngError(format!("broken image of {} bytes", data.len()))),
        Some(rest) => Ok([b"optimized:".as_slice(), &rest.iter().rev().copied().collect::<Vec<_>>()].concat()),
        None => Err(PngError("invalid header".to_string())),
    }
}
