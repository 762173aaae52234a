//! Stand-in for `image`: an image is the byte string it was rendered from.
use std::io::{Seek, Write};

pub struct Luma<T>(pub [T; 1]);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ImageFormat { Png }
#[derive(Debug)]
pub struct ImageError(pub String);
impl std::fmt::Display for ImageError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for ImageError {}
pub type ImageResult<T> = Result<T, ImageError>;

pub struct ImageBuffer(pub Vec<u8>);
impl ImageBuffer {
    pub fn write_to<W: Write + Seek>(&self, w: &mut W, _f: ImageFormat) -> ImageResult<()> {
        w.write_all(&self.0).map_err(|e| ImageError(e.to_string()))
    }
}
