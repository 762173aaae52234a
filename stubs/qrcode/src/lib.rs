//! Stand-in for `qrcode`: the rendered image is the encoded payload itself.
use std::marker::PhantomData;

#[derive(Debug)]
pub struct QrError;
impl std::fmt::Display for QrError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "data too long") }
}
impl std::error::Error for QrError {}

pub struct QrCode(Vec<u8>);
impl QrCode {
    pub fn new<D: AsRef<[u8]>>(data: D) -> Result<Self, QrError> { Ok(Self(data.as_ref().to_vec())) }
    pub fn render<P>(&self) -> Renderer<P> { Renderer(self.0.clone(), PhantomData) }
}
pub struct Renderer<P>(Vec<u8>, PhantomData<P>);
impl<P> Renderer<P> {
    pub fn build(&self) -> image::ImageBuffer { image::ImageBuffer(self.0.clone()) }
}
