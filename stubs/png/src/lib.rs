//! Stand-in for the `png` crate (the inflate and unfilter code is outside what is encoded).
//! A "PNG" here is one tag byte followed by the raw pixel bytes: tag 0 fails in `read_info`,
//! tag 1 fails in `next_frame`, anything else decodes to exactly the remaining bytes.
use std::fmt;
use std::io::Read;

#[derive(Debug)]
pub struct DecodingError(&'static str);
impl fmt::Display for DecodingError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for DecodingError {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ColorType {
    Grayscale,
    Rgb,
    Indexed,
    GrayscaleAlpha,
    Rgba,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BitDepth {
    One = 1,
    Two = 2,
    Four = 4,
    Eight = 8,
    Sixteen = 16,
}
#[derive(Debug, Clone)]
pub struct Info {
    pub width: u32,
    pub height: u32,
    pub bit_depth: BitDepth,
    pub color_type: ColorType,
}
#[derive(Debug, Clone)]
pub struct OutputInfo {
    pub width: u32,
    pub height: u32,
    pub color_type: ColorType,
    pub bit_depth: BitDepth,
    pub line_size: usize,
}
impl OutputInfo {
    pub fn buffer_size(&self) -> usize {
        self.line_size * self.height as usize
    }
}

pub struct Decoder<R: Read> {
    r: R,
}
pub struct Reader<R: Read> {
    tag: u8,
    buf: Vec<u8>,
    info: Info,
    _r: R,
}
impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> Self {
        Decoder { r }
    }
    pub fn read_info(mut self) -> Result<Reader<R>, DecodingError> {
        let mut tag = [0u8; 1];
        match self.r.read(&mut tag) {
            Ok(1) if tag[0] != 0 => {}
            _ => return Err(DecodingError("stand-in: not a PNG")),
        }
        let mut buf = Vec::new();
        self.r.read_to_end(&mut buf).map_err(|_| DecodingError("stand-in: read"))?;
        let info = Info {
            width: (buf.len() / 2) as u32,
            height: 1,
            bit_depth: BitDepth::Sixteen,
            color_type: ColorType::Grayscale,
        };
        Ok(Reader { tag: tag[0], buf, info, _r: self.r })
    }
}
impl<R: Read> Reader<R> {
    pub fn info(&self) -> &Info {
        &self.info
    }
    pub fn output_buffer_size(&self) -> usize {
        self.buf.len()
    }
    pub fn next_frame(&mut self, out: &mut [u8]) -> Result<OutputInfo, DecodingError> {
        if self.tag == 1 || out.len() < self.buf.len() {
            return Err(DecodingError("stand-in: bad frame"));
        }
        out[..self.buf.len()].copy_from_slice(&self.buf);
        Ok(OutputInfo {
            width: self.info.width,
            height: self.info.height,
            color_type: self.info.color_type,
            bit_depth: self.info.bit_depth,
            line_size: self.buf.len(),
        })
    }
}
