//! Stand-in for `openjpeg-sys` (the C codec is outside what is encoded): same types and entry
//! points, with libopenjpeg's documented contract for the image it returns.
//!
//! A "code stream" here is an 8-byte header `tag x0 y0 x1 y1 dx dy ncomp` followed by big-endian
//! i16 samples of the first component, row by row. tag 0 fails in `opj_read_header`, tag 1 fails
//! in `opj_decode`; like the real library it refuses empty images and zero subsampling, and the
//! component is ceil(x1/dx)-ceil(x0/dx) wide and ceil(y1/dy)-ceil(y0/dy) high.
#![allow(non_camel_case_types, non_snake_case, clippy::missing_safety_doc)]
use std::os::raw::{c_int, c_void};

pub type OPJ_BOOL = c_int;
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
#[repr(i32)]
pub enum CODEC_FORMAT {
    OPJ_CODEC_UNKNOWN = -1,
    OPJ_CODEC_J2K = 0,
    OPJ_CODEC_JPT = 1,
    OPJ_CODEC_JP2 = 2,
    OPJ_CODEC_JPP = 3,
    OPJ_CODEC_JPX = 4,
}
pub use self::CODEC_FORMAT as OPJ_CODEC_FORMAT;
pub type opj_codec_t = *mut c_void;
pub type opj_stream_t = *mut c_void;
pub type opj_stream_read_fn = Option<unsafe extern "C" fn(*mut c_void, usize, *mut c_void) -> usize>;
pub type opj_stream_free_user_data_fn = Option<unsafe extern "C" fn(*mut c_void)>;

#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct opj_dparameters {
    pub cp_reduce: u32,
    pub cp_layer: u32,
    pub m_verbose: OPJ_BOOL,
    pub tile_index: u32,
    pub nb_tile_to_decode: u32,
    pub flags: u32,
}
pub type opj_dparameters_t = opj_dparameters;
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct opj_image_comp {
    pub dx: u32,
    pub dy: u32,
    pub w: u32,
    pub h: u32,
    pub x0: u32,
    pub y0: u32,
    pub prec: u32,
    pub bpp: u32,
    pub sgnd: u32,
    pub resno_decoded: u32,
    pub factor: u32,
    pub data: *mut i32,
    pub alpha: u16,
}
pub type opj_image_comp_t = opj_image_comp;
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct opj_image {
    pub x0: u32,
    pub y0: u32,
    pub x1: u32,
    pub y1: u32,
    pub numcomps: u32,
    pub color_space: i32,
    pub comps: *mut opj_image_comp_t,
    pub icc_profile_buf: *mut u8,
    pub icc_profile_len: u32,
}
pub type opj_image_t = opj_image;

struct Stream {
    read: opj_stream_read_fn,
    data: *mut c_void,
    free: opj_stream_free_user_data_fn,
}
struct Codec {
    tag: u8,
}

pub unsafe fn opj_stream_default_create(_input: OPJ_BOOL) -> *mut opj_stream_t {
    Box::into_raw(Box::new(Stream { read: None, data: std::ptr::null_mut(), free: None })) as *mut _
}
pub unsafe fn opj_stream_destroy(s: *mut opj_stream_t) {
    if s.is_null() {
        return;
    }
    let s = Box::from_raw(s as *mut Stream);
    if let Some(f) = s.free {
        f(s.data);
    }
}
pub unsafe fn opj_stream_set_read_function(s: *mut opj_stream_t, f: opj_stream_read_fn) {
    (*(s as *mut Stream)).read = f;
}
pub unsafe fn opj_stream_set_user_data(s: *mut opj_stream_t, d: *mut c_void, f: opj_stream_free_user_data_fn) {
    (*(s as *mut Stream)).data = d;
    (*(s as *mut Stream)).free = f;
}
pub unsafe fn opj_stream_set_user_data_length(_s: *mut opj_stream_t, _n: u64) {}
pub unsafe fn opj_create_decompress(f: OPJ_CODEC_FORMAT) -> *mut opj_codec_t {
    if f as i32 != 0 {
        return std::ptr::null_mut();
    }
    Box::into_raw(Box::new(Codec { tag: 0 })) as *mut _
}
pub unsafe fn opj_destroy_codec(c: *mut opj_codec_t) {
    if !c.is_null() {
        drop(Box::from_raw(c as *mut Codec));
    }
}
pub unsafe fn opj_set_default_decoder_parameters(p: *mut opj_dparameters_t) {
    (*p).cp_reduce = 0;
    (*p).cp_layer = 0;
}
pub unsafe fn opj_setup_decoder(_c: *mut opj_codec_t, _p: *mut opj_dparameters_t) -> OPJ_BOOL {
    1
}

/// Reads n bytes through the callback, at most `chunk` at a time (as the library's buffer does).
unsafe fn fill(s: *mut opj_stream_t, out: &mut [u8]) -> bool {
    let s = &*(s as *const Stream);
    let Some(f) = s.read else { return false };
    let mut n = 0;
    while n < out.len() {
        let k = f(out.as_mut_ptr().add(n) as *mut c_void, out.len() - n, s.data);
        // opj_stream_read_data treats (size_t)-1 as the end and asks again after 0
        if k == 0 {
            panic!("opj_stream_read_data would never return: the read callback returned 0");
        }
        if k == usize::MAX {
            return false;
        }
        assert!(k <= out.len() - n);
        n += k;
    }
    true
}
fn ceildiv(a: u32, b: u32) -> u32 {
    (a + b - 1) / b
}

pub unsafe fn opj_read_header(s: *mut opj_stream_t, c: *mut opj_codec_t, img: *mut *mut opj_image_t) -> OPJ_BOOL {
    let mut h = [0u8; 8];
    if !fill(s, &mut h) || h[0] == 0 {
        return 0;
    }
    let [tag, x0, y0, x1, y1, dx, dy, nc] = h;
    // wide images
    let unit = if tag == 0x82 { 256 } else { 1 };
    let (x0, y0, x1, y1) = (x0 as u32 * unit, y0 as u32, x1 as u32 * unit, y1 as u32);
    if x0 >= x1 || y0 >= y1 || dx == 0 || dy == 0 || nc == 0 {
        return 0;
    }
    (*(c as *mut Codec)).tag = tag;
    let (dx, dy) = (dx as u32, dy as u32);
    let comp = opj_image_comp {
        dx,
        dy,
        w: ceildiv(x1, dx) - ceildiv(x0, dx),
        h: ceildiv(y1, dy) - ceildiv(y0, dy),
        x0: ceildiv(x0, dx),
        y0: ceildiv(y0, dy),
        prec: 16,
        bpp: 0,
        sgnd: 1,
        resno_decoded: 0,
        factor: 0,
        data: std::ptr::null_mut(),
        alpha: 0,
    };
    let comps: Box<[opj_image_comp]> = vec![comp; nc as usize].into_boxed_slice();
    let comps = Box::into_raw(comps) as *mut opj_image_comp;
    *img = Box::into_raw(Box::new(opj_image {
        x0: x0,
        y0: y0,
        x1: x1,
        y1: y1,
        numcomps: nc as u32,
        color_space: 0,
        comps,
        icc_profile_buf: std::ptr::null_mut(),
        icc_profile_len: 0,
    }));
    1
}
pub unsafe fn opj_decode(c: *mut opj_codec_t, s: *mut opj_stream_t, img: *mut opj_image_t) -> OPJ_BOOL {
    if (*(c as *mut Codec)).tag == 1 {
        return 0;
    }
    let i = &*img;
    for k in 0..i.numcomps as usize {
        let comp = &mut *i.comps.add(k);
        let n = (comp.w * comp.h) as usize;
        let mut v = vec![0i32; n].into_boxed_slice();
        if k == 0 {
            for x in v.iter_mut() {
                let mut b = [0u8; 2];
                if !fill(s, &mut b) {
                    return 0;
                }
                *x = i16::from_be_bytes(b) as i32;
            }
        }
        comp.data = Box::into_raw(v) as *mut i32;
    }
    1
}
pub unsafe fn opj_image_destroy(img: *mut opj_image_t) {
    if img.is_null() {
        return;
    }
    let i = Box::from_raw(img);
    let comps = Box::from_raw(std::ptr::slice_from_raw_parts_mut(i.comps, i.numcomps as usize));
    for c in comps.iter() {
        if !c.data.is_null() {
            drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(c.data, (c.w * c.h) as usize)));
        }
    }
}
