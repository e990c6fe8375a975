//! The C interface as a C program sees it (include/zil.h).
#![allow(dead_code, improper_ctypes)]
use libc::{c_char, c_float, c_void};
use zune_image::image::Image;
pub enum ZStatus {}
pub type ZI = Image;
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub width: u32,
    pub height: u32,
    pub depth: u32,
    pub colorspace: u32,
    pub format: u32
}
extern "C" {
    pub fn zil_status_new() -> *mut ZStatus;
    pub fn zil_status_free(s: *mut ZStatus);
    pub fn zil_status_ok(s: *const ZStatus) -> bool;
    pub fn zil_status_code(s: *const ZStatus) -> u32;
    pub fn zil_status_message(s: *const ZStatus) -> *const c_char;
    pub fn zil_free(p: *mut c_void);
    pub fn zil_free_and_null(p: *mut *mut c_void);
    pub fn zil_malloc(n: usize) -> *mut c_void;
    pub fn zil_guess_format(b: *const u8, n: usize) -> u32;
    pub fn zil_imdepth_new() -> u32;
    pub fn zil_imread(file: *const c_char, w: *mut usize, h: *mut usize, d: *mut u32, c: *mut usize, s: *mut ZStatus) -> *mut c_char;
    pub fn zil_imread_into(file: *const c_char, o: *mut u8, n: usize, w: *mut usize, h: *mut usize, d: *mut u32, c: *mut usize, s: *mut ZStatus);
    pub fn zil_imdecode(b: *const u8, n: usize, w: *mut usize, h: *mut usize, d: *mut u32, c: *mut usize, s: *mut ZStatus) -> *mut c_char;
    pub fn zil_imdecode_into(b: *const u8, n: usize, o: *mut u8, on: usize, w: *mut usize, h: *mut usize, d: *mut u32, c: *mut usize, s: *mut ZStatus);
    pub fn zil_read_headers_from_file(file: *const c_char, s: *mut ZStatus) -> Meta;
    pub fn zil_read_headers_from_memory(b: *const u8, n: usize, s: *mut ZStatus) -> Meta;
    pub fn zil_zimg_new() -> *mut ZI;
    pub fn zil_zimg_free(i: *mut ZI);
    pub fn zil_zimg_clone(i: *const ZI) -> *mut ZI;
    pub fn zil_zimg_from_u8(p: *const u8, n: usize, w: usize, h: usize, cs: u32) -> *mut ZI;
    pub fn zil_zimg_from_u16(p: *const u16, n: usize, w: usize, h: usize, cs: u32) -> *mut ZI;
    pub fn zil_zimg_from_f32(p: *const f32, n: usize, w: usize, h: usize, cs: u32) -> *mut ZI;
    pub fn zil_zimg_width(i: *mut ZI, s: *mut ZStatus) -> usize;
    pub fn zil_zimg_height(i: *mut ZI, s: *mut ZStatus) -> usize;
    pub fn zil_zimg_depth(i: *mut ZI, s: *mut ZStatus) -> u32;
    pub fn zil_zimg_colorspace(i: *mut ZI, s: *mut ZStatus) -> u32;
    pub fn zil_zimg_get_out_buffer_size(i: *mut ZI, s: *mut ZStatus) -> usize;
    pub fn zil_zimg_write_to_output(i: *const ZI, o: *mut u8, n: usize, s: *mut ZStatus) -> usize;
    pub fn zil_zimg_open(f: *const c_char, i: *mut ZI, s: *mut ZStatus);
    pub fn zil_zimg_read_from_memory(b: *const u8, n: usize, i: *mut ZI, s: *mut ZStatus);
    pub fn zil_zimg_write_to_disk(f: *const c_char, i: *const ZI, s: *mut ZStatus);
    pub fn zil_zimg_write_to_disk_with_format(f: *const c_char, i: *const ZI, fmt: u32, s: *mut ZStatus);
    pub fn zil_imgproc_adjust_contrast(i: *mut ZI, v: c_float, s: *mut ZStatus);
    pub fn zil_imgproc_auto_orient(i: *mut ZI, s: *mut ZStatus);
    pub fn zil_imgproc_bilateral_filter(i: *mut ZI, d: i32, a: f32, b: f32, s: *mut ZStatus);
    pub fn zil_imgproc_blend(i: *mut ZI, j: *const ZI, a: f32, s: *mut ZStatus);
    pub fn zil_imgproc_exposure(i: *mut ZI, e: f32, b: f32, s: *mut ZStatus);
    pub fn zil_imgproc_change_depth(i: *mut ZI, d: u32, s: *mut ZStatus);
    pub fn zil_imgproc_convert_colorspace(i: *mut ZI, c: u32, s: *mut ZStatus);
    pub fn zil_imgproc_crop(i: *mut ZI, w: usize, h: usize, x: usize, y: usize, s: *mut ZStatus);
    pub fn zil_imgproc_flip_mirror_x_axis(i: *mut ZI, s: *mut ZStatus);
    pub fn zil_imgproc_flip_horizontal(i: *mut ZI, s: *mut ZStatus);
    pub fn zil_imgproc_gamma(i: *mut ZI, g: f32, s: *mut ZStatus);
    pub fn zil_imgproc_invert(i: *mut ZI, s: *mut ZStatus);
    pub fn zil_imgproc_brighten(i: *mut ZI, v: f32, s: *mut ZStatus);
    pub fn zil_imgproc_gaussian_blur(i: *mut ZI, v: f32, s: *mut ZStatus);
    pub fn zil_imgproc_stretch_contrast(i: *mut ZI, l: f32, h: f32, s: *mut ZStatus);
    pub fn zil_imgproc_transpose(i: *mut ZI, s: *mut ZStatus);
    pub fn zil_imgproc_sobel(i: *mut ZI, s: *mut ZStatus);
    pub fn zil_imgproc_scharr(i: *mut ZI, s: *mut ZStatus);
    pub fn zil_imgproc_median_blur(i: *mut ZI, r: usize, s: *mut ZStatus);
}
