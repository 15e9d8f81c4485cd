//! Log of the text drawing requests made by the crate (glyph rasterisation is stubbed out).
use std::cell::UnsafeCell;

#[derive(Clone, Debug, PartialEq)]
pub struct Text {
    pub x: i32,
    pub y: i32,
    pub scale: u32,
    pub rgb: u32,
    pub text: Vec<u8>,
}
struct Log(UnsafeCell<Vec<Text>>);
unsafe impl Sync for Log {}
static LOG: Log = Log(UnsafeCell::new(Vec::new()));

#[no_mangle]
extern "C" fn __sym_text(x: i32, y: i32, scale: u32, rgb: u32, text: *const u8, len: usize) {
    let text = unsafe { std::slice::from_raw_parts(text, len) }.to_vec();
    unsafe { (*LOG.0.get()).push(Text { x, y, scale, rgb, text }) }
}
/// The text drawn since the last call
pub fn take() -> Vec<Text> {
    unsafe { std::mem::take(&mut *LOG.0.get()) }
}
