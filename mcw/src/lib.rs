//! The answers of `mcf` on a machine with 32 bit pointers: WebAssembly.
#[path = "../../mcf/src/answer.rs"]
mod answer;

/// Room for a request of so many bytes.
#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}
/// Replaces a request by its answer; the address and length of it.
#[no_mangle]
pub unsafe extern "C" fn ask(at: *mut u8, n: usize) -> u64 {
    let request = Box::from_raw(std::ptr::slice_from_raw_parts_mut(at, n));
    let a = answer::answer(std::str::from_utf8(&request).unwrap()).into_bytes().into_boxed_slice();
    let a = Box::leak(a);
    (a.as_ptr() as u64) << 32 | a.len() as u64
}
#[no_mangle]
pub unsafe extern "C" fn free(at: *mut u8, n: usize) {
    drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(at, n)));
}
