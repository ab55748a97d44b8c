//! C-callable face of the crate in /repo for the simulator (see ../sim). Everything the library could reach outside
//! itself (allocator, caller-supplied iterators, writers and comparisons) is routed to the simulator.
#![allow(non_snake_case, non_camel_case_types, unused_imports, unused_unsafe, static_mut_refs)]
mod support;
mod table;

#[no_mangle]
pub extern "C" fn api_table(n: *mut usize) -> *const support::FnDesc {
    unsafe { *n = table::TABLE.len() }
    table::TABLE.as_ptr()
}

/// Silences panic messages: a panic is an outcome the simulator records, not something to print.
#[no_mangle]
pub extern "C" fn api_init() {
    std::panic::set_hook(Box::new(|_| {}));
}
