//! Harnesses for the symbolic execution of substrate-parser. Every `h_*`
//! function is an entry: it builds symbolic inputs through `rt`, runs the real
//! parser on them, and asserts a property of what it returns.
#![no_std]
extern crate alloc;
#[cfg(feature = "std")]
extern crate std;

#[macro_use]
pub mod rt;
pub mod gen;
pub mod mk;
pub mod spec;

pub mod p_cards;
pub mod p_hint;
pub mod p_ids;
pub mod p_long;
pub mod p_mem;
pub mod p_meta;
pub mod p_names;
pub mod p_storage;
pub mod p_total;
pub mod p_tx;
pub mod p_value;
pub mod p_why;

#[cfg(target_arch = "wasm32")]
mod bare {
    use core::alloc::{GlobalAlloc, Layout};
    /// The allocator of the machine: symex's, or a bump allocator in replay.mjs.
    struct Env;
    #[link(wasm_import_module = "env")]
    extern "C" {
        fn sym_malloc(n: usize) -> *mut u8;
        fn sym_calloc(n: usize, k: usize) -> *mut u8;
        fn sym_realloc(p: *mut u8, n: usize, old: usize) -> *mut u8;
        fn sym_free(p: *mut u8);
    }
    unsafe impl GlobalAlloc for Env {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            sym_malloc(l.size())
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            sym_calloc(l.size(), 1)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            sym_realloc(p, n, l.size())
        }
        unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
            sym_free(p)
        }
    }
    #[global_allocator]
    static A: Env = Env;
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! {
        core::arch::wasm32::unreachable()
    }
}
