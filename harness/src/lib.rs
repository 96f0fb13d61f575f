//! Harness entry points: each `h_*` states one property of sevenz-rust / lzma-rust over symbolic inputs.
#[macro_use]
pub mod rt;
pub mod util;
macro_rules! entries {
    ($l:ident: $($m:ident :: $f:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $f() { $m::$f() } )*
        pub static $l: &[(&str, extern "C" fn())] = &[ $( (stringify!($f), $f) ),* ];
    };
}
pub mod fs;
mod tofs;
pub mod write;
mod aes;
pub mod lzma_ref;
mod lzma;
mod lzma_enc;
mod extract;
mod filters;
mod robust;
mod header;
entries! { BASE:
    aes::h_aes_dec, aes::h_aes_key, aes::h_aes_props, aes::h_aes_enc, aes::h_password, aes::h_random, aes::h_secret,
    tofs::h_tree, tofs::h_contain, tofs::h_extract,
    write::h_finish, write::h_crash,
    extract::h_visit, extract::h_integrity, extract::h_chain,
    robust::h_corrupt, robust::h_arbitrary, robust::h_corrupt_inner, robust::h_cut, robust::h_start_any, robust::h_checked, robust::h_recover,
    robust::h_recover_any, robust::h_recover_lookalike, robust::h_encoded, robust::h_nothing,
    lzma::h_lzma, lzma::h_lzma2, lzma::h_lzma_size,
    lzma_enc::h_lzma_enc,
    filters::h_bcj, filters::h_bcj_ref, filters::h_delta,
    header::h_number, header::h_files_read, header::h_layout_read,
}
/// entries that go through the guarded hooks of the crate
#[cfg(vse_hooks)]
mod header_w;
#[cfg(vse_hooks)]
entries! { HOOKED:
    write::h_push,
    header_w::h_number_rt, header_w::h_meta, header_w::h_names, header_w::h_layout,
}
#[cfg(not(vse_hooks))]
pub static HOOKED: &[(&str, extern "C" fn())] = &[];
#[cfg(vse_hooks_lz)]
mod coder;
#[cfg(vse_hooks_lz)]
entries! { HOOKED_LZ:
    coder::h_range_enc, coder::h_range_dec, coder::h_lzma_pos, coder::h_dict_read, coder::h_bcj2, coder::h_bcj2_any,
}
#[cfg(not(vse_hooks_lz))]
pub static HOOKED_LZ: &[(&str, extern "C" fn())] = &[];
#[cfg(all(vse_hooks, vse_hooks_lz))]
entries! { HOOKED_BOTH: coder::h_dict_size }
#[cfg(not(all(vse_hooks, vse_hooks_lz)))]
pub static HOOKED_BOTH: &[(&str, extern "C" fn())] = &[];
