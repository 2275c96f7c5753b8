//! Harnesses over the real ekiwi/baa code.  See /verif/DESIGN.md.
#![allow(clippy::all)]
pub mod gen;
pub mod rt;

macro_rules! harnesses {
    ($($m:ident { $($f:ident),* $(,)? })*) => {
        $(pub mod $m;)*
        pub static REGISTRY: &[(&str, extern "C" fn())] = &[ $($((stringify!($f), $m::$f),)*)* ];
    };
}

harnesses! {
    arith { h_add, h_sub, h_negate, h_mul, }
    bitwise { h_bitwise, }
    shift { h_shl, h_shr, h_ashr, }
    slice { h_slice, h_concat, h_zext, h_sext, }
    cmp { h_cmp_unsigned, h_cmp_signed, }
    conv { h_from_int, h_to_int, h_bool, }
    mutate { h_bits, h_assign, }
    bytes { h_to_bytes, h_from_bytes, }
    big { h_big_uint, h_big_int, h_from_big, h_big_auto, }
    fmt { h_bit_str, h_hex_str, h_bit_str_signed, h_hex_str_signed, h_dec_str, h_dec_wide, h_dec_near, h_dec_read, }
    parse { h_parse, h_auto_width, h_round_trip, }
    store { h_store, h_intern, h_intern_pair, h_intern_const, }
    arrays { h_dense, h_from_slice, h_sparse, h_entries, h_convert, h_array_eq, h_array_type, h_value, h_value_eq, h_value_array, h_large, }
    fixed { h_fixed, }
    wide { h_wide_add, h_wide_bits, h_wide_shift, h_wide_slice, h_wide_concat, h_wide_cmp, h_wide_assign, h_wide_int, h_wide_bytes, h_wide_big, h_wide_str, h_wide_parse, h_wide_round, h_wide_views, h_wide_store, h_wide_intern, }
    sweep { h_sweep_shift, h_sweep_slice, h_sweep_concat, h_sweep_bits, h_sweep_mutate, h_sweep_bytes, h_sweep_int, h_sweep_str, h_sweep_sstr, h_sweep_cmp, h_sweep_parse, h_sweep_round, h_sweep_big, h_sweep_views, h_sweep_add, }
    history { h_history, h_burst, }
    laws { h_laws_arith, h_laws_bits, h_laws_cut, h_laws_ext, h_laws_shift, h_laws_mul, h_laws_conv, }
    serial { h_serde_value, h_serde_array, h_serde_wide, }
    eqhash { h_eq, h_hash, h_ord, h_views, h_borrow, }
}
