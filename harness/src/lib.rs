//! Harnesses: each `h_*` function states a property of rspolib over inputs
//! that the executor leaves open.
#![allow(clippy::all)]

pub mod models;
pub mod sym;
pub mod util;

mod c01;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;

#[cfg(feature = "testdata")]
mod val;

macro_rules! table {
    ($($m:ident: $($h:ident)+;)+) => {
        /// the harnesses by name
        pub fn table() -> Vec<(&'static str, extern "C" fn())> {
            #[allow(unused_mut)]
            let mut t = vec![$($((stringify!($h), $m::$h as extern "C" fn())),+),+];
            #[cfg(feature = "testdata")]
            t.push(("h_val", val::h_val as extern "C" fn()));
            t
        }
    };
}

table! {
    c01: h_c01 h_c02 h_c02_letter h_c01_long h_c02_long;
    c03: h_c03 h_c03_all h_c03_long h_c03_forms;
    c04: h_c04_previous h_c04_comment h_c04_flags h_c04_references h_c04_all h_c04_many h_c04_long;
    c05: h_c05_entries h_c05_header h_c05_metadata h_c05_strings h_c05_comments h_c05_many h_c05_full h_c05_huge;
    c06: h_c06_any h_c06_line h_c06_quoted h_c06_lines h_c06_index h_c06_long;
    c07: h_c07 h_c07_space h_c07_forms h_c07_many h_c07_comments;
    c08: h_c08_order h_c08_word h_c08_quotes h_c08_other h_c08_far h_c08_very_far;
    c09: h_c09_any h_c09_numbers h_c09_cut h_c09_texts;
    c10: h_c10 h_c10_forms h_c10_texts h_c11 h_c11_ways h_c10_large h_c10_count h_c11_wide;
    c12: h_c12 h_c12_entry h_c12_bytes h_c12_many;
    c13: h_c13 h_c13_kinds h_c13_words h_c13_file h_c13_options h_c13_long;
    c14: h_c14_back h_c14_order h_c14_hashing h_c14_places h_c14_near h_c14_all;
    c15: h_c15_find h_c15_find_mo h_c15_first h_c15_views h_c15_remove h_c15_equal h_c15_history h_c15_many;
    c16: h_c16_pairs h_c16_triples h_c16_lists h_c16_options h_c16_long h_c16_references;
    c17: h_c17 h_c17_again h_c17_entry h_c17_many;
    c18: h_c18 h_c18_form h_c18_invalid h_c18_large h_c18_mo;
    c19: h_c19_save h_c19_load_po h_c19_load_mo;
    c20: h_c20 h_c20_metadata h_c20_shapes h_c20_loaded h_c20_many h_c20_long h_c20_forms;
    c22: h_c22 h_c22_space h_c22_far h_c22_shapes h_c22_ends;
    c23: h_c23_path h_c23_bytes h_c23_quote h_c23_escape h_c23_mo h_c23_mo_text;
    c24: h_c24_unescape h_c24_absent h_c24_key h_c24_entry h_c24_file;
    c25: h_c25 h_c25_kept h_c25_repeat;
    c26: h_c26_text h_c26_two h_c26_missing h_c26_mo h_c26_long;
    c27: h_c27_text h_c27_shapes h_c27_comments h_c27_metadata h_c27_long h_c27_forms h_c27_mo;
    c28: h_c28 h_c28_text;
    c29: h_c29 h_c29_text h_c29_mo h_c29_metadata;
    c30: h_c30 h_c30_gap h_c30_many h_c30_long;
    c31: h_c31 h_c31_text h_c31_long;
}
