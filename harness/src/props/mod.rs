mod util;
mod c01_parse;
mod c02_total;
mod c03_literals;
mod c04_bits;
mod c05_validation;
mod c06_agree;
mod c07_errors;
mod c08_ignore;
mod c09_round;
mod c10_numbers;
mod c11_sort;
mod c12_case;
mod c13_options;
mod c14_arrays;
mod c15_expand;
mod c16_derive;
mod c17_badrefs;
mod c18_inherit;
mod c19_pure;
mod c20_serde;
mod c21_builders;
mod c22_modify;
mod c23_lookup;
mod c24_masks;
mod c25_keywords;
mod c26_paths;
mod c27_overlay;
mod c28_parts;
mod c29_schema;
use crate::Prop;
pub fn all() -> Vec<Prop> {
    vec![
        c01_parse::PROP,
        c02_total::PROP,
        c03_literals::PROP,
        c04_bits::PROP,
        c05_validation::PROP,
        c06_agree::PROP,
        c07_errors::PROP,
        c08_ignore::PROP,
        c09_round::PROP,
        c10_numbers::PROP,
        c11_sort::PROP,
        c12_case::PROP,
        c13_options::PROP,
        c14_arrays::PROP,
        c15_expand::PROP,
        c16_derive::PROP,
        c17_badrefs::PROP,
        c18_inherit::PROP,
        c19_pure::PROP,
        c20_serde::PROP,
        c21_builders::PROP,
        c22_modify::PROP,
        c23_lookup::PROP,
        c24_masks::PROP,
        c25_keywords::PROP,
        c26_paths::PROP,
        c27_overlay::PROP,
        c28_parts::PROP,
        c29_schema::PROP,
    ]
}
