#![verifier::loop_isolation(false)]
#![allow(unused, dead_code, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {
pub mod spec {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
broadcast use {vstd::seq::axiom_seq_index_decreases, vstd::seq::axiom_seq_subrange_decreases};
//@include prelude.rs
//@grammar path.pest
//@include text_spec.rs
//@include consume_spec.rs
//@include path_spec.rs
}
pub mod lem {
use vstd::prelude::*;
use super::spec::*;
//@include prelude_lem.rs
//@include path_lem.rs
}
pub mod code {
use vstd::prelude::*;
use super::spec::*;
use super::lem::*;
broadcast use {seq_lemmas, l_str_of, l_vec_of, vstd::seq::axiom_seq_index_decreases};
//@include path_fns.rs
}
} // verus!
fn main() {}
