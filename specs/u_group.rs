#![verifier::loop_isolation(false)]
#![allow(unused, dead_code, non_snake_case)]
use vstd::prelude::*;
verus! {
pub mod spec {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
broadcast use {vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases, vstd::std_specs::vec::axiom_vec_decreases_to_view, vstd::seq::axiom_seq_subrange_decreases};
//@include prelude.rs
//@include types.rs
//@include scalars_spec.rs
//@include edit_spec.rs
//@include group_spec.rs
}
pub mod lem {
use vstd::prelude::*;
use super::spec::*;
//@include prelude_lem.rs
//@include edit_lem.rs
//@include group_lem.rs
}
pub mod code {
use vstd::std_specs::iter::IteratorSpec;
use vstd::prelude::*;
use super::spec::*;
use super::lem::*;
broadcast use {seq_lemmas, edit_lemmas, l_put, vstd::std_specs::vec::axiom_vec_has_resolved, vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases, vstd::std_specs::vec::axiom_vec_decreases_to_view, vstd::seq::axiom_seq_subrange_decreases};
//@include scalars_fns.rs
//@include as_string_fns.rs
//@include edit_fns.rs
//@include group_fns.rs
}
} // verus!
fn main() {}
