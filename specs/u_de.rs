#![verifier::loop_isolation(false)]
#![allow(unused, dead_code, non_snake_case)]
use vstd::prelude::*;
verus! {
pub mod spec {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
broadcast use {vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases, vstd::std_specs::vec::axiom_vec_decreases_to_view, vstd::seq::axiom_seq_subrange_decreases};
//@include prelude.rs
//@include types.rs
//@include scalars_spec.rs
//@include strings_spec.rs
//@include nodes_spec.rs
//@include de_spec.rs
}
pub mod lem {
use vstd::prelude::*;
use super::spec::*;
broadcast use {vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases, vstd::std_specs::vec::axiom_vec_decreases_to_view, vstd::seq::axiom_seq_subrange_decreases};
//@include prelude_lem.rs
//@include de_lem.rs
}
pub mod code {
use vstd::prelude::*;
use super::spec::*;
use super::lem::*;
broadcast use {seq_lemmas, l_flow_all, l_flow_hash_all, l_strings_push, l_pairs_push};
//@include scalars_fns.rs
//@include de_fns.rs
}
} // verus!
fn main() {}
