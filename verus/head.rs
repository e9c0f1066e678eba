#![allow(unused_imports, dead_code, unused_variables)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
use vstd::slice::slice_subrange;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
