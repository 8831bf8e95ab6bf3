#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, non_camel_case_types, unused_braces, unreachable_code, unused_assignments, non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::std_specs::slice::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {

// ---- stand-ins used by the mechanical rewrites -------------------------------
// `unreachable!()`: proving a call to this needs a proof of unreachability.
#[verifier::external_body]
pub fn vx_unreachable<A>() -> (r: A)
    requires false,
{ unimplemented!() }

// bytes of an ASCII string literal
pub open spec fn ascii(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub proof fn lemma_ascii(s: &str)
    requires is_ascii_chars(s@),
    ensures s.spec_bytes() == ascii(s@),
{
    broadcast use group_utf8_lib;
    is_ascii_chars_encode_utf8(s@);
    assert(s.spec_bytes() =~= ascii(s@));
}
