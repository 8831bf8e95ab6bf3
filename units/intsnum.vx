// num_traits for the primitive types decode_hex is used at (assumed)
//@ each T M = u8 255 ; u32 4294967295 ; u64 18446744073709551615 ; usize 18446744073709551615
impl FromPrimitive for @T@ {
    #[verifier::external_body]
    fn from_u8(n: u8) -> (r: Option<Self>) { Some(n as Self) }
}
impl Zero for @T@ {
    fn zero() -> (r: Self) { 0 }
}
impl CheckedAdd for @T@ {
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl CheckedMul for @T@ {
    #[verifier::external_body]
    fn checked_mul(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
//@ endeach
