//@ each T M = u8 255 ; u32 4294967295 ; u64 18446744073709551615 ; usize 18446744073709551615
impl VxInt for @T@ {
    open spec fn val(self) -> int { self as int }
    open spec fn maxv() -> int { @M@ }
}
//@ endeach
//@ include intsnum.vx
