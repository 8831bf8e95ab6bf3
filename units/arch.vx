// Arch::target_description_xml
#[verifier::external_body]
pub struct AArch { v: u8 }
impl AArch {
    pub uninterp spec fn xml() -> Option<&'static str>;
    #[verifier::external_body]
    pub fn target_description_xml() -> (r: Option<&'static str>) ensures r == Self::xml() { unimplemented!() }
}
// Arch::lldb_register_info
impl AArch {
    pub uninterp spec fn lldb(n: usize) -> Option<RegisterInfo<'static>>;
    #[verifier::external_body]
    pub fn lldb_register_info(n: usize) -> (r: Option<RegisterInfo<'static>>) ensures r == Self::lldb(n), (r matches Some(RegisterInfo::Register(reg)) ==> reg.ok()) { unimplemented!() }
    pub open spec fn has_lldb() -> bool { Self::lldb(usize::MAX) is Some }
}
