pub open spec fn hexn(s: Seq<u8>, max: int) -> Option<nat> { if s.len() > 0 && all_hex(s) && hexnum(s) <= max { Some(hexnum(s)) } else { None } }
pub open spec fn hexusize(s: Seq<u8>) -> Option<nat> { hexn(s, usize::MAX as int) }
pub open spec fn hexpid(s: Seq<u8>) -> Option<nat> { match hexusize(s) { Some(n) => if n == 0 { None } else { Some(n) }, None => None } }
pub open spec fn hexdata(s: Seq<u8>) -> Option<Seq<u8>> { if all_hex(s) { Some(hexbytes(s)) } else { None } }
pub open spec fn opid(o: Option<NonZeroUsize>) -> Option<nat> { match o { None => None, Some(s) => Some(s@ as nat) } }
// ":0" / ":1"
pub open spec fn onoff(s: Seq<u8>) -> Option<bool> { if s.len() == 2 && s[0] == 0x3a && (s[1] == 0x30 || s[1] == 0x31) { Some(s[1] == 0x31) } else { None } }
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (r: Result<T, E>, d: T) -> (x: T)
    where E: core::marker::Destruct, T: core::marker::Destruct,
    ensures x == (match r { Ok(v) => v, Err(_) => d });
// ':' / ',' / ';' in front of hex data
pub open spec fn after(s: Seq<u8>, c: u8) -> Option<Seq<u8>> { if s.len() > 0 && s[0] == c { Some(s.skip(1)) } else { None } }
pub open spec fn nonempty(s: Seq<u8>) -> Option<Seq<u8>> { if s.len() == 0 { None } else { Some(s) } }
