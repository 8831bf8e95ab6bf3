pub type Pid = NonZeroUsize;
pub open spec fn oview(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { None => None, Some(s) => Some(s@) } }
