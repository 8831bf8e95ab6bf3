// ---- assumed contract: Connection (the user's transport) --------------------------
// out(): every byte successfully written so far.  flush does not add or drop bytes.
// broken(): some write or flush has failed.
pub trait Connection {
    type Error;
    spec fn out(&self) -> Seq<u8>;
    spec fn broken(&self) -> bool;
    // nothing written is left in a buffer
    spec fn flushed(&self) -> bool;
    fn write(&mut self, byte: u8) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out().push(byte), final(self).broken() == (old(self).broken() || r is Err);
    fn flush(&mut self) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() && final(self).flushed(), final(self).broken() == (old(self).broken() || r is Err);
    fn on_session_start(&mut self) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out(), final(self).broken() == (old(self).broken() || r is Err);
}
