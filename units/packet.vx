//@ include prelude.vx
//@ include pktpre.vx
//@ include num.vx
//@ include ints.vx
//@ include hexspec.vx
//@ include slices.vx
//@ assume hex
//@ include hexfns.vx
//@ assume -
//@ include packetfns.vx
// asked(): only support_*/use_* questions were put to it since
pub trait Target: Sized {
    spec fn asked(&self, o: &Self) -> bool;
    proof fn asked_refl(&self) ensures self.asked(self);
}
//@ include packet2fns.vx
