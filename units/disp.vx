//@ include prelude.vx
//@ include pktpre.vx
//@ include num.vx
//@ include ints.vx
//@ include hexspec.vx
//@ include slices.vx
//@ assume hex
//@ include hexfns.vx
//@ assume packet
//@ include packetfns.vx
//@ assume tids
//@ include tid.vx
//@ include tidfns.vx
//@ assume -
pub uninterp spec fn plain(s: Seq<u8>) -> bool;
//@ include tgt.vx
//@ include arch.vx
//@ include cmdtrait.vx
//@ assume cmds
//@ include cmdsfns.vx
//@ assume cmds2
//@ include cmds2fns.vx
//@ assume cmds3
//@ include cmds3fns.vx
//@ assume -
//@ assume base_res
//@ include opsfns.vx
//@ assume -
//@ include dispfns.vx
