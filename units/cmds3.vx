//@ include prelude.vx
//@ include pktpre.vx
//@ include num.vx
//@ include ints.vx
//@ include hexspec.vx
//@ include slices.vx
//@ assume hex
//@ include hexfns.vx
//@ assume packet
//@ include packetfns.vx
//@ assume tids
//@ include tid.vx
//@ include tidfns.vx
//@ assume -
//@ include cmdpre.vx
//@ include cmdtrait.vx
//@ bitflags src/target/ext/host_io.rs HostIoOpenFlags
//@ bitflags src/target/ext/host_io.rs HostIoOpenMode
//@ item src/target/ext/host_io.rs FsKind
//@ include cmds3fns.vx
