//@ include prelude.vx
//@ include num.vx
//@ include intsnum.vx
//@ include rlespec.vx
//@ include slices.vx
//@ include conn.vx
//@ include hexspec.vx
//@ assume hex
//@ include hexfns.vx
//@ assume packet
//@ include packetfns.vx
//@ assume tids
//@ include tid.vx
//@ include tidfns.vx
//@ assume writer
//@ include writerfns.vx
//@ assume -
//@ include tgt.vx
//@ include arch.vx
//@ include cmdtrait.vx
//@ assume cmds
//@ include cmdsfns.vx
//@ assume cmds2
//@ include cmds2fns.vx
//@ assume cmds3
//@ include cmds3fns.vx
//@ assume base_res
//@ include opsfns.vx
//@ assume -
//@ include disptypes.vx
//@ include stubtypes.vx
//@ include replies.vx
//@ include corefns.vx
