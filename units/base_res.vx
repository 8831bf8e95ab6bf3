//@ include stub.vx
//@ include hexspec.vx
//@ assume hex
//@ include hexfns.vx
//@ assume tids
//@ include tidfns.vx
//@ include cmdspec.vx
//@ assume cmds2
//@ include vcontfns.vx
//@ assume -
//@ include opsfns.vx
//@ include resfns.vx
