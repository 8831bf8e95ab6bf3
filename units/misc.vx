//@ include stub.vx
//@ include hexspec.vx
//@ assume hex
//@ include hexfns.vx
//@ assume tids
//@ include tidfns.vx
//@ assume base_res
//@ include opsfns.vx
//@ assume base_thr
//@ include featfns.vx
//@ assume -
//@ include replies.vx
//@ include miscfns.vx
