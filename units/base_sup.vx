//@ include stub.vx
//@ include hexspec.vx
//@ assume base_thr
//@ include featfns.vx
//@ assume base_res
//@ include opsfns.vx
//@ assume -
//@ include arch.vx
//@ include replies.vx
//@ include supfns.vx
