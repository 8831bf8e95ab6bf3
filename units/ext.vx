//@ include stub.vx
//@ include hexspec.vx
//@ assume hex
//@ include hexfns.vx
//@ assume base_thr
//@ include featfns.vx
//@ include thrfns.vx
//@ assume -
//@ include replies.vx
//@ include extfns.vx
