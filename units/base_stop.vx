//@ include stub.vx
//@ assume base_thr
//@ include featfns.vx
//@ include thrfns.vx
//@ assume -
//@ assume base_res
//@ include opsfns.vx
//@ assume -
//@ include stopfns.vx
