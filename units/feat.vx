//@ include stub.vx
//@ include featfns.vx
