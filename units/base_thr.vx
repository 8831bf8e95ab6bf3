//@ include stub.vx
//@ include featfns.vx
//@ include thrfns.vx
