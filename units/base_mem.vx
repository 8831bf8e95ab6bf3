//@ include stub.vx
//@ include memfns.vx
