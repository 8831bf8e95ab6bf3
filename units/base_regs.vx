//@ include stub.vx
//@ include regfns.vx
