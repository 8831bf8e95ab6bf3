//@ include stub.vx
//@ include bpfns.vx
