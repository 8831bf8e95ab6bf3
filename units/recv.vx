//@ include prelude.vx
//@ include recvfns.vx
