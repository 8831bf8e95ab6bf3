//@ include prelude.vx
//@ include num.vx
//@ include hexspec.vx
//@ include hexfns.vx
