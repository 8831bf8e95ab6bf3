//@ include prelude.vx
//@ include num.vx
//@ include ints.vx
//@ include hexspec.vx
//@ include slices.vx
//@ assume hex
//@ include hexfns.vx
//@ assume -
//@ include tid.vx
//@ include tidfns.vx
