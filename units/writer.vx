//@ include prelude.vx
//@ include num.vx
//@ include rlespec.vx
//@ include conn.vx
//@ include tid.vx
//@ include writerfns.vx
