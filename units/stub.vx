//@ include prelude.vx
//@ include num.vx
//@ include rlespec.vx
//@ include slices.vx
//@ include conn.vx
//@ include tid.vx
//@ assume writer
//@ include writerfns.vx
//@ assume -
//@ include tgt.vx
//@ include stubtypes.vx
