//@ include prelude.vx
//@ include num.vx
//@ include rlespec.vx
//@ include slices.vx
//@ include conn.vx
//@ include tid.vx
//@ assume writer
//@ include writerfns.vx
//@ assume -
//@ include tgttp.vx
//@ include stubtypes.vx
//@ include hexspec.vx
//@ assume hex
//@ include hexfns.vx
//@ assume -
//@ include replies.vx
//@ include tracefns.vx
//@ include tracehfns.vx
