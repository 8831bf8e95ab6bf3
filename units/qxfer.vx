//@ include stub.vx
//@ include replies.vx
//@ include arch.vx
//@ include qxferfns.vx
