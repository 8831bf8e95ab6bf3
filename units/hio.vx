//@ include stub.vx
//@ include replies.vx
//@ include hiofns.vx
