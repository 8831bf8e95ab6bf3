//@ include stub.vx
//@ include hexspec.vx
//@ assume hex
//@ include hexfns.vx
//@ assume -
//@ include replies.vx
//@ include arch.vx
pub mod _qRegisterInfo { use super::*;
//@ item src/protocol/commands/_qRegisterInfo.rs qRegisterInfo
}
//@ item @expanded mod protocol / mod commands / mod ext / LldbRegisterInfo
//@ include lldbfns.vx
