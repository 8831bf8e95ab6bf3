// ---- the commands (written by tools/gen_disp.py)
pub mod _qXfer_features_read { use super::*;
//@ item src/protocol/commands/_qXfer_features_read.rs qXferFeaturesRead
}
pub mod _qXfer_memory_map { use super::*;
//@ item src/protocol/commands/_qXfer_memory_map.rs qXferMemoryMapRead
}
pub mod _qXfer_auxv_read { use super::*;
//@ item src/protocol/commands/_qXfer_auxv_read.rs qXferAuxvRead
}
pub mod _qXfer_exec_file { use super::*;
//@ item src/protocol/commands/_qXfer_exec_file.rs qXferExecFileRead
}
pub mod _vFile_open { use super::*;
pub use super::vFileOpen;
}
pub mod _vFile_close { use super::*;
pub use super::vFileClose;
}
pub mod _vFile_pread { use super::*;
pub use super::vFilePread;
}
pub mod _vFile_pwrite { use super::*;
pub use super::vFilePwrite;
}
pub mod _vFile_fstat { use super::*;
pub use super::vFileFstat;
}
pub mod _vFile_unlink { use super::*;
pub use super::vFileUnlink;
}
pub mod _vFile_readlink { use super::*;
pub use super::vFileReadlink;
}
pub mod _vFile_setfs { use super::*;
pub use super::vFileSetfs;
}
pub mod _qXfer_libraries_svr4_read { use super::*;
//@ item src/protocol/commands/_qXfer_libraries_svr4_read.rs qXferLibrariesSvr4Read
}
//@ item src/protocol/commands/breakpoint.rs BytecodeList
//@ item src/protocol/commands/breakpoint.rs BytecodeBreakpoint
pub mod breakpoint { pub use super::BasicBreakpoint; pub use super::BytecodeBreakpoint; }
pub mod ext { use super::*;
//@ item @expanded mod protocol / mod commands / mod ext / Base
//@ item @expanded mod protocol / mod commands / mod ext / TargetXml
//@ item @expanded mod protocol / mod commands / mod ext / Resume
//@ item @expanded mod protocol / mod commands / mod ext / XUpcasePacket
//@ item @expanded mod protocol / mod commands / mod ext / NoAckMode
//@ item @expanded mod protocol / mod commands / mod ext / SingleRegisterAccess
//@ item @expanded mod protocol / mod commands / mod ext / ExtendedMode
//@ item @expanded mod protocol / mod commands / mod ext / MonitorCmd
//@ item @expanded mod protocol / mod commands / mod ext / SectionOffsets
//@ item @expanded mod protocol / mod commands / mod ext / ReverseCont
//@ item @expanded mod protocol / mod commands / mod ext / ReverseStep
//@ item @expanded mod protocol / mod commands / mod ext / MemoryMap
//@ item @expanded mod protocol / mod commands / mod ext / Auxv
//@ item @expanded mod protocol / mod commands / mod ext / ExecFile
//@ item @expanded mod protocol / mod commands / mod ext / HostIo
//@ item @expanded mod protocol / mod commands / mod ext / CatchSyscalls
//@ item @expanded mod protocol / mod commands / mod ext / ThreadExtraInfo
//@ item @expanded mod protocol / mod commands / mod ext / LldbRegisterInfo
//@ item @expanded mod protocol / mod commands / mod ext / LibrariesSvr4
//@ item @expanded mod protocol / mod commands / mod ext / Tracepoints
//@ item @expanded mod protocol / mod commands / mod ext / Breakpoints
}
//@ item @expanded mod protocol / mod commands / Command
