//@ include prelude.vx
//@ item src/common/signal.rs Signal
//@ impl src/common/signal.rs Signal
//@ const *
//@ endimpl
// the numbers of gdb's include/gdb/signals.def, in its order
pub proof fn signal_numbers()
    ensures
        Signal::SIGZERO.0 == 0,
        Signal::SIGHUP.0 == 1,
        Signal::SIGINT.0 == 2,
        Signal::SIGQUIT.0 == 3,
        Signal::SIGILL.0 == 4,
        Signal::SIGTRAP.0 == 5,
        Signal::SIGABRT.0 == 6,
        Signal::SIGEMT.0 == 7,
        Signal::SIGFPE.0 == 8,
        Signal::SIGKILL.0 == 9,
        Signal::SIGBUS.0 == 10,
        Signal::SIGSEGV.0 == 11,
        Signal::SIGSYS.0 == 12,
        Signal::SIGPIPE.0 == 13,
        Signal::SIGALRM.0 == 14,
        Signal::SIGTERM.0 == 15,
        Signal::SIGURG.0 == 16,
        Signal::SIGSTOP.0 == 17,
        Signal::SIGTSTP.0 == 18,
        Signal::SIGCONT.0 == 19,
        Signal::SIGCHLD.0 == 20,
        Signal::SIGTTIN.0 == 21,
        Signal::SIGTTOU.0 == 22,
        Signal::SIGIO.0 == 23,
        Signal::SIGXCPU.0 == 24,
        Signal::SIGXFSZ.0 == 25,
        Signal::SIGVTALRM.0 == 26,
        Signal::SIGPROF.0 == 27,
        Signal::SIGWINCH.0 == 28,
        Signal::SIGLOST.0 == 29,
        Signal::SIGUSR1.0 == 30,
        Signal::SIGUSR2.0 == 31,
        Signal::SIGPWR.0 == 32,
        Signal::SIGPOLL.0 == 33,
        Signal::SIGWIND.0 == 34,
        Signal::SIGPHONE.0 == 35,
        Signal::SIGWAITING.0 == 36,
        Signal::SIGLWP.0 == 37,
        Signal::SIGDANGER.0 == 38,
        Signal::SIGGRANT.0 == 39,
        Signal::SIGRETRACT.0 == 40,
        Signal::SIGMSG.0 == 41,
        Signal::SIGSOUND.0 == 42,
        Signal::SIGSAK.0 == 43,
        Signal::SIGPRIO.0 == 44,
        Signal::SIG33.0 == 45,
        Signal::SIG34.0 == 46,
        Signal::SIG35.0 == 47,
        Signal::SIG36.0 == 48,
        Signal::SIG37.0 == 49,
        Signal::SIG38.0 == 50,
        Signal::SIG39.0 == 51,
        Signal::SIG40.0 == 52,
        Signal::SIG41.0 == 53,
        Signal::SIG42.0 == 54,
        Signal::SIG43.0 == 55,
        Signal::SIG44.0 == 56,
        Signal::SIG45.0 == 57,
        Signal::SIG46.0 == 58,
        Signal::SIG47.0 == 59,
        Signal::SIG48.0 == 60,
        Signal::SIG49.0 == 61,
        Signal::SIG50.0 == 62,
        Signal::SIG51.0 == 63,
        Signal::SIG52.0 == 64,
        Signal::SIG53.0 == 65,
        Signal::SIG54.0 == 66,
        Signal::SIG55.0 == 67,
        Signal::SIG56.0 == 68,
        Signal::SIG57.0 == 69,
        Signal::SIG58.0 == 70,
        Signal::SIG59.0 == 71,
        Signal::SIG60.0 == 72,
        Signal::SIG61.0 == 73,
        Signal::SIG62.0 == 74,
        Signal::SIG63.0 == 75,
        Signal::SIGCANCEL.0 == 76,
        Signal::SIG32.0 == 77,
        Signal::SIG64.0 == 78,
        Signal::SIG65.0 == 79,
        Signal::SIG66.0 == 80,
        Signal::SIG67.0 == 81,
        Signal::SIG68.0 == 82,
        Signal::SIG69.0 == 83,
        Signal::SIG70.0 == 84,
        Signal::SIG71.0 == 85,
        Signal::SIG72.0 == 86,
        Signal::SIG73.0 == 87,
        Signal::SIG74.0 == 88,
        Signal::SIG75.0 == 89,
        Signal::SIG76.0 == 90,
        Signal::SIG77.0 == 91,
        Signal::SIG78.0 == 92,
        Signal::SIG79.0 == 93,
        Signal::SIG80.0 == 94,
        Signal::SIG81.0 == 95,
        Signal::SIG82.0 == 96,
        Signal::SIG83.0 == 97,
        Signal::SIG84.0 == 98,
        Signal::SIG85.0 == 99,
        Signal::SIG86.0 == 100,
        Signal::SIG87.0 == 101,
        Signal::SIG88.0 == 102,
        Signal::SIG89.0 == 103,
        Signal::SIG90.0 == 104,
        Signal::SIG91.0 == 105,
        Signal::SIG92.0 == 106,
        Signal::SIG93.0 == 107,
        Signal::SIG94.0 == 108,
        Signal::SIG95.0 == 109,
        Signal::SIG96.0 == 110,
        Signal::SIG97.0 == 111,
        Signal::SIG98.0 == 112,
        Signal::SIG99.0 == 113,
        Signal::SIG100.0 == 114,
        Signal::SIG101.0 == 115,
        Signal::SIG102.0 == 116,
        Signal::SIG103.0 == 117,
        Signal::SIG104.0 == 118,
        Signal::SIG105.0 == 119,
        Signal::SIG106.0 == 120,
        Signal::SIG107.0 == 121,
        Signal::SIG108.0 == 122,
        Signal::SIG109.0 == 123,
        Signal::SIG110.0 == 124,
        Signal::SIG111.0 == 125,
        Signal::SIG112.0 == 126,
        Signal::SIG113.0 == 127,
        Signal::SIG114.0 == 128,
        Signal::SIG115.0 == 129,
        Signal::SIG116.0 == 130,
        Signal::SIG117.0 == 131,
        Signal::SIG118.0 == 132,
        Signal::SIG119.0 == 133,
        Signal::SIG120.0 == 134,
        Signal::SIG121.0 == 135,
        Signal::SIG122.0 == 136,
        Signal::SIG123.0 == 137,
        Signal::SIG124.0 == 138,
        Signal::SIG125.0 == 139,
        Signal::SIG126.0 == 140,
        Signal::SIG127.0 == 141,
        Signal::SIGINFO.0 == 142,
        Signal::UNKNOWN.0 == 143,
        Signal::INTERNAL_DEFAULT.0 == 144,
        Signal::EXC_BAD_ACCESS.0 == 145,
        Signal::EXC_BAD_INSTRUCTION.0 == 146,
        Signal::EXC_ARITHMETIC.0 == 147,
        Signal::EXC_EMULATION.0 == 148,
        Signal::EXC_SOFTWARE.0 == 149,
        Signal::EXC_BREAKPOINT.0 == 150,
        Signal::SIGLIBRT.0 == 151,
{}
