//! The emulated kernel: what it answers to a trap of a user program.

use telda2::blf4::std_kernel::{verif, EKernel};
use telda2::blf4::{HandlerContext, TrapMode};
use telda2::machine::EmulatedKernel;
use telda2::mem::MainMemory;

use crate::cpu::*;
use crate::nd;
use crate::{assume, check, reach};

/// Memory that only keeps track of what is accessed
struct Port {
    nr: usize,
    ra: u32,
    rv: u8,
    nw: usize,
    wa: u32,
    wv: u8,
    /// the page tables are printed
    shown: bool,
}
impl MainMemory for Port {
    fn read(&mut self, addr: u32) -> u8 {
        if self.shown {
            return 0;
        }
        self.nr += 1;
        self.ra = addr;
        self.rv
    }
    fn write(&mut self, addr: u32, v: u8) {
        self.nw += 1;
        self.wa = addr;
        self.wv = v;
    }
}
static mut SHOWN: u8 = 0;
/// It prints the page tables and changes nothing (it has no specification beyond that)
fn s_print<'a: 'a>(_: &mut HandlerContext<'a>) {
    unsafe { SHOWN += 1 }
}

fn any_tm() -> TrapMode {
    match nd::u8() % 11 {
        0 => TrapMode::Invalid,
        1 => TrapMode::SysCall,
        2 => TrapMode::ZeroDiv,
        3 => TrapMode::Halt,
        4 => TrapMode::Level1PageFault,
        5 => TrapMode::Level2PageFault,
        6 => TrapMode::IllegalOperation,
        7 => TrapMode::IllegalRead,
        8 => TrapMode::IllegalWrite,
        9 => TrapMode::IllegalExecute,
        _ => TrapMode::IllegalHandlerReturn,
    }
}

fn handle() {
    let pre = any_st();
    // a trap has just been entered (C09)
    assume!(pre.f.trap && !pre.f.user);
    let tm = any_tm();
    let (eh, bump, free) = (nd::u16(), nd::u32(), if nd::bool() { Some(nd::u32()) } else { None });
    let mut k = verif::kernel(eh, bump, free);
    let mut mem = Port { nr: 0, ra: 0, rv: nd::u8(), nw: 0, wa: 0, wv: 0, shown: tm_eq(tm, TrapMode::SysCall) && pre.w[1] == 0 };
    let rv = mem.rv;
    unsafe { SHOWN = 0 }
    let mut cpu = concrete(&pre);
    let r = k.handle_trap(tm, &mut cpu, &mut mem);
    let post = abstract_of(&cpu);
    let (eh2, bump2, free2) = verif::parts(&k);
    check!(bump2 == bump && free2 == free, "handling a trap allocates no memory");

    let call = if tm_eq(tm, TrapMode::SysCall) { pre.w[1] } else { 0xffff };
    let catches = !tm_eq(tm, TrapMode::SysCall) && !tm_eq(tm, TrapMode::Halt) && eh != 0;
    let known = tm_eq(tm, TrapMode::SysCall) && (call == 0 || call == 3 || call == 4 || call == 15);
    match r {
        Ok(()) => {
            check!(known || catches, "halt, unknown system calls and faults without an error handler stop the program");
            check!(post.f.user && !post.f.trap, "the program goes on in user mode");
        }
        Err(e) => {
            check!(!known && !catches, "known system calls and faults with an error handler are handled");
            check!(tm_eq(e, tm), "a program that is stopped reports its trap");
            check!(same_f(&pre.f, &post.f), "a program that is stopped keeps its flags");
        }
    }
    // the specification
    let mut w = pre.w;
    let mut pc = pre.pc;
    let mut eh3 = eh;
    if call == 3 {
        w[1] = pre.w[1] & 0xff00 | rv as u16;
    } else if call == 15 {
        eh3 = pre.w[2];
    } else if catches {
        w[1] = tm as u8 as u16;
        pc = eh;
    }
    let mut same = true;
    let mut i = 0;
    while i < 16 {
        same = same & (i == 1 || w[i] == post.w[i]);
        i += 1;
    }
    check!(same, "the kernel changes no register but r1");
    check!(w[1] == post.w[1], "r1 gets the byte read, or the trap mode");
    check!(pc == post.pc, "the program goes on after its system call, or at its error handler");
    check!(eh3 == eh2, "system call 15 sets the error handler, nothing else does");
    check!(
        pre.f.vm == post.f.vm && pre.f.c == post.f.c && pre.f.s == post.f.s && pre.f.o == post.f.o && pre.f.z == post.f.z
            && pre.f.resv == post.f.resv,
        "the kernel leaves the other flags alone"
    );
    check!(mem.nr == if call == 3 { 1 } else { 0 } && (call != 3 || mem.ra == 1), "system call 3 reads port 1 once, no other reads");
    check!(mem.nw == if call == 4 { 1 } else { 0 } && (call != 4 || mem.wa == 1 && mem.wv == lo(pre.w[2])),
        "system call 4 writes the low byte of r2 to port 1 once, no other writes");
    #[cfg(kani)]
    unsafe {
        check!(SHOWN == if call == 0 { 1 } else { 0 }, "system call 0 shows the memory map");
    }
    reach!(call == 3, "read");
    reach!(call == 4, "write");
    reach!(call == 15, "error handler is set");
    reach!(catches, "error handler is called");
    reach!(call == 1, "unknown system call");
}

fn fresh() {
    let k = EKernel::new();
    let (eh, _, free) = verif::parts(&k);
    check!(eh == 0 && free.is_none(), "there is no error handler at first");
    reach!(true, "new kernel");
}

crate::proofs! {
    syscall_handle, 20, [telda2::blf4::HandlerContext::print_mmap => s_print] {
        handle();
    }
    syscall_new, 4, [] {
        fresh();
    }
}
