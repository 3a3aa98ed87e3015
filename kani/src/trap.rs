//! Trap entry and return, and what every step has to do whatever the opcode is.

use telda2::blf4::{HandlerContext, OpRes, TrapMode};
use telda2::machine::Cpu;

use crate::cpu::*;
use crate::ins::ins_len;
use crate::nd;
use crate::{assume, check, reach};

const FRAME: u16 = 32;

/// Contract of a `fetch` that faults
pub fn s_fetch_fault<'a: 'a>(c: &mut HandlerContext<'a>) -> OpRes<u8> {
    let e = env();
    e.nfetch += 1;
    check!(
        c.cpu.program_counter == e.start,
        "the opcode is fetched from the program counter"
    );
    c.cpu.program_counter = c.cpu.program_counter.wrapping_add(1);
    Err(e.fcode)
}
/// Contract of `write` when the frame of a trap is pushed: a write into memory, kept in `FMEM`
pub fn s_write_frame<'a: 'a>(_c: &mut HandlerContext<'a>, addr: u16, val: u8) -> OpRes<()> {
    let f = unsafe { &mut FR };
    let i = f.n;
    f.n += 1;
    if i == f.fault {
        return Err(f.code);
    }
    let off = addr.wrapping_sub(f.base);
    check!(off < FRAME, "a trap writes nothing but its frame on top of the stack");
    if off < FRAME {
        f.mem[off as usize] = val;
    }
    Ok(())
}
pub fn s_read_frame<'a: 'a>(_c: &mut HandlerContext<'a>, addr: u16) -> OpRes<u8> {
    let f = unsafe { &mut FR };
    let i = f.n;
    f.n += 1;
    if i == f.fault {
        return Err(f.code);
    }
    let off = addr.wrapping_sub(f.base);
    check!(off < FRAME, "returning from a trap reads nothing but the frame");
    Ok(if off < FRAME { f.mem[off as usize] } else { 0 })
}

pub struct Frame {
    base: u16,
    n: usize,
    fault: usize,
    code: TrapMode,
    mem: [u8; FRAME as usize],
}
pub static mut FR: Frame = Frame {
    base: 0,
    n: 0,
    fault: usize::MAX,
    code: TrapMode::Level1PageFault,
    mem: [0; FRAME as usize],
};

fn begin(op: u8, pre: &St) {
    let e = env();
    e.start = pre.pc;
    e.op = op;
    e.code = [op, 0, 0, 0];
    e.may_ffault = false;
    e.ffault = 255;
    e.n = 0;
    e.nfetch = 0;
    e.len = ins_len(op).max(1) as usize;
    e.page = pre.w[14];
    e.vm = pre.f.vm;
    e.past_end = false;
    let f = unsafe { &mut FR };
    f.base = pre.w[11].wrapping_sub(FRAME);
    f.n = 0;
    f.fault = usize::MAX;
}

/// A trap with a handler installed: `ensures` the frame is pushed, the handler is entered in
/// supervisor mode, everything not in the way of that is as it was.
fn entry_checks(pre: &St, post: &St, tm: TrapMode) {
    check!(post.pc == pre.w[15], "a trap sets the program counter to the trap handler");
    check!(post.w[1] == tm as u8 as u16, "a trap writes the trap mode to r1");
    check!(post.w[11] == pre.w[11].wrapping_sub(FRAME), "a trap pushes all registers");
    check!(post.f.trap, "a trap sets the trap flag");
    check!(!post.f.user, "a trap handler runs in supervisor mode");
    check!(
        post.f.vm == pre.f.vm
            && post.f.c == pre.f.c
            && post.f.s == pre.f.s
            && post.f.o == pre.f.o
            && post.f.z == pre.f.z
            && post.f.resv == pre.f.resv,
        "a trap leaves the other flags alone"
    );
    let mut i = 0;
    let mut same = true;
    while i < 16 {
        if i != 1 && i != 11 {
            same = same & (pre.w[i] == post.w[i]);
        }
        i += 1;
    }
    check!(same, "a trap leaves the other registers alone");
}

fn entry(op: u8, tm: TrapMode) {
    let pre = any_st();
    assume!(pre.w[15] != 0);
    begin(op, &pre);
    let mut cpu = concrete(&pre);
    let r = cpu.execute_instruction(&mut EnvMem::new());
    check!(r.is_ok(), "a trap is taken by the trap handler");
    entry_checks(&pre, &abstract_of(&cpu), tm);
    reach!(true, "trap entry");
}

/// The frame cannot be pushed: the fault stops the machine, with nothing half done that a
/// program could see.
fn entry_double() {
    let pre = any_st();
    assume!(pre.w[15] != 0);
    begin(0x0a, &pre);
    let f = unsafe { &mut FR };
    f.fault = (nd::u8() & 31) as usize;
    // the frame is pushed in supervisor mode
    f.code = any_fault(
        &Fl {
            user: false,
            ..pre.f
        },
        WR,
    );
    assume!(pre.f.vm);
    let code = f.code;
    let mut cpu = concrete(&pre);
    let r = cpu.execute_instruction(&mut EnvMem::new());
    match r {
        Ok(()) => {
            check!(false, "a trap whose frame cannot be pushed is not taken");
        }
        Err(tm) => {
            check!(tm_eq(tm, code), "the machine stops with the fault of the frame");
        }
    }
    let post = abstract_of(&cpu);
    check!(post.f.vm == pre.f.vm && post.w[14] == pre.w[14] && post.w[15] == pre.w[15],
        "a trap whose frame cannot be pushed changes no supervisor register");
    reach!(true, "double fault");
}

/// A trap, any handler that puts the stack pointer back and leaves the frame alone, then `reth`.
/// `now`: what the code does now for the program counter and the user mode flag, which the
/// frame does not hold as it should (a known finding).
fn round_trip(now: bool) {
    let pre = any_st();
    assume!(pre.w[15] != 0);
    begin(0x0c, &pre);
    let mut cpu = concrete(&pre);
    let r = cpu.execute_instruction(&mut EnvMem::new());
    check!(r.is_ok(), "a trap is taken by the trap handler");
    let mid = abstract_of(&cpu);

    // the handler does anything
    let mut hs = any_st();
    hs.w[11] = mid.w[11];
    hs.f.user = false;
    hs.f.trap = true;
    let e = env();
    e.start = hs.pc;
    e.op = 0x0d;
    e.nfetch = 0;
    unsafe { FR.n = 0 };
    let mut cpu = concrete(&hs);
    let r = cpu.execute_instruction(&mut EnvMem::new());
    check!(r.is_ok(), "reth returns from a trap handler");
    let post = abstract_of(&cpu);
    check!(same_w(&post, &pre), "reth restores all registers");
    check!(
        post.f.vm == pre.f.vm
            && post.f.c == pre.f.c
            && post.f.s == pre.f.s
            && post.f.o == pre.f.o
            && post.f.z == pre.f.z
            && post.f.resv == pre.f.resv,
        "reth restores the flags"
    );
    check!(!post.f.trap, "reth clears the trap flag");
    if now {
        check!(
            post.pc == hs.pc.wrapping_add(1) || post.pc == pre.pc.wrapping_add(1),
            "reth continues after itself, or at the trapped program"
        );
        check!(
            !post.f.user || pre.f.user,
            "reth does not invent user mode"
        );
    } else {
        check!(post.pc == pre.pc.wrapping_add(1), "reth continues the trapped program");
        check!(post.f.user == pre.f.user, "reth restores user mode");
    }
    reach!(true, "round trip");
}

/// `reth` outside of a trap handler, and `reth` in user mode
fn reth_refused() {
    let pre = any_st();
    assume!(pre.w[15] == 0);
    begin(0x0d, &pre);
    let user = nd::bool();
    assume!(if user { pre.f.user } else { !pre.f.trap });
    let f = unsafe { &mut FR };
    f.base = pre.w[11];
    let mut i = 0;
    while i < FRAME as usize {
        f.mem[i] = nd::u8();
        i += 1;
    }
    let mut cpu = concrete(&pre);
    let r = cpu.execute_instruction(&mut EnvMem::new());
    let post = abstract_of(&cpu);
    match r {
        Ok(()) => {
            check!(false, "reth needs the trap flag and supervisor mode");
        }
        Err(tm) => {
            if !pre.f.trap {
                check!(
                    tm_eq(tm, TrapMode::IllegalHandlerReturn)
                        || (pre.f.user && tm_eq(tm, TrapMode::IllegalOperation)),
                    "reth outside of a trap handler triggers the illegal handler return trap"
                );
            } else {
                check!(
                    tm_eq(tm, TrapMode::IllegalOperation),
                    "reth in user mode is an illegal operation"
                );
            }
        }
    }
    check!(post.f.vm == pre.f.vm, "a refused reth does not change the addressing mode");
    check!(
        post.w[14] == pre.w[14] && post.w[15] == pre.w[15],
        "a refused reth does not change supervisor registers"
    );
    if !pre.f.trap {
        check!(same_w(&post, &pre), "a refused reth changes no register");
    }
    reach!(pre.f.trap, "in user mode");
    reach!(!pre.f.trap, "not in a trap handler");
}

/// The stack faults under `reth`
fn reth_fault() {
    let pre = any_st();
    assume!(pre.w[15] == 0 && pre.f.trap && !pre.f.user && pre.f.vm);
    begin(0x0d, &pre);
    let f = unsafe { &mut FR };
    f.base = pre.w[11];
    f.fault = (nd::u8() & 7) as usize;
    f.code = any_fault(&pre.f, RD);
    let code = f.code;
    let mut i = 0;
    while i < FRAME as usize {
        f.mem[i] = nd::u8();
        i += 1;
    }
    // the handler register is popped first; it stays without a handler
    f.mem[0] = 0;
    f.mem[1] = 0;
    let mut cpu = concrete(&pre);
    let r = cpu.execute_instruction(&mut EnvMem::new());
    match r {
        Ok(()) => {
            check!(false, "reth with a faulting stack traps");
        }
        Err(tm) => {
            check!(tm_eq(tm, code), "reth with a faulting stack triggers that fault");
        }
    }
    reach!(true, "fault");
}

/// The opcode itself cannot be fetched
fn fetch_fault(handler: bool) {
    let mut pre = any_st();
    if handler {
        assume!(pre.w[15] != 0);
    } else {
        pre.w[15] = 0;
    }
    begin(0x20, &pre);
    let e = env();
    e.fcode = any_fault(&pre.f, EX);
    e.ffault = 0;
    assume!(pre.f.vm);
    let code = e.fcode;
    let mut cpu = concrete(&pre);
    let r = cpu.execute_instruction(&mut EnvMem::new());
    let post = abstract_of(&cpu);
    if handler {
        check!(r.is_ok(), "a fault of the opcode fetch is taken by the trap handler");
        entry_checks(&pre, &post, code);
        reach!(true, "trap entry");
    } else {
        match r {
            Ok(()) => {
                check!(false, "a fault of the opcode fetch traps");
            }
            Err(tm) => {
                check!(tm_eq(tm, code), "without a trap handler the machine stops with the trap");
            }
        }
        check!(unsafe { FR.n } == 0, "without a trap handler nothing is pushed");
        check!(same_w(&pre, &post), "without a trap handler no register changes");
        reach!(true, "no handler");
    }
}

/// Opcodes that do not exist trigger the invalid trap and do nothing
/// For all of them: the one looked at afterwards is any of them.
fn undefined(from: u8, to: u8) {
    let mut pre = any_st();
    pre.w[15] = 0;
    let pick = nd::u8();
    assume!(pick >= from && pick <= to && ins_len(pick) == 0);
    let fresh = concrete(&pre);
    let mut picked = fresh.clone();
    let mut op = from;
    loop {
        if ins_len(op) == 0 {
            begin(op, &pre);
            let mut cpu = fresh.clone();
            let r = cpu.execute_instruction(&mut EnvMem::new());
            match r {
                Ok(()) => {
                    check!(false, "an opcode that does not exist traps");
                }
                Err(tm) => {
                    check!(
                        tm_eq(tm, TrapMode::Invalid),
                        "an opcode that does not exist triggers the invalid instruction trap"
                    );
                }
            }
            check!(env().n == 0, "an opcode that does not exist accesses no memory");
            if op == pick {
                picked = cpu;
            }
        }
        if op == to {
            break;
        }
        op += 1;
    }
    let post = abstract_of(&picked);
    check!(
        same_w(&pre, &post) && post.f.vm == pre.f.vm,
        "an opcode that does not exist does nothing"
    );
    reach!(true, "all of them");
}

crate::proofs! {
    trap_entry_halt, 33, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { entry(0x0a, TrapMode::Halt); }
    trap_entry_syscall, 33, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { entry(0x0c, TrapMode::SysCall); }
    trap_entry_invalid, 33, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { entry(0x00, TrapMode::Invalid); }
    trap_entry_double, 33, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { entry_double(); }
    trap_round_trip, 33, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { round_trip(false); }
    trap_round_trip_now, 33, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { round_trip(true); }
    trap_reth_refused, 33, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { reth_refused(); }
    trap_reth_fault, 33, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { reth_fault(); }
    trap_fetch_fault, 33, [
        telda2::blf4::HandlerContext::fetch => crate::trap::s_fetch_fault,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { fetch_fault(true); }
    trap_fetch_fault_stop, 33, [
        telda2::blf4::HandlerContext::fetch => crate::trap::s_fetch_fault,
        telda2::blf4::HandlerContext::read => crate::trap::s_read_frame,
        telda2::blf4::HandlerContext::write => crate::trap::s_write_frame,
    ] { fetch_fault(false); }
    undef_0, 66, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::cpu::s_read,
        telda2::blf4::HandlerContext::write => crate::cpu::s_write,
    ] { undefined(0, 63); }
    undef_1, 66, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::cpu::s_read,
        telda2::blf4::HandlerContext::write => crate::cpu::s_write,
    ] { undefined(64, 127); }
    undef_2, 66, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::cpu::s_read,
        telda2::blf4::HandlerContext::write => crate::cpu::s_write,
    ] { undefined(128, 191); }
    undef_3, 66, [
        telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
        telda2::blf4::HandlerContext::read => crate::cpu::s_read,
        telda2::blf4::HandlerContext::write => crate::cpu::s_write,
    ] { undefined(192, 255); }
}
