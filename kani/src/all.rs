//! What holds of every opcode: no state makes the emulator itself fail, and no instruction
//! executed in user mode gains anything user mode does not have.
//!
//! Panics and arithmetic overflow are obligations Kani adds by itself.

use telda2::machine::Cpu;

use crate::cpu::*;
use crate::ins::any_env;
use crate::nd;
use crate::{assume, check, reach};

fn group(from: u8, to: u8, user: bool) {
    let mut pre = any_st();
    pre.f.user = user;
    // taking a trap is module `trap`'s
    pre.w[15] = 0;
    any_env(0, &pre, 4);
    let e = env();
    e.dcode = any_fault(&pre.f, RD);
    assume!(pre.f.vm || (e.ffault >= 4 && e.dfault as usize >= NACC));
    let mut i = 2;
    while i < NACC {
        // `reth`: what it pops from the stack, at most
        e.rd[i] = nd::u8();
        i += 1;
    }
    let fresh = concrete(&pre);
    let mut op = from;
    loop {
        let e = env();
        e.op = op;
        e.code[0] = op;
        e.n = 0;
        e.nfetch = 0;
        e.past_end = false;
        if op == 0x0d && !user {
            e.rd[0] = 0;
            e.rd[1] = 0;
        }
        let mut cpu = fresh.clone();
        let r = cpu.execute_instruction(&mut EnvMem::new());
        let e = env();
        if user {
            check!(cpu.page == pre.w[14], "user mode cannot change the page table pointer");
            check!(cpu.trap_handler == 0, "user mode cannot change the trap handler");
            check!(
                cpu.flags.virtual_mode == pre.f.vm,
                "user mode cannot switch address translation"
            );
            let mut phys = false;
            let mut i = 0;
            while i < 4 {
                phys = phys || (i < e.n && (e.kind[i] == PRD || e.kind[i] == PWR));
                i += 1;
            }
            check!(!phys, "user mode cannot access physical memory");
            if r.is_ok() {
                check!(cpu.flags.user_mode, "user mode is left by traps only");
            } else {
                check!(
                    cpu.flags.trap && !cpu.flags.user_mode,
                    "a trap is handled in supervisor mode, with the trap flag"
                );
            }
        } else if r.is_err() {
            check!(
                cpu.flags.trap && !cpu.flags.user_mode,
                "a trap is handled in supervisor mode, with the trap flag"
            );
        }
        check!(!e.past_end, "an instruction has at most four bytes");
        if op == from {
            reach!(r.is_err(), "trap");
        }
        if op == to {
            break;
        }
        op += 1;
    }
    reach!(true, "all of them");
}

macro_rules! groups {
    ($($name:ident = $e:expr;)*) => {
        crate::proofs!{$(
            $name, 36, [
                telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
                telda2::blf4::HandlerContext::read => crate::cpu::s_read,
                telda2::blf4::HandlerContext::write => crate::cpu::s_write,
            ] { $e; }
        )*}
    };
}
groups! {
    all_super_00 = group(0x00, 0x0f, false);
    all_super_10 = group(0x10, 0x1f, false);
    all_super_20 = group(0x20, 0x23, false);
    all_super_24 = group(0x24, 0x27, false);
    all_super_28 = group(0x28, 0x2b, false);
    all_super_2c = group(0x2c, 0x2f, false);
    all_super_30 = group(0x30, 0x3f, false);
    all_super_40 = group(0x40, 0x43, false);
    all_super_44 = group(0x44, 0x47, false);
    all_super_48 = group(0x48, 0x4b, false);
    all_super_4c = group(0x4c, 0x4f, false);
    all_super_50 = group(0x50, 0x51, false);
    all_super_52 = group(0x52, 0x52, false);
    all_super_53 = group(0x53, 0x54, false);
    all_super_55 = group(0x55, 0x5f, false);
    all_user_00 = group(0x00, 0x0f, true);
    all_user_10 = group(0x10, 0x1f, true);
    all_user_20 = group(0x20, 0x23, true);
    all_user_24 = group(0x24, 0x27, true);
    all_user_28 = group(0x28, 0x2b, true);
    all_user_2c = group(0x2c, 0x2f, true);
    all_user_30 = group(0x30, 0x3f, true);
    all_user_40 = group(0x40, 0x43, true);
    all_user_44 = group(0x44, 0x47, true);
    all_user_48 = group(0x48, 0x4b, true);
    all_user_4c = group(0x4c, 0x4f, true);
    all_user_50 = group(0x50, 0x51, true);
    all_user_52 = group(0x52, 0x52, true);
    all_user_53 = group(0x53, 0x54, true);
    all_user_55 = group(0x55, 0x5f, true);
}
