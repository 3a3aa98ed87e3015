//! The register file, the flags register, operand nibbles and page alignment.

use telda2::blf4::{Blf4Flags, ByteRegister, TrapMode, WideRegister};
use telda2::{align_end, align_start, U4};

use crate::cpu::*;
use crate::nd;
use crate::{assume, check, reach};

fn any_reg() -> u8 {
    let r = nd::u8();
    assume!(r < 16);
    r
}

/// Writes to one register, seen through all the others
fn write_wide(user: bool) {
    let mut pre = any_st();
    pre.f.user = false;
    let mut cpu = concrete(&pre);
    cpu.flags.user_mode = user;
    pre.f.user = user;
    let (r, v) = (any_reg(), nd::u16());
    let q = any_reg();
    let res = cpu.write_wr(WideRegister(U4::new(r)), v);
    let refused = user && r >= 14;
    match res {
        Ok(()) => {
            check!(!refused, "supervisor registers cannot be written in user mode");
        }
        Err(tm) => {
            check!(refused, "registers can be written");
            check!(
                tm_eq(tm, TrapMode::IllegalOperation),
                "writing a supervisor register is an illegal operation"
            );
        }
    }
    cpu.flags.user_mode = false;
    let mut spec = pre;
    if !refused {
        spec.ww(r, v);
    }
    match cpu.read_wr(WideRegister(U4::new(q))) {
        Ok(x) => {
            check!(x == spec.rw(q), "a write changes the register it names, only");
        }
        Err(_) => {
            check!(false, "registers can be read");
        }
    }
    check!(
        cpu.read_br(ByteRegister(U4::new(q))) == spec.rb(q),
        "byte registers are parts of wide registers"
    );
    check!(cpu.program_counter == pre.pc, "register writes leave the program counter alone");
    spec.f.user = false;
    check!(same_f(&from_flags(&cpu.flags), &spec.f), "register writes leave the flags alone");
    reach!(q == r && q != 0, "same register");
    reach!(q != r, "other register");
}
fn write_byte() {
    let mut pre = any_st();
    pre.f.user = false;
    let mut cpu = concrete(&pre);
    cpu.flags.user_mode = nd::bool();
    let (r, v) = (any_reg(), nd::u8());
    let q = any_reg();
    cpu.write_br(ByteRegister(U4::new(r)), v);
    let mut spec = pre;
    spec.wb(r, v);
    check!(
        cpu.read_br(ByteRegister(U4::new(q))) == spec.rb(q),
        "a byte write changes the byte register it names, only"
    );
    cpu.flags.user_mode = false;
    match cpu.read_wr(WideRegister(U4::new(q))) {
        Ok(x) => {
            check!(
                x == spec.rw(q),
                "a byte write changes its half of the wide register, or clears the upper half"
            );
        }
        Err(_) => {
            check!(false, "registers can be read");
        }
    }
    check!(cpu.program_counter == pre.pc, "register writes leave the program counter alone");
    check!(same_f(&from_flags(&cpu.flags), &pre.f), "register writes leave the flags alone");
    reach!(r > 10, "register with an upper half");
    reach!(r > 0 && r < 11, "half of a register");
}
fn read_wide() {
    let mut pre = any_st();
    pre.f.user = false;
    let mut cpu = concrete(&pre);
    let user = nd::bool();
    cpu.flags.user_mode = user;
    let q = any_reg();
    let refused = user && q >= 14;
    match cpu.read_wr(WideRegister(U4::new(q))) {
        Ok(x) => {
            check!(!refused, "supervisor registers cannot be read in user mode");
            check!(x == pre.rw(q), "registers hold what was written to them");
        }
        Err(tm) => {
            check!(
                refused && tm_eq(tm, TrapMode::IllegalOperation),
                "reading a supervisor register in user mode is an illegal operation"
            );
        }
    }
    // the named pointer registers are these registers
    check!(
        cpu.stack == pre.w[11]
            && cpu.link == pre.w[12]
            && cpu.frame == pre.w[13]
            && cpu.page == pre.w[14]
            && cpu.trap_handler == pre.w[15],
        "rs, rl, rf, rp and rh are registers b, c, d, e and f"
    );
    reach!(refused, "refused");
    reach!(!refused, "read");
}
fn flags() {
    let f = any_flags();
    let n: u16 = to_flags(f).into();
    let back: Blf4Flags = n.into();
    check!(same_f(&from_flags(&back), &f), "flags survive being pushed and popped");
    // every flag has a bit of its own
    let g = any_flags();
    let m: u16 = to_flags(g).into();
    check!(same_f(&f, &g) == (m == n), "different flags are different words");
    let any: Blf4Flags = nd::u16().into();
    let w: u16 = any.into();
    let again: Blf4Flags = w.into();
    check!(same_f(&from_flags(&any), &from_flags(&again)), "any word can be popped into the flags");
    reach!(n != m, "flags");
}
fn nibbles() {
    let n = nd::u8();
    let (a, b) = U4::paired(n);
    check!(u8::from(a) == n >> 4 && u8::from(b) == n & 15, "operand bytes split into nibbles");
    check!(a.pair(b) == n, "pairing is the inverse of splitting");
    let (x, y) = (any_reg(), any_reg());
    let (u, v) = U4::paired(U4::new(x).pair(U4::new(y)));
    check!(u8::from(u) == x && u8::from(v) == y, "splitting is the inverse of pairing");
    reach!(true, "nibbles");
}
fn align() {
    let addr = nd::u16();
    let k = nd::u8();
    assume!(k < 16);
    let al = 1u16 << k;
    let s = align_start(addr, al);
    check!(
        s & (al - 1) == 0 && s <= addr && addr - s < al,
        "align_start gives the last aligned address not above"
    );
    // there is no aligned address above when the last one is passed
    assume!(addr & (al - 1) == 0 || addr <= 0u16.wrapping_sub(al));
    if addr & (al - 1) == 0 {
        check!(align_end(addr, al) == addr, "aligned addresses are their own end");
    } else if addr < 0u16.wrapping_sub(al) {
        let e = align_end(addr, al);
        check!(
            e & (al - 1) == 0 && e >= addr && e - addr < al,
            "align_end gives the first aligned address not below"
        );
    }
    reach!(addr & (al - 1) == 0, "aligned");
    reach!(addr & (al - 1) != 0, "not aligned");
}

crate::proofs! {
    regs_write_wide_super, 18, [] { write_wide(false); }
    regs_write_wide_user, 18, [] { write_wide(true); }
    regs_write_byte, 18, [] { write_byte(); }
    regs_read_wide, 18, [] { read_wide(); }
    regs_flags, 18, [] { flags(); }
    regs_nibbles, 18, [] { nibbles(); }
    regs_align, 18, [] { align(); }
}
