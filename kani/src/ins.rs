//! One proof per instruction: `requires` any state, any operand bytes, any answers of the
//! instruction stream and the memory; `ensures` the step does what README.md says and nothing
//! else. The real `execute_instruction` runs, checked against the contracts of the memory access
//! functions (`cpu::s_fetch`, ...) instead of their bodies.

use telda2::blf4::isa;
use telda2::blf4::TrapMode;
use telda2::machine::Cpu;

use crate::cpu::*;
use crate::nd;
use crate::{assume, check, reach};

pub const F_INVALID: u8 = 1;
pub const F_ILLEGAL: u8 = 2;
pub const F_ZERODIV: u8 = 4;
pub const F_HALT: u8 = 8;
pub const F_SYSCALL: u8 = 16;
pub const F_IHR: u8 = 32;

/// What the README says one instruction does
#[derive(Clone, Copy)]
pub struct Out {
    /// size of the whole instruction
    pub len: u8,
    /// the traps this instruction triggers by itself
    pub faults: u8,
    /// data accesses in order
    pub n: u8,
    pub kind: [u8; 2],
    pub addr: [u32; 2],
    pub val: [u8; 2],
    /// the state afterwards, if it does not trap
    pub post: St,
    /// wide registers that may have been written when it traps (0: none)
    pub dirty: u8,
    /// the arithmetic flags may have been set when it traps
    pub aluflags: bool,
}

fn acc(o: &mut Out, kind: u8, addr: u32, val: u8) {
    o.kind[o.n as usize] = kind;
    o.addr[o.n as usize] = addr;
    o.val[o.n as usize] = val;
    o.n += 1;
}
fn store_b(o: &mut Out, a: u16, v: u8) {
    acc(o, WR, a as u32, v);
}
fn store_w(o: &mut Out, a: u16, v: u16) {
    acc(o, WR, a as u32, lo(v));
    acc(o, WR, a.wrapping_add(1) as u32, hi(v));
}
fn load_b(o: &mut Out, a: u16) {
    acc(o, RD, a as u32, 0);
}
fn load_w(o: &mut Out, a: u16) {
    acc(o, RD, a as u32, 0);
    acc(o, RD, a.wrapping_add(1) as u32, 0);
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Op {
    Add,
    Sub,
    And,
    Or,
    Xor,
    Shl,
    Asr,
    Lsr,
}
/// (result, carry, overflow) of an operation on `bits` wide operands
fn alu(op: Op, bits: u32, a: u16, b: u16) -> (u16, bool, bool) {
    let mask: u32 = (1 << bits) - 1;
    let top: u32 = 1 << (bits - 1);
    let (a, b) = (a as u32, b as u32);
    let amount = b & (bits - 1);
    let neg = a & top != 0;
    match op {
        Op::Add => {
            let r = (a + b) & mask;
            // overflow: operands of equal sign give a result of the other sign
            let o = (a & top) == (b & top) && (a & top) != (r & top);
            (r as u16, a + b > mask, o)
        }
        Op::Sub => {
            let r = (a + mask + 1 - b) & mask;
            let o = (a & top) != (b & top) && (a & top) != (r & top);
            (r as u16, a < b, o)
        }
        Op::And => ((a & b) as u16, false, false),
        Op::Or => ((a | b) as u16, false, false),
        Op::Xor => ((a ^ b) as u16, false, false),
        Op::Shl => (((a << amount) & mask) as u16, false, false),
        Op::Lsr => ((a >> amount) as u16, false, false),
        Op::Asr => {
            let fill = if neg { mask & !(mask >> amount) } else { 0 };
            (((a >> amount) | fill) as u16, false, false)
        }
    }
}

/// Which operand numbers name supervisor registers (`rp`, `rh`)
fn priv_w(r: u8) -> bool {
    r >= 14
}

/// Does the instruction with this opcode exist, and how long is it (README, instruction table)
pub fn ins_len(op: u8) -> u8 {
    match op {
        0x0a..=0x0d => 1,
        0x10..=0x12 => 1,
        0x13 | 0x14 => 3,
        0x20 => 1,
        0x21..=0x24 => 2,
        0x25 => 3,
        0x26 => 2,
        0x27 | 0x28 => 4,
        0x29 | 0x2a => 3,
        0x2b | 0x2c => 4,
        0x2d | 0x2e => 3,
        0x2f..=0x3a => 3,
        0x3f => 3,
        0x40 => 4,
        0x41..=0x54 => 3,
        _ => 0,
    }
}

/// `reth` is specified separately (module `trap`).
pub fn spec(op: u8, pre: &St, b: [u8; 3], rd: [u8; 2], readme: bool) -> Out {
    let len = ins_len(op);
    let mut o = Out {
        len: if len == 0 { 1 } else { len },
        faults: 0,
        n: 0,
        kind: [0; 2],
        addr: [0; 2],
        val: [0; 2],
        post: *pre,
        dirty: 0,
        aluflags: false,
    };
    let (a1, a2, a3, a4) = (b[0] >> 4, b[0] & 15, b[1] >> 4, b[1] & 15);
    let next = pre.pc.wrapping_add(o.len as u16);
    let user = pre.f.user;
    o.post.pc = next;
    let p = &mut o.post;
    let mut illegal = false;
    let mut invalid = false;
    let imm1 = wide(b[0], b[1]);
    let imm2 = wide(b[1], b[2]);

    match op {
        0x0a => o.faults |= F_HALT,
        0x0b => p.f.trap = false,
        0x0c => o.faults |= F_SYSCALL,
        0x10 => {
            illegal = user;
            p.f.user = true;
        }
        0x11 => {
            illegal = user;
            p.f.vm = true;
        }
        0x12 => {
            illegal = user;
            p.f.vm = false;
        }
        // pstore br1, wr, br2
        0x13 => {
            illegal = user;
            invalid = a4 != 0;
            let a = pre.rw(a2) as u32 | ((pre.rb(a1) as u32) << 16);
            acc(&mut o, PWR, a, pre.rb(a3));
        }
        // pload br1, br2, wr
        0x14 => {
            illegal = user;
            invalid = a4 != 0;
            let a = pre.rw(a3) as u32 | ((pre.rb(a2) as u32) << 16);
            acc(&mut o, PRD, a, 0);
            o.post.wb(a1, rd[0]);
        }
        0x20 => (),
        0x21 => {
            invalid = a2 != 0;
            p.w[11] = pre.w[11].wrapping_sub(1);
            let s = p.w[11];
            store_b(&mut o, s, pre.rb(a1));
            o.dirty = 11;
        }
        0x22 => {
            illegal = user && priv_w(a1);
            invalid = a2 != 0;
            p.w[11] = pre.w[11].wrapping_sub(2);
            let s = p.w[11];
            store_w(&mut o, s, pre.rw(a1));
            o.dirty = 11;
        }
        0x23 => {
            invalid = a2 != 0;
            p.w[11] = pre.w[11].wrapping_add(1);
            p.wb(a1, rd[0]);
            load_b(&mut o, pre.w[11]);
        }
        0x24 => {
            illegal = user && priv_w(a1);
            invalid = a2 != 0;
            p.w[11] = pre.w[11].wrapping_add(2);
            p.ww(a1, wide(rd[0], rd[1]));
            load_w(&mut o, pre.w[11]);
            if illegal {
                o.dirty = 11;
            }
        }
        0x25 => {
            p.w[12] = next;
            p.pc = imm1;
        }
        0x26 => {
            p.w[11] = pre.w[11].wrapping_add(b[0] as u16);
            p.pc = pre.w[12];
        }
        // store wr1, w, br2 / wr2
        0x27 => {
            illegal = user && priv_w(a1);
            store_b(&mut o, pre.rw(a1).wrapping_add(imm2), pre.rb(a2));
        }
        0x28 => {
            illegal = user && (priv_w(a1) || priv_w(a2));
            store_w(&mut o, pre.rw(a1).wrapping_add(imm2), pre.rw(a2));
        }
        // store wr1, wr2, br3 / wr3
        0x29 => {
            illegal = user && (priv_w(a1) || priv_w(a2));
            invalid = a4 != 0;
            store_b(&mut o, pre.rw(a1).wrapping_add(pre.rw(a2)), pre.rb(a3));
        }
        0x2a => {
            illegal = user && (priv_w(a1) || priv_w(a2) || priv_w(a3));
            invalid = a4 != 0;
            store_w(&mut o, pre.rw(a1).wrapping_add(pre.rw(a2)), pre.rw(a3));
        }
        // load br1 / wr1, wr2, w
        0x2b => {
            illegal = user && priv_w(a2);
            p.wb(a1, rd[0]);
            load_b(&mut o, pre.rw(a2).wrapping_add(imm2));
        }
        0x2c => {
            illegal = user && (priv_w(a1) || priv_w(a2));
            p.ww(a1, wide(rd[0], rd[1]));
            load_w(&mut o, pre.rw(a2).wrapping_add(imm2));
        }
        // load br1 / wr1, wr2, wr3
        0x2d => {
            illegal = user && (priv_w(a2) || priv_w(a3));
            invalid = a4 != 0;
            p.wb(a1, rd[0]);
            load_b(&mut o, pre.rw(a2).wrapping_add(pre.rw(a3)));
        }
        0x2e => {
            illegal = user && (priv_w(a1) || priv_w(a2) || priv_w(a3));
            invalid = a4 != 0;
            p.ww(a1, wide(rd[0], rd[1]));
            load_w(&mut o, pre.rw(a2).wrapping_add(pre.rw(a3)));
        }
        0x2f..=0x3a => {
            if cond(op, &pre.f, readme) {
                p.pc = imm1;
            }
        }
        0x3f => {
            invalid = a2 != 0;
            p.wb(a1, b[1]);
        }
        // ldi wr, w / jmp w / jmp wr
        0x40 => match a2 {
            0 => {
                illegal = user && priv_w(a1);
                p.ww(a1, imm2);
            }
            1 => {
                illegal = user && priv_w(a1);
                p.pc = if a1 == 0 { imm2 } else { pre.rw(a1) };
            }
            _ => invalid = true,
        },
        0x41..=0x50 => {
            let k = match (op - 0x41) / 2 {
                0 => Op::Add,
                1 => Op::Sub,
                2 => Op::And,
                3 => Op::Or,
                4 => Op::Xor,
                5 => Op::Shl,
                6 => Op::Asr,
                _ => Op::Lsr,
            };
            invalid = a4 != 0;
            let bytes = op & 1 == 1;
            let (r, c, v) = if bytes {
                alu(k, 8, pre.rb(a2) as u16, pre.rb(a3) as u16)
            } else {
                alu(k, 16, pre.rw(a2), pre.rw(a3))
            };
            p.f.c = c;
            p.f.o = v;
            p.f.z = r == 0;
            o.aluflags = true;
            if bytes {
                p.f.s = r & 0x80 != 0;
                p.wb(a1, r as u8);
            } else {
                illegal = user && (priv_w(a1) || priv_w(a2) || priv_w(a3));
                p.f.s = r & 0x8000 != 0;
                p.ww(a1, r);
            }
        }
        // div br1 = br3 / br4; br2 = br3 % br4
        0x51 => {
            let (x, y) = (pre.rb(a3), pre.rb(a4));
            if y == 0 {
                o.faults |= F_ZERODIV;
            } else {
                p.wb(a1, x / y);
                p.wb(a2, x % y);
            }
        }
        0x52 => {
            illegal = user && (priv_w(a1) || priv_w(a2) || priv_w(a3) || priv_w(a4));
            let (x, y) = (pre.rw(a3), pre.rw(a4));
            if y == 0 {
                o.faults |= F_ZERODIV;
            } else {
                p.ww(a1, x / y);
                p.ww(a2, x % y);
            }
            if illegal && y != 0 {
                o.dirty = a1;
            }
        }
        // mul br2, br1 = br3 * br4
        0x53 => {
            let r = pre.rb(a3) as u16 * pre.rb(a4) as u16;
            p.f.c = hi(r) != 0;
            p.f.o = hi(r) != 0;
            p.f.z = lo(r) == 0;
            p.f.s = r & 0x80 != 0;
            let (d1, d2) = if readme { (lo(r), hi(r)) } else { (hi(r), lo(r)) };
            p.wb(a1, d1);
            p.wb(a2, d2);
        }
        0x54 => {
            illegal = user && (priv_w(a1) || priv_w(a2) || priv_w(a3) || priv_w(a4));
            let r = pre.rw(a3) as u32 * pre.rw(a4) as u32;
            let (l, h) = (r as u16, (r >> 16) as u16);
            p.f.c = h != 0;
            p.f.o = h != 0;
            p.f.z = l == 0;
            p.f.s = l & 0x8000 != 0;
            let (d1, d2) = if readme { (l, h) } else { (h, l) };
            p.ww(a1, d1);
            p.ww(a2, d2);
            o.aluflags = true;
            if illegal {
                o.dirty = a1;
            }
        }
        _ => invalid = true,
    }
    if illegal {
        o.faults |= F_ILLEGAL;
    }
    if invalid {
        o.faults |= F_INVALID;
    }
    o
}

/// The conditions of the conditional jumps. `readme`: by the opcode numbers of the README's
/// table, otherwise with the numbers of `ja` and `jb` exchanged (a known finding).
pub fn cond(op: u8, f: &Fl, readme: bool) -> bool {
    match op {
        0x2f => f.z,
        0x30 => f.s != f.o,
        0x31 => f.s != f.o && f.z,
        0x32 => f.s == f.o && !f.z,
        0x33 => f.s == f.o,
        0x34 => !f.z,
        0x35 => f.o,
        0x36 => !f.o,
        0x37 => {
            if readme {
                f.c
            } else {
                !f.c && !f.z
            }
        }
        0x38 => !f.c,
        0x39 => {
            if readme {
                !f.c && !f.z
            } else {
                f.c
            }
        }
        _ => f.c || f.z,
    }
}

pub fn fault_allowed(faults: u8, tm: TrapMode) -> bool {
    (faults & F_INVALID != 0 && tm_eq(tm, TrapMode::Invalid))
        || (faults & F_ILLEGAL != 0 && tm_eq(tm, TrapMode::IllegalOperation))
        || (faults & F_ZERODIV != 0 && tm_eq(tm, TrapMode::ZeroDiv))
        || (faults & F_HALT != 0 && tm_eq(tm, TrapMode::Halt))
        || (faults & F_SYSCALL != 0 && tm_eq(tm, TrapMode::SysCall))
        || (faults & F_IHR != 0 && tm_eq(tm, TrapMode::IllegalHandlerReturn))
}

/// Sets up any environment for an instruction starting at `pre.pc`
pub fn any_env(op: u8, pre: &St, len: u8) {
    let e = env();
    e.start = pre.pc;
    e.op = op;
    let b = nd::u8s::<3>();
    e.code = [op, b[0], b[1], b[2]];
    e.ffault = nd::u8();
    // a fault when the opcode itself is fetched: module `trap`
    assume!(e.ffault != 0);
    e.fcode = any_fault(&pre.f, EX);
    e.rd[0] = nd::u8();
    e.rd[1] = nd::u8();
    e.dfault = nd::u8();
    e.n = 0;
    e.past_end = false;
    e.nfetch = 0;
    e.len = len as usize;
    e.page = pre.w[14];
    e.vm = pre.f.vm;
}

fn trace_matches(e: &Env, o: &Out, n: usize) -> bool {
    let mut ok = e.n == n;
    let mut i = 0;
    while i < 2 {
        if i < n && e.kind[i] != ANY {
            ok = ok && e.kind[i] == o.kind[i] && e.addr[i] == o.addr[i] && e.val[i] == o.val[i];
        }
        i += 1;
    }
    ok
}

/// Everything but the registers an instruction that traps may have touched is as before
fn unchanged(pre: &St, post: &St, o: &Out) -> bool {
    let mut ok = true;
    let mut i = 1;
    while i < 16 {
        ok = ok
            && (post.w[i] == pre.w[i] || (o.dirty as usize == i && post.w[i] == o.post.w[i]));
        i += 1;
    }
    let alu = post.f.c == pre.f.c
        && post.f.s == pre.f.s
        && post.f.o == pre.f.o
        && post.f.z == pre.f.z;
    ok && (alu || o.aluflags)
        && post.f.vm == pre.f.vm
        && post.f.resv == pre.f.resv
        && post.f.trap
        && !post.f.user
}

pub fn step(op: u8, readme: bool) {
    step_with(op, readme, false)
}
/// `frame`: what is written into the destination registers is not looked at.
pub fn step_with(op: u8, readme: bool, frame: bool) {
    let pre = any_st();
    // reads of the trap handler register see any value, but taking the trap is module `trap`'s
    let mut len = ins_len(op);
    if len == 0 {
        len = 1;
    }
    any_env(op, &pre, len);
    let e = env();
    let mut o = spec(op, &pre, [e.code[1], e.code[2], e.code[3]], [e.rd[0], e.rd[1]], readme);
    if o.n > 0 && (o.kind[0] == RD || o.kind[0] == WR) {
        e.dcode = any_fault(&pre.f, o.kind[0]);
    } else {
        assume!(e.dfault == 255);
    }
    // direct mode never faults
    assume!(pre.f.vm || (e.ffault >= 4 && e.dfault >= 2));
    let fetch_faults = e.ffault < o.len;
    let data_faults = e.dfault < o.n;
    assume!(pre.w[15] == 0 || !(o.faults != 0 || fetch_faults || data_faults));

    let mut cpu = concrete(&pre);
    let mut mem = EnvMem::new();
    let r = cpu.execute_instruction(&mut mem);
    let post = abstract_of(&cpu);
    if frame {
        let (a1, a2) = (e.code[1] as usize >> 4, e.code[1] as usize & 15);
        if a1 != 0 {
            o.post.w[a1] = post.w[a1];
        }
        if a2 != 0 {
            o.post.w[a2] = post.w[a2];
        }
    }

    if fetch_faults {
        match r {
            Ok(()) => {
                check!(false, "an instruction that cannot be fetched completely must trap");
            }
            Err(tm) => {
                check!(
                    tm_eq(tm, e.fcode) || fault_allowed(o.faults & !F_ZERODIV, tm),
                    "the trap mode of a failed fetch is the one of the fault"
                );
            }
        }
        check!(e.n == 0, "an instruction that cannot be fetched completely must not access data");
        check!(unchanged(&pre, &post, &o), "an instruction that cannot be fetched changes nothing");
        reach!(true, "fetch fault");
    } else if o.faults != 0 {
        match r {
            Ok(()) => {
                check!(false, "the instruction must trap");
            }
            Err(tm) => {
                check!(
                    fault_allowed(o.faults, tm)
                        || (data_faults && o.kind[0] == RD && tm_eq(tm, e.dcode)),
                    "the trap mode is the documented one"
                );
            }
        }
        let mut no_write = true;
        let mut i = 0;
        while i < 2 {
            if i < e.n {
                no_write = no_write && e.kind[i] != WR && e.kind[i] != PWR;
            }
            i += 1;
        }
        check!(no_write && e.n <= 2, "an instruction that traps must not write memory");
        check!(unchanged(&pre, &post, &o), "an instruction that traps must not write its destination");
        reach!(true, "trap");
    } else if data_faults {
        match r {
            Ok(()) => {
                check!(false, "a faulting memory access must trap");
            }
            Err(tm) => {
                check!(tm_eq(tm, e.dcode), "the trap mode is the one of the faulting access");
            }
        }
        check!(
            trace_matches(e, &o, e.dfault as usize + 1),
            "no access is done after the faulting one"
        );
        check!(
            unchanged(&pre, &post, &o),
            "an instruction whose memory access faults must not write its destination"
        );
        reach!(true, "data fault");
    } else {
        check!(r.is_ok(), "the instruction must not trap");
        check!(post.pc == o.post.pc, "program counter afterwards");
        check!(same_w(&post, &o.post), "registers afterwards");
        check!(same_f(&post.f, &o.post.f), "flags afterwards");
        check!(trace_matches(e, &o, o.n as usize), "memory accesses, in order");
        check!(!e.past_end, "only the bytes of the instruction are fetched");
        reach!(true, "no trap");
    }
    let _ = isa::NULL;
}

macro_rules! steps {
    ($($name:ident = $e:expr;)*) => {
        crate::proofs!{$(
            $name, 18, [
                telda2::blf4::HandlerContext::fetch => crate::cpu::s_fetch,
                telda2::blf4::HandlerContext::read => crate::cpu::s_read,
                telda2::blf4::HandlerContext::write => crate::cpu::s_write,
            ] { $e; }
        )*}
    };
}
/// The values wide division writes; what else it does is proved with `frame`. The quotient is
/// specified by what defines it, the remainder by the quotient, one proof per magnitude of the
/// divisor to keep the solver's work small.
fn div_w(k: Option<u8>) {
    let pre = any_st();
    any_env(0x52, &pre, 3);
    let e = env();
    e.may_ffault = false;
    e.ffault = 255;
    e.dfault = 255;
    let (a1, a2) = (e.code[1] >> 4, e.code[1] & 15);
    let (a3, a4) = (e.code[2] >> 4, e.code[2] & 15);
    let user = pre.f.user;
    assume!(!user || !(priv_w(a1) || priv_w(a2) || priv_w(a3) || priv_w(a4)));
    let (x, y) = (pre.rw(a3), pre.rw(a4));
    assume!(y != 0);
    if let Some(k) = k {
        assume!(y >> k == 1 && a2 != 0);
    } else {
        assume!(a1 != 0 && a1 != a2);
    }
    let mut cpu = concrete(&pre);
    let mut mem = EnvMem::new();
    let r = cpu.execute_instruction(&mut mem);
    let post = abstract_of(&cpu);
    check!(r.is_ok(), "the instruction must not trap");
    if k.is_some() {
        let q = x / y;
        let r = post.w[a2 as usize];
        check!(r < y && q as u32 * y as u32 + r as u32 == x as u32, "remainder of a division");
    } else {
        let q = post.w[a1 as usize] as u32 * y as u32;
        check!(q <= x as u32 && x as u32 - q < y as u32, "quotient of a division");
    }
    reach!(true, "no trap");
}
steps! {
    ins_halt = step(0x0a, true);
    ins_ctf = step(0x0b, true);
    ins_syscall = step(0x0c, true);
    ins_usr = step(0x10, true);
    ins_vmon = step(0x11, true);
    ins_vmoff = step(0x12, true);
    ins_pstore = step(0x13, true);
    ins_pload = step(0x14, true);
    ins_nop = step(0x20, true);
    ins_push_b = step(0x21, true);
    ins_push_w = step(0x22, true);
    ins_pop_b = step(0x23, true);
    ins_pop_w = step(0x24, true);
    ins_call = step(0x25, true);
    ins_ret = step(0x26, true);
    ins_store_bi = step(0x27, true);
    ins_store_wi = step(0x28, true);
    ins_store_br = step(0x29, true);
    ins_store_wr = step(0x2a, true);
    ins_load_bi = step(0x2b, true);
    ins_load_wi = step(0x2c, true);
    ins_load_br = step(0x2d, true);
    ins_load_wr = step(0x2e, true);
    ins_jez = step(0x2f, true);
    ins_jlt = step(0x30, true);
    ins_jle = step(0x31, true);
    ins_jgt = step(0x32, true);
    ins_jge = step(0x33, true);
    ins_jnz = step(0x34, true);
    ins_jo = step(0x35, true);
    ins_jno = step(0x36, true);
    ins_j37 = step(0x37, true);
    ins_j37_now = step(0x37, false);
    ins_jae = step(0x38, true);
    ins_j39 = step(0x39, true);
    ins_j39_now = step(0x39, false);
    ins_jbe = step(0x3a, true);
    ins_ldi_b = step(0x3f, true);
    ins_ldi_w = step(0x40, true);
    ins_add_b = step(0x41, true);
    ins_add_w = step(0x42, true);
    ins_sub_b = step(0x43, true);
    ins_sub_w = step(0x44, true);
    ins_and_b = step(0x45, true);
    ins_and_w = step(0x46, true);
    ins_or_b = step(0x47, true);
    ins_or_w = step(0x48, true);
    ins_xor_b = step(0x49, true);
    ins_xor_w = step(0x4a, true);
    ins_shl_b = step(0x4b, true);
    ins_shl_w = step(0x4c, true);
    ins_asr_b = step(0x4d, true);
    ins_asr_w = step(0x4e, true);
    ins_lsr_b = step(0x4f, true);
    ins_lsr_w = step(0x50, true);
    ins_div_b = step(0x51, true);
    ins_div_w_frame = step_with(0x52, true, true);
    ins_div_w_0 = div_w(Some(0));
    ins_div_w_1 = div_w(Some(1));
    ins_div_w_2 = div_w(Some(2));
    ins_div_w_3 = div_w(Some(3));
    ins_div_w_4 = div_w(Some(4));
    ins_div_w_5 = div_w(Some(5));
    ins_div_w_6 = div_w(Some(6));
    ins_div_w_7 = div_w(Some(7));
    ins_div_w_8 = div_w(Some(8));
    ins_div_w_9 = div_w(Some(9));
    ins_div_w_10 = div_w(Some(10));
    ins_div_w_11 = div_w(Some(11));
    ins_div_w_12 = div_w(Some(12));
    ins_div_w_13 = div_w(Some(13));
    ins_div_w_14 = div_w(Some(14));
    ins_div_w_15 = div_w(Some(15));
    ins_div_w_quot = div_w(None);
    ins_mul_b = step(0x53, true);
    ins_mul_b_now = step(0x53, false);
    ins_mul_w = step(0x54, true);
    ins_mul_w_now = step(0x54, false);
}
