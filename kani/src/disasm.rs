//! The disassembler: where it goes on, what it looks up, and that it leaves the processor alone. Its text is
//! not specified here (the formatting of the standard library is replaced by "does nothing").

use telda2::blf4::{Blf4, HandlerContext, OpRes, TrapMode, WideRegister};
use telda2::disassemble::disassemble_instruction;
use telda2::machine::Machine;
use telda2::mem::MainMemory;
use telda2::U4;

use crate::cpu::*;
use crate::ins::ins_len;
use crate::nd;
use crate::{assume, check, reach};

struct Bytes {
    start: u16,
    code: [u8; 4],
    fault: usize,
    how: TrapMode,
    fetched: usize,
    outside: bool,
}
static mut E: Bytes =
    Bytes { start: 0, code: [0; 4], fault: 9, how: TrapMode::IllegalExecute, fetched: 0, outside: false };

/// HandlerContext::fetch: the byte at the program counter, or a fault
fn d_fetch<'a: 'a>(c: &mut HandlerContext<'a>) -> OpRes<u8> {
    unsafe {
        let i = c.cpu.program_counter.wrapping_sub(E.start) as usize;
        c.cpu.program_counter = c.cpu.program_counter.wrapping_add(1);
        if i > 3 {
            E.outside = true;
            return Ok(0);
        }
        if i == E.fault {
            return Err(E.how);
        }
        if i >= E.fetched {
            E.fetched = i + 1;
        }
        Ok(E.code[i])
    }
}
fn d_write(_: &mut dyn core::fmt::Write, _: core::fmt::Arguments<'_>) -> core::fmt::Result {
    Ok(())
}
struct Rom([u8; 4], u16);
impl MainMemory for Rom {
    fn read(&mut self, a: u32) -> u8 {
        let i = (a as u16).wrapping_sub(self.1) as usize;
        if i < 4 { self.0[i] } else { 0 }
    }
    fn write(&mut self, _: u32, _: u8) {
        check!(false, "disassembling writes nothing");
    }
}
fn word(c: [u8; 4], i: usize) -> u16 {
    c[i] as u16 | (c[i + 1] as u16) << 8
}
/// A processor in any state, and its registers. Written out, as the loops of the disassembler cost one
/// iteration for every one here.
fn processor(pc: u16, f: Fl) -> (Blf4, [u16; 15]) {
    let mut cpu = zero_cpu();
    let w = [
        nd::u16(), nd::u16(), nd::u16(), nd::u16(), nd::u16(), nd::u16(), nd::u16(), nd::u16(),
        nd::u16(), nd::u16(), nd::u16(), nd::u16(), nd::u16(), nd::u16(), nd::u16(),
    ];
    macro_rules! w { ($($i:literal)*) => { $( assume!(cpu.write_wr(WideRegister(U4::new($i + 1)), w[$i]).is_ok()); )* } }
    w!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
    cpu.program_counter = pc;
    cpu.flags = to_flags(f);
    (cpu, w)
}
fn registers(cpu: &Blf4) -> [u16; 15] {
    let mut cpu = cpu.clone();
    cpu.flags.user_mode = false;
    let mut out = [0; 15];
    macro_rules! w { ($($i:literal)*) => { $( match cpu.read_wr(WideRegister(U4::new($i + 1))) {
        Ok(v) => out[$i] = v,
        Err(_) => check!(false, "registers are readable in supervisor mode"),
    } )* } }
    w!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
    out
}
/// Any of the instructions for which `which` holds
fn disassemble(which: fn(u8) -> bool, readme: bool) {
    let (pc, f) = (nd::u16(), any_flags());
    let (cpu, w) = processor(pc, f);
    let code: [u8; 4] = [nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    assume!(which(code[0]));
    unsafe { E = Bytes { start: pc, code, fault: nd::usize(), how: any_fault(&f, EX), fetched: 0, outside: false } }
    #[cfg(not(kani))]
    assume!(!f.vm && pc >= 0x80 && pc < 0xfff0);
    let mut m = Machine::new(Rom(code, pc), cpu);
    let (mut looked, mut n) = (0, 0);
    let named = nd::bool();
    let r = disassemble_instruction(&mut m, |p| {
        looked = p;
        n += 1;
        if named { Some("x") } else { None }
    });
    let op = code[0];
    let len = ins_len(op);
    let supervisor = 0x10 <= op && op <= 0x14;
    let known = len > 0 && (readme || !supervisor);
    let len = if known { len } else { 1 };
    let jump = op == 0x40 && code[1] & 15 == 1;
    #[cfg(not(kani))]
    let faulty = false;
    #[cfg(kani)]
    let faulty = unsafe {
        check!(!E.outside && E.fetched <= len as usize, "no byte after the instruction is fetched");
        E.fault < len as usize
    };
    match r {
        Ok(d) => {
            check!(!faulty, "a fault at a byte of the instruction is reported");
            check!(d.next_instruction_location == pc.wrapping_add(len as u16), "the next instruction begins where this one ends");
            check!(
                d.ends_block == (!known || op == 0x0a || op == 0x0d || op == 0x26 || jump),
                "only instructions that do not go on after themselves end a block"
            );
            check!(
                d.nesting_difference == if op == 0x25 { 1 } else if op == 0x26 { -1 } else { 0 },
                "a call goes one level down, a return one up"
            );
            let target = match op {
                0x25 | 0x2f..=0x3a => Some(word(code, 1)),
                0x27 | 0x28 | 0x2b | 0x2c | 0x40 => Some(word(code, 2)),
                _ => None,
            };
            check!(n == if target.is_some() { 1 } else { 0 }, "a label is looked up for a wide operand, and for nothing else");
            check!(target.is_none() || target == Some(looked), "the label of the wide operand is looked up");
            check!(pc == m.cpu.program_counter, "the program counter stays");
            let now = registers(&m.cpu);
            macro_rules! w { ($($i:literal)*) => { true $( && now[$i] == w[$i] )* } }
            check!(w!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14), "the registers stay");
            check!(same_f(&f, &from_flags(&m.cpu.flags)), "the flags stay");
            core::mem::forget(d);
            reach!(true, "disassembled");
        }
        Err(_e) => {
            check!(faulty, "only a fault is reported");
            #[cfg(kani)]
            check!(tm_eq(_e, unsafe { E.how }), "the fault is the one of the fetch");
            reach!(true, "fault");
        }
    }
    core::mem::forget(m);
}
fn ordinary(op: u8) -> bool {
    !(0x10 <= op && op <= 0x14)
}
fn supervisor(op: u8) -> bool {
    !ordinary(op)
}
crate::proofs! {
    dis_ordinary, 6, [core::fmt::write => d_write, telda2::blf4::HandlerContext::fetch => d_fetch] {
        disassemble(ordinary, true);
    }
    dis_super, 6, [core::fmt::write => d_write, telda2::blf4::HandlerContext::fetch => d_fetch] {
        disassemble(supervisor, true);
    }
    dis_super_now, 6, [core::fmt::write => d_write, telda2::blf4::HandlerContext::fetch => d_fetch] {
        disassemble(supervisor, false);
    }
}
