//! The executable specification of one instruction, written from the instruction table of
//! README.md, and the environment (instruction stream and memory) contracts it is checked under.

use telda2::blf4::{Blf4, Blf4Flags, HandlerContext, OpRes, TrapMode, WideRegister};
use telda2::mem::MainMemory;
use telda2::U4;

use crate::nd;
use crate::{assume, check};

// ---------------------------------------------------------------- abstract state

#[derive(Clone, Copy)]
pub struct Fl {
    pub user: bool,
    pub trap: bool,
    pub resv: bool,
    pub vm: bool,
    pub c: bool,
    pub s: bool,
    pub o: bool,
    pub z: bool,
}
#[derive(Clone, Copy)]
pub struct St {
    /// the wide registers by their encoding: 0 is r0, 11 rs, 12 rl, 13 rf, 14 rp, 15 rh
    pub w: [u16; 16],
    pub pc: u16,
    pub f: Fl,
}

pub fn any_flags() -> Fl {
    Fl {
        user: nd::bool(),
        trap: nd::bool(),
        resv: nd::bool(),
        vm: nd::bool(),
        c: nd::bool(),
        s: nd::bool(),
        o: nd::bool(),
        z: nd::bool(),
    }
}
pub fn any_st() -> St {
    let mut w = nd::u16s::<16>();
    w[0] = 0;
    St {
        w,
        pc: nd::u16(),
        f: any_flags(),
    }
}

pub fn to_flags(f: Fl) -> Blf4Flags {
    Blf4Flags {
        user_mode: f.user,
        trap: f.trap,
        reserved: f.resv,
        virtual_mode: f.vm,
        carry: f.c,
        sign: f.s,
        overflow: f.o,
        zero: f.z,
    }
}
pub fn from_flags(f: &Blf4Flags) -> Fl {
    Fl {
        user: f.user_mode,
        trap: f.trap,
        resv: f.reserved,
        vm: f.virtual_mode,
        c: f.carry,
        s: f.sign,
        o: f.overflow,
        z: f.zero,
    }
}

/// A processor without a defined state. Every field is an integer, a bool or an array of those,
/// so that all zeroes are valid; `Blf4::new` would draw from the system's random numbers.
pub fn zero_cpu() -> Blf4 {
    unsafe { std::mem::MaybeUninit::<Blf4>::zeroed().assume_init() }
}
/// The real processor in the state `st`, through its public interface only
pub fn concrete(st: &St) -> Blf4 {
    let mut cpu = zero_cpu();
    let mut i = 0;
    while i < 16 {
        let r = cpu.write_wr(WideRegister(U4::new(i)), st.w[i as usize]);
        assume!(r.is_ok());
        i += 1;
    }
    cpu.program_counter = st.pc;
    cpu.flags = to_flags(st.f);
    cpu
}
/// The abstract state of the real processor, through its public interface only
pub fn abstract_of(cpu: &Blf4) -> St {
    let f = from_flags(&cpu.flags);
    let mut cpu = cpu.clone();
    cpu.flags.user_mode = false;
    let mut w = [0; 16];
    let mut i = 0;
    while i < 16 {
        match cpu.read_wr(WideRegister(U4::new(i))) {
            Ok(v) => w[i as usize] = v,
            Err(_) => {
                check!(false, "registers are readable in supervisor mode");
            }
        }
        i += 1;
    }
    St {
        w,
        pc: cpu.program_counter,
        f,
    }
}

pub fn hi(w: u16) -> u8 {
    (w >> 8) as u8
}
pub fn lo(w: u16) -> u8 {
    w as u8
}
pub fn wide(l: u8, h: u8) -> u16 {
    l as u16 | ((h as u16) << 8)
}

pub fn same_w(a: &St, b: &St) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < 16 {
        ok = ok & (a.w[i] == b.w[i]);
        i += 1;
    }
    ok
}
pub fn same_f(a: &Fl, b: &Fl) -> bool {
    a.user == b.user
        && a.trap == b.trap
        && a.resv == b.resv
        && a.vm == b.vm
        && a.c == b.c
        && a.s == b.s
        && a.o == b.o
        && a.z == b.z
}

impl St {
    /// README, "The byte registers"
    pub fn rb(&self, r: u8) -> u8 {
        match r {
            0 => 0,
            1 => lo(self.w[1]),
            2 => hi(self.w[1]),
            3 => lo(self.w[2]),
            4 => hi(self.w[2]),
            5 => lo(self.w[3]),
            6 => hi(self.w[3]),
            7 => lo(self.w[4]),
            8 => hi(self.w[4]),
            9 => lo(self.w[5]),
            10 => hi(self.w[5]),
            11 => lo(self.w[6]),
            12 => lo(self.w[7]),
            13 => lo(self.w[8]),
            14 => lo(self.w[9]),
            _ => lo(self.w[10]),
        }
    }
    pub fn wb(&mut self, r: u8, v: u8) {
        match r {
            0 => (),
            1 => self.w[1] = wide(v, hi(self.w[1])),
            2 => self.w[1] = wide(lo(self.w[1]), v),
            3 => self.w[2] = wide(v, hi(self.w[2])),
            4 => self.w[2] = wide(lo(self.w[2]), v),
            5 => self.w[3] = wide(v, hi(self.w[3])),
            6 => self.w[3] = wide(lo(self.w[3]), v),
            7 => self.w[4] = wide(v, hi(self.w[4])),
            8 => self.w[4] = wide(lo(self.w[4]), v),
            9 => self.w[5] = wide(v, hi(self.w[5])),
            10 => self.w[5] = wide(lo(self.w[5]), v),
            n => self.w[n as usize - 5] = v as u16,
        }
    }
    /// The wide register a byte register is part of
    pub fn parent(r: u8) -> u8 {
        match r {
            0 => 0,
            1..=10 => (r + 1) / 2,
            _ => r - 5,
        }
    }
    pub fn rw(&self, r: u8) -> u16 {
        self.w[r as usize & 15]
    }
    pub fn ww(&mut self, r: u8, v: u16) {
        if r != 0 {
            self.w[r as usize & 15] = v;
        }
    }
}

// ---------------------------------------------------------------- environment

pub const EX: u8 = 0;
pub const RD: u8 = 1;
pub const WR: u8 = 2;
pub const PRD: u8 = 3;
pub const PWR: u8 = 4;
/// An access whose address is not known, because it faulted in a native replay
pub const ANY: u8 = 5;

pub const NACC: usize = 34;

/// The ghost state of a proof: what the instruction stream and the memory will answer, and what
/// has been asked of them.
#[derive(Clone, Copy)]
pub struct Env {
    pub start: u16,
    pub op: u8,
    /// opcode and operand bytes
    pub code: [u8; 4],
    /// which fetch faults (4 and above: none), and how
    pub ffault: u8,
    pub fcode: TrapMode,
    pub may_ffault: bool,
    /// what the data reads answer in order
    pub rd: [u8; NACC],
    /// which data access faults, and how
    pub dfault: u8,
    pub dcode: TrapMode,
    // the trace of data accesses
    pub n: usize,
    pub kind: [u8; NACC],
    pub addr: [u32; NACC],
    pub val: [u8; NACC],
    pub past_end: bool,
    // only used natively
    pub nfetch: usize,
    pub len: usize,
    pub page: u16,
    pub vm: bool,
}

pub static mut ENV: Env = Env {
    start: 0,
    op: 0,
    code: [0; 4],
    ffault: 255,
    fcode: TrapMode::Level1PageFault,
    may_ffault: true,
    rd: [0; NACC],
    dfault: 255,
    dcode: TrapMode::Level1PageFault,
    n: 0,
    kind: [0; NACC],
    addr: [0; NACC],
    val: [0; NACC],
    past_end: false,
    nfetch: 0,
    len: 1,
    page: 0,
    vm: false,
};
#[allow(static_mut_refs)]
pub fn env() -> &'static mut Env {
    unsafe { &mut ENV }
}

/// The faults a memory access may answer with: the contract of `fetch`, `read` and `write`,
/// proved about the code by the proofs of module `mmu`.
pub fn any_fault(f: &Fl, kind: u8) -> TrapMode {
    let n = nd::u8();
    assume!(n < 4);
    match n {
        0 => TrapMode::Level1PageFault,
        1 => TrapMode::Level2PageFault,
        2 => {
            assume!(f.user);
            TrapMode::IllegalOperation
        }
        _ => match kind {
            EX => TrapMode::IllegalExecute,
            RD => TrapMode::IllegalRead,
            _ => TrapMode::IllegalWrite,
        },
    }
}

fn log(e: &mut Env, kind: u8, addr: u32, val: u8) -> usize {
    let i = e.n;
    if i < NACC {
        e.kind[i] = kind;
        e.addr[i] = addr;
        e.val[i] = val;
    }
    e.n += 1;
    i
}

/// Contract of `HandlerContext::fetch`: it answers for the byte the program counter points to
/// and advances the program counter by one, also when it faults
pub fn s_fetch<'a: 'a>(c: &mut HandlerContext<'a>) -> OpRes<u8> {
    let e = env();
    let i = e.nfetch;
    e.nfetch += 1;
    let at = c.cpu.program_counter;
    c.cpu.program_counter = at.wrapping_add(1);
    if i >= 4 {
        e.past_end = true;
        return Ok(0);
    }
    check!(
        at == e.start.wrapping_add(i as u16),
        "the bytes of an instruction are fetched in order, starting at the program counter"
    );
    if i == 0 {
        // the opcode is concrete, a fault here is a matter of module `trap`
        return Ok(e.op);
    }
    if e.may_ffault && i as u8 == e.ffault {
        return Err(e.fcode);
    }
    Ok(e.code[i])
}
/// Contract of `HandlerContext::read`
pub fn s_read<'a: 'a>(_c: &mut HandlerContext<'a>, addr: u16) -> OpRes<u8> {
    let e = env();
    let i = log(e, RD, addr as u32, 0);
    if i == e.dfault as usize {
        return Err(e.dcode);
    }
    Ok(if i < NACC { e.rd[i] } else { 0 })
}
/// Contract of `HandlerContext::write`
pub fn s_write<'a: 'a>(_c: &mut HandlerContext<'a>, addr: u16, val: u8) -> OpRes<()> {
    let e = env();
    let i = log(e, WR, addr as u32, val);
    if i == e.dfault as usize {
        return Err(e.dcode);
    }
    Ok(())
}

/// Main memory. In the proofs only the physical accesses (`pload`, `pstore`) get here, in a
/// native replay everything does, and page tables are made up to make the accesses fault
/// as the counterexample wants it.
#[allow(dead_code)]
pub struct EnvMem {
    kind: u8,
    idx: usize,
    fault: Option<TrapMode>,
}
impl EnvMem {
    pub fn new() -> Self {
        EnvMem {
            kind: 0,
            idx: 0,
            fault: None,
        }
    }
}
#[cfg(kani)]
impl MainMemory for EnvMem {
    fn read(&mut self, addr: u32) -> u8 {
        let e = env();
        let i = log(e, PRD, addr, 0);
        if i < NACC {
            e.rd[i]
        } else {
            0
        }
    }
    fn write(&mut self, addr: u32, val: u8) {
        log(env(), PWR, addr, val);
    }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    const T2: u32 = 0x20_0000;
    const DATA: u32 = 0x30_0000;
    impl EnvMem {
        /// The instruction stream is read first, then the data accesses follow
        fn begin(&mut self, e: &Env) {
            self.kind = if e.nfetch < e.len { EX } else { RD };
            let (i, f, c) = match self.kind {
                EX => (e.nfetch, e.ffault, e.fcode),
                _ => (e.n, e.dfault, e.dcode),
            };
            self.idx = i;
            self.fault = (i == f as usize).then_some(c);
        }
        fn finish(&mut self, e: &mut Env, vaddr: u32, write: Option<u8>) -> u8 {
            if self.kind == EX {
                e.nfetch += 1;
                *e.code.get(self.idx).unwrap_or(&0)
            } else {
                let kind = if write.is_some() { WR } else { RD };
                let i = log(e, kind, vaddr, write.unwrap_or(0));
                e.rd[i.min(NACC - 1)]
            }
        }
        fn faulted(&mut self, e: &mut Env) {
            self.fault = None;
            if self.kind == EX {
                e.nfetch += 1;
            } else {
                log(e, ANY, 0, 0);
            }
        }
    }
    impl MainMemory for EnvMem {
        fn read(&mut self, addr: u32) -> u8 {
            let e = env();
            if !e.vm || (0x1_0040..T2).contains(&addr) {
                if addr >= 0x1_0000 {
                    let i = log(e, PRD, addr, 0);
                    return e.rd[i.min(NACC - 1)];
                }
                self.begin(e);
                return self.finish(e, addr, None);
            }
            if addr >= DATA {
                return self.finish(e, addr - DATA, None);
            }
            let level = if addr >= T2 { 2 } else { 1 };
            let off = addr.wrapping_sub(if level == 2 { T2 } else { e.page as u32 });
            if level == 1 && off & 3 == 0 {
                self.begin(e);
            }
            let flags = match (self.fault, level) {
                (None, _) | (Some(TrapMode::Level2PageFault), 1) => 0b11_1111,
                (Some(TrapMode::Level1PageFault | TrapMode::Level2PageFault), _) => 0,
                (Some(TrapMode::IllegalOperation), _) => 0b01_1111,
                (Some(_), _) => 0b11_0001,
            };
            let target = match level {
                1 => T2 + ((off >> 2) & 15) * 0x80,
                _ => DATA + ((off >> 2) << 7),
            };
            if off & 3 == 3 && flags != 0b11_1111 {
                self.faulted(e);
            }
            ((target << 8) | flags).to_le_bytes()[off as usize & 3]
        }
        fn write(&mut self, addr: u32, val: u8) {
            let e = env();
            if (0x1_0040..T2).contains(&addr) || (!e.vm && addr >= 0x1_0000) {
                log(e, PWR, addr, val);
            } else if !e.vm {
                self.begin(e);
                self.finish(e, addr, Some(val));
            } else if addr >= DATA {
                self.finish(e, addr - DATA, Some(val));
            }
        }
    }
}

pub fn tm_eq(a: TrapMode, b: TrapMode) -> bool {
    a as u8 == b as u8
}
