//! Memory access by the processor: address translation, permissions, faults and dirty bits.
//! These are the contracts the proofs of modules `ins`, `trap` and `all` use for `fetch`, `read`
//! and `write`; here the real bodies run on any memory.

use telda2::blf4::{OpRes, TrapMode};
use telda2::mem::MainMemory;

use crate::cpu::*;
use crate::nd;
use crate::{assume, check, reach};

const LOG: usize = 16;

/// Any memory: the content of an address is chosen when it is first looked at, and remembered.
pub struct AnyMem {
    // initial content, as far as it was looked at
    ni: usize,
    iaddr: [u32; LOG],
    ival: [u8; LOG],
    // writes in order
    nw: usize,
    waddr: [u32; LOG],
    wval: [u8; LOG],
    // addresses read, in order
    nr: usize,
    raddr: [u32; LOG],
}
impl AnyMem {
    pub fn new() -> Self {
        AnyMem {
            ni: 0,
            iaddr: [0; LOG],
            ival: [0; LOG],
            nw: 0,
            waddr: [0; LOG],
            wval: [0; LOG],
            nr: 0,
            raddr: [0; LOG],
        }
    }
    /// The content before anything was written
    pub fn init(&mut self, addr: u32) -> u8 {
        let mut i = 0;
        while i < LOG {
            if i < self.ni && self.iaddr[i] == addr {
                return self.ival[i];
            }
            i += 1;
        }
        let v = nd::u8();
        if self.ni < LOG {
            self.iaddr[self.ni] = addr;
            self.ival[self.ni] = v;
        }
        self.ni += 1;
        check!(self.ni <= LOG, "an access looks at two page table entries and one byte only");
        v
    }
    /// The content now
    pub fn now(&mut self, addr: u32) -> u8 {
        let mut v = self.init(addr);
        let mut i = 0;
        while i < LOG {
            if i < self.nw && self.waddr[i] == addr {
                v = self.wval[i];
            }
            i += 1;
        }
        v
    }
    pub fn writes(&self) -> usize {
        self.nw
    }
    fn init_32(&mut self, addr: u32) -> u32 {
        let (a, b, c, d) = (
            self.init(addr),
            self.init(addr + 1),
            self.init(addr + 2),
            self.init(addr + 3),
        );
        a as u32 | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)
    }
}
impl MainMemory for AnyMem {
    fn read(&mut self, addr: u32) -> u8 {
        if self.nr < LOG {
            self.raddr[self.nr] = addr;
        }
        self.nr += 1;
        self.now(addr)
    }
    fn write(&mut self, addr: u32, v: u8) {
        if self.nw < LOG {
            self.waddr[self.nw] = addr;
            self.wval[self.nw] = v;
        }
        self.nw += 1;
        check!(addr < 1 << 24, "physical addresses have 24 bits");
        check!(self.nw <= LOG, "an access writes two page table entries and one byte only");
    }
}

const P: u32 = 1;
const R: u32 = 2;
const W: u32 = 4;
const X: u32 = 8;
const D: u8 = 16;
const U: u32 = 32;

/// README, "Virtual memory": what is wrong with this page table entry
struct Wrong {
    absent: bool,
    user: bool,
    perm: bool,
}
impl Wrong {
    fn any(&self) -> bool {
        self.absent || self.user || self.perm
    }
    fn allows(&self, tm: TrapMode, absent: TrapMode, perm: TrapMode) -> bool {
        if self.absent {
            tm_eq(tm, absent)
        } else {
            (self.user && tm_eq(tm, TrapMode::IllegalOperation)) || (self.perm && tm_eq(tm, perm))
        }
    }
}
fn wrong(entry: u32, user: bool, kind: u8) -> Wrong {
    let need = match kind {
        EX => X,
        RD => R,
        _ => W,
    };
    Wrong {
        absent: entry & P == 0,
        user: user && entry & U == 0,
        perm: entry & need == 0,
    }
}

fn within(addr: u32, entry: u32) -> bool {
    addr >= entry && addr < entry + 4
}

/// `fine`: the accesses the page tables allow, otherwise those they do not.
fn access(kind: u8, vm: bool, fine: bool) {
    let mut pre = any_st();
    pre.f.vm = vm;
    let mut cpu = concrete(&pre);
    let mut mem = AnyMem::new();
    // any address, to see that it keeps its content
    let probe = nd::u32();
    assume!(probe < 1 << 24);
    let before = mem.init(probe);
    let mut addr = nd::u16();
    let val = nd::u8();

    let r: OpRes<u8> = {
        let mut c = cpu.context(&mut mem);
        match kind {
            EX => {
                addr = pre.pc;
                c.fetch()
            }
            RD => c.read(addr),
            _ => match c.write(addr, val) {
                Ok(()) => Ok(0),
                Err(tm) => Err(tm),
            },
        }
    };
    let post = abstract_of(&cpu);
    check!(same_w(&pre, &post) && same_f(&pre.f, &post.f), "a memory access changes no register");
    check!(
        post.pc
            == if kind == EX {
                pre.pc.wrapping_add(1)
            } else {
                pre.pc
            },
        "fetching, and nothing else, advances the program counter"
    );

    let (a1, a2, phys, w1, w2);
    if vm {
        a1 = pre.w[14] as u32 + 4 * (addr as u32 >> 12);
        let e1 = mem.init_32(a1);
        w1 = wrong(e1, pre.f.user, kind);
        a2 = ((e1 >> 15) << 7) + 4 * ((addr as u32 >> 7) & 31);
        let e2 = if w1.any() { 0 } else { mem.init_32(a2) };
        w2 = wrong(e2, pre.f.user, kind);
        phys = ((e2 >> 15) << 7) | (addr as u32 & 127);
    } else {
        w1 = wrong(!0, false, RD);
        w2 = wrong(!0, false, RD);
        (a1, a2, phys) = (0, 0, addr as u32);
    }

    assume!(fine != (vm && (w1.any() || w2.any())));
    // how often memory was looked at outside of the page table entries
    let mut data_reads = 0;
    let mut i = 0;
    let mut stray = false;
    while i < LOG {
        if i < mem.nr {
            let a = mem.raddr[i];
            let entry = vm && (within(a, a1) || (!w1.any() && within(a, a2)));
            if !entry {
                data_reads += 1;
                stray = stray || a != phys;
            }
        }
        i += 1;
    }
    let is_entry = vm && (within(phys, a1) || within(phys, a2));
    let after = mem.now(probe);

    if !fine {
        match r {
            Ok(_) => {
                check!(false, "an access the page tables do not allow must fault");
            }
            Err(tm) => {
                let perm = match kind {
                    EX => TrapMode::IllegalExecute,
                    RD => TrapMode::IllegalRead,
                    _ => TrapMode::IllegalWrite,
                };
                if w1.any() {
                    check!(
                        w1.allows(tm, TrapMode::Level1PageFault, perm),
                        "the trap mode of an access that the top-level entry does not allow"
                    );
                } else {
                    check!(
                        w2.allows(tm, TrapMode::Level2PageFault, perm),
                        "the trap mode of an access that the low-level entry does not allow"
                    );
                }
            }
        }
        check!(data_reads == 0, "an access that faults does not reach the memory");
        check!(before == after, "an access that faults does not change the memory");
        reach!(w1.absent, "top-level entry not present");
        reach!(!w1.absent && w1.user, "top-level entry not for user mode");
        reach!(!w1.absent && w1.perm, "top-level entry without permission");
        reach!(!w1.any() && w2.absent, "low-level entry not present");
        reach!(!w1.any() && !w2.absent && w2.user, "low-level entry not for user mode");
        reach!(!w1.any() && !w2.absent && w2.perm, "low-level entry without permission");
        return;
    }
    match r {
        Err(_) => {
            check!(false, "an access the page tables allow must not fault");
        }
        Ok(v) => {
            if kind != WR {
                check!(v == mem.init(phys), "an access reaches the address it is translated to");
            }
        }
    }
    check!(!stray, "an access looks at nothing but the page tables and its own byte");
    if kind != WR {
        check!(is_entry || data_reads == 1, "a read looks at its byte once");
        check!(before == after, "reads and fetches change no memory");
    } else {
        check!(is_entry || data_reads == 0, "a write does not read");
        let expected = if probe == phys {
            val
        } else if vm && (probe == a1 || probe == a2) {
            before | D
        } else {
            before
        };
        check!(
            after == expected,
            "a write changes its byte, and the dirty bits of the two entries, only"
        );
        let mut writes = 0;
        let mut i = 0;
        while i < LOG {
            if i < mem.nw && mem.waddr[i] == phys {
                writes += 1;
            }
            i += 1;
        }
        check!(is_entry || writes == 1, "a write writes its byte once");
        reach!(vm && probe == a1 && after != before, "dirty bit set in the top-level entry");
        reach!(vm && probe == a2 && after != before, "dirty bit set in the low-level entry");
        reach!(probe == phys && after != before, "written");
    }
    reach!(pre.f.user, "access in user mode");
    reach!(!pre.f.user, "access in supervisor mode");
}

crate::proofs! {
    mmu_fetch, 18, [] { access(EX, true, true); }
    mmu_read, 18, [] { access(RD, true, true); }
    mmu_write, 18, [] { access(WR, true, true); }
    mmu_fetch_fault, 18, [] { access(EX, true, false); }
    mmu_read_fault, 18, [] { access(RD, true, false); }
    mmu_write_fault, 18, [] { access(WR, true, false); }
    mmu_fetch_direct, 18, [] { access(EX, false, true); }
    mmu_read_direct, 18, [] { access(RD, false, true); }
    mmu_write_direct, 18, [] { access(WR, false, true); }
}
