//! The emulated kernel: address spaces.

use telda2::blf4::std_kernel::{verif, EKernel};
use telda2::mem::MainMemory;

use crate::nd;
use crate::{assume, check, reach};

// ---------------------------------------------------------------- memory for page tables

const LOG: usize = 24;

/// Any memory, but for the pages handed out by the allocator during the call, which are zero: the loader works on
/// memory nobody has used above the allocator's bump pointer, and recycled pages are cleared (C13).
struct Mem {
    ni: usize,
    iaddr: [u32; LOG],
    ival: [u8; LOG],
    nw: usize,
    waddr: [u32; LOG],
    wval: [u8; LOG],
}
static mut FRESH: [u32; 2] = [0; 2];
static mut NFRESH: usize = 0;
/// pages the allocator does not hand out because they are in use
static mut USED: [u32; 6] = [0; 6];

fn is_fresh(addr: u32) -> bool {
    unsafe { NFRESH > 0 && addr & !127 == FRESH[0] || NFRESH > 1 && addr & !127 == FRESH[1] }
}
impl Mem {
    fn new() -> Self {
        unsafe {
            NFRESH = 0;
            FRESH = [0; 2];
            USED = [0; 6];
        }
        Mem { ni: 0, iaddr: [0; LOG], ival: [0; LOG], nw: 0, waddr: [0; LOG], wval: [0; LOG] }
    }
    fn init(&mut self, addr: u32) -> u8 {
        if is_fresh(addr) {
            return 0;
        }
        let mut i = 0;
        while i < LOG {
            if i < self.ni && self.iaddr[i] == addr {
                return self.ival[i];
            }
            i += 1;
        }
        let v = nd::u8();
        if self.ni < LOG {
            self.iaddr[self.ni] = addr;
            self.ival[self.ni] = v;
        }
        self.ni += 1;
        check!(self.ni <= LOG, "two page table entries are looked at");
        v
    }
    fn now(&mut self, addr: u32) -> u8 {
        let mut v = self.init(addr);
        let mut i = 0;
        while i < LOG {
            if i < self.nw && self.waddr[i] == addr {
                v = self.wval[i];
            }
            i += 1;
        }
        v
    }
    fn word(&mut self, a: u32) -> u32 {
        self.now(a) as u32 | (self.now(a + 1) as u32) << 8 | (self.now(a + 2) as u32) << 16 | (self.now(a + 3) as u32) << 24
    }
}
impl MainMemory for Mem {
    fn read(&mut self, addr: u32) -> u8 {
        self.now(addr)
    }
    fn write(&mut self, addr: u32, v: u8) {
        if self.nw < LOG {
            self.waddr[self.nw] = addr;
            self.wval[self.nw] = v;
        }
        self.nw += 1;
        check!(self.nw <= LOG, "two page table entries are written");
    }
}

/// The allocator by its contract (C13): a page not in use, all zero
fn s_allocate<M: MainMemory>(_: &mut EKernel, _: &mut M) -> u32 {
    let p = nd::u32();
    unsafe {
        assume!(p & 127 == 0 && p >= 0x8000 && p < 1 << 24);
        let mut i = 0;
        while i < 6 {
            assume!(p != USED[i]);
            i += 1;
        }
        assume!(NFRESH == 0 || p != FRESH[0]);
        check!(NFRESH < 2, "mapping a page allocates two pages at most");
        if NFRESH < 2 {
            FRESH[NFRESH] = p;
        }
        NFRESH += 1;
    }
    p
}

#[derive(Clone, Copy, PartialEq, Eq)]
struct Walk {
    present1: bool,
    table: u32,
    perm1: u8,
    present: bool,
    page: u32,
    perm: u8,
}

/// README, "Virtual memory"
fn walk(m: &mut Mem, root: u32, virt: u16) -> Walk {
    let e1 = m.word(root + ((virt >> 12) << 2) as u32);
    let table = (e1 >> 8) & 0xff_ff80;
    if e1 & 1 == 0 {
        return Walk { present1: false, table: 0, perm1: 0, present: false, page: 0, perm: 0 };
    }
    let e2 = m.word(table + ((virt >> 7 & 31) << 2) as u32);
    if e2 & 1 == 0 {
        return Walk { present1: true, table, perm1: e1 as u8, present: false, page: 0, perm: 0 };
    }
    Walk { present1: true, table, perm1: e1 as u8, present: true, page: (e2 >> 8) & 0xff_ff80, perm: e2 as u8 }
}

fn map_any() {
    let mut m = Mem::new();
    let root = nd::u16() as u32;
    assume!(root & 127 == 0 && root >= 0x8000);
    let virt = nd::u16();
    assume!(virt & 127 == 0);
    let other = nd::u16();
    assume!(other & 127 == 0 && other != virt);
    let flags = nd::u8();
    assume!(flags & 1 == 1 && flags & 0xc0 == 0);
    let a = walk(&mut m, root, virt);
    let b = walk(&mut m, root, other);
    // an address space whose tables and pages are pages of their own
    let same_table = virt >> 12 == other >> 12;
    assume!(!a.present1 || a.table >= 0x8000 && a.table != root);
    assume!(!b.present1 || b.table >= 0x8000 && b.table != root && (same_table || b.table != a.table));
    assume!(!a.present || a.page != root && a.page != a.table && a.page != b.table);
    assume!(!b.present || b.page != root && b.page != a.table && b.page != b.table);
    assume!(!a.present || !b.present || a.page != b.page);
    unsafe {
        USED = [root, a.table, b.table, a.page, b.page, 0];
    }
    let mut k = verif::kernel(nd::u16(), 0x8000, None);
    let r = verif::map(&mut verif::mmapper(&mut k, &mut m, root), virt, flags);
    let c = walk(&mut m, root, virt);
    let d = walk(&mut m, root, other);
    check!(c.present1 && c.present, "the page is mapped");
    check!(c.page == r, "map returns the physical page the virtual page is mapped to");
    check!(c.perm & flags == flags && c.perm1 & flags == flags, "both levels grant the permissions asked for");
    check!(c.perm == if a.present { a.perm | flags } else { flags }, "the page grants no other permissions than those it had");
    check!(!a.present1 || c.perm1 & a.perm1 == a.perm1, "the table keeps the permissions it had");
    check!(c.table & 127 == 0 && c.page & 127 == 0 && c.table != root && c.page != root && c.table != c.page,
        "tables and pages are pages of their own");
    check!(!d.present1 || d.table != root && (same_table || d.table != c.table) && d.table != c.page,
        "no page is the table of another");
    check!(!d.present || d.page != c.page && d.page != c.table && d.page != root, "no page is mapped twice");
    if a.present {
        check!(c.page == a.page && c.table == a.table, "a page that is mapped stays where it is");
        unsafe {
            check!(NFRESH == 0, "nothing is allocated for a page that is mapped");
        }
    } else {
        check!(is_fresh(r), "a page that is not mapped gets a page of its own");
        check!(!a.present1 || c.table == a.table, "a table that is there is kept");
    }
    check!(d.present == b.present && (!b.present || d.page == b.page && d.perm == b.perm),
        "the mapping of every other page stays as it was");
    check!(!b.present1 || d.table == b.table && (same_table && d.perm1 & b.perm1 == b.perm1 || d.perm1 == b.perm1),
        "other tables stay as they were");
    check!(d.present1 == b.present1 || same_table, "no other table appears");
    let mut i = 0;
    while i < LOG {
        check!(i >= m.nw || m.waddr[i] & !127 == root || m.waddr[i] & !127 == c.table, "only page tables are written");
        i += 1;
    }
    reach!(!a.present1, "new table");
    reach!(a.present1 && !a.present, "new page");
    reach!(a.present && c.perm != a.perm, "more permissions");
}

crate::proofs! {
    kernel_map, 26, [telda2::blf4::std_kernel::EKernel::allocate_page => s_allocate] {
        map_any();
    }
}
