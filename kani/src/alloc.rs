//! The page allocator, one call: the contracts verus/alloc.py composes to histories of any length.

use telda2::blf4::std_kernel::verif;
use telda2::mem::MainMemory;

use crate::nd;
use crate::{assume, check, reach};

const LOG: usize = 160;

/// Any memory, with a log of all writes
struct Mem {
    ni: usize,
    iaddr: [u32; 16],
    ival: [u8; 16],
    nw: usize,
    waddr: [u32; LOG],
    wval: [u8; LOG],
}
impl Mem {
    fn new() -> Self {
        Mem { ni: 0, iaddr: [0; 16], ival: [0; 16], nw: 0, waddr: [0; LOG], wval: [0; LOG] }
    }
    fn init(&mut self, addr: u32) -> u8 {
        let mut i = 0;
        while i < self.ni && i < 16 {
            if self.iaddr[i] == addr {
                return self.ival[i];
            }
            i += 1;
        }
        let v = nd::u8();
        if self.ni < 16 {
            self.iaddr[self.ni] = addr;
            self.ival[self.ni] = v;
        }
        self.ni += 1;
        check!(self.ni <= 16, "the allocator looks at one word");
        v
    }
    fn now(&mut self, addr: u32) -> u8 {
        let mut v = self.init(addr);
        let mut i = 0;
        while i < self.nw && i < LOG {
            if self.waddr[i] == addr {
                v = self.wval[i];
            }
            i += 1;
        }
        v
    }
    fn word(&mut self, a: u32) -> u32 {
        self.now(a) as u32 | (self.now(a + 1) as u32) << 8 | (self.now(a + 2) as u32) << 16 | (self.now(a + 3) as u32) << 24
    }
}
impl MainMemory for Mem {
    fn read(&mut self, addr: u32) -> u8 {
        self.now(addr)
    }
    fn write(&mut self, addr: u32, v: u8) {
        if self.nw < LOG {
            self.waddr[self.nw] = addr;
            self.wval[self.nw] = v;
        }
        self.nw += 1;
        check!(addr < 1 << 24, "physical addresses have 24 bits");
        check!(self.nw <= LOG, "a page is written, once");
    }
}

fn page() -> u32 {
    let p = nd::u32();
    assume!(p & 127 == 0 && p >= 0x8000 && p < 1 << 24);
    p
}

crate::proofs! {
    alloc_new, 4, [] {
        let (_, bump, free) = verif::parts(&telda2::blf4::std_kernel::EKernel::new());
        check!(bump == 0x8000 && free == None, "a new allocator starts above the ROM with nothing freed");
        reach!(true, "new");
    }
    alloc_bump, 164, [] {
        let (h, bump) = (nd::u16(), page());
        let mut m = Mem::new();
        let mut k = verif::kernel(h, bump, None);
        let r = k.allocate_page(&mut m);
        check!(r == bump, "with nothing freed, the page is the next one never used");
        let (h2, bump2, free2) = verif::parts(&k);
        check!(bump2 == bump + 128 && free2 == None && h2 == h, "that page is not given again");
        let x = nd::u32();
        assume!(x < 1 << 24);
        let was = m.init(x);
        check!(m.now(x) == was, "memory stays as it is");
        reach!(r == 0x8000, "first page");
    }
    alloc_reuse, 164, [] {
        let (h, bump, head) = (nd::u16(), page(), page());
        assume!(head < bump);
        let mut m = Mem::new();
        let next = m.word(head);
        assume!(next == 1 || next & 127 == 0 && next >= 0x8000 && next < bump && next != head);
        let mut k = verif::kernel(h, bump, Some(head));
        let r = k.allocate_page(&mut m);
        check!(r == head, "the page freed last is given first");
        let (h2, bump2, free2) = verif::parts(&k);
        check!(bump2 == bump && h2 == h, "no page is taken that was never used");
        check!(free2 == if next == 1 { None } else { Some(next) }, "the other freed pages stay on the list");
        let x = nd::u32();
        assume!(x < 1 << 24);
        let was = m.init(x);
        let inside = x >= r && x - r < 128;
        check!(!inside || m.now(x) == 0, "a page given again is cleared");
        check!(inside || m.now(x) == was, "no other memory changes");
        reach!(next == 1 && inside, "last freed page");
        reach!(next != 1 && !inside, "more freed pages");
    }
    alloc_free, 164, [] {
        let (h, bump, addr) = (nd::u16(), page(), page());
        assume!(addr < bump);
        let head = if nd::bool() { Some(page()) } else { None };
        assume!(head != Some(addr) && (head.is_none() || head.unwrap() < bump));
        let mut m = Mem::new();
        let mut k = verif::kernel(h, bump, head);
        k.free_page(addr, &mut m);
        let (h2, bump2, free2) = verif::parts(&k);
        check!(bump2 == bump && h2 == h, "freeing takes no page");
        check!(free2 == Some(addr), "the freed page is the head of the list");
        check!(m.word(addr) == head.unwrap_or(1), "it links to the pages freed before");
        let x = nd::u32();
        assume!(x < 1 << 24 && !(x >= addr && x - addr < 128));
        let was = m.init(x);
        check!(m.now(x) == was, "no memory outside the page changes");
        reach!(head.is_none(), "first");
        reach!(head.is_some(), "another");
    }
}
