//! Physical memory: several bytes at a time. The map itself is proved by Verus (verus/mem.py).

use telda2::mem::*;

use crate::mmu::AnyMem;
use crate::nd;
use crate::{assume, check, reach};

/// Expects the bytes of `data` at `addr` and up, in order: through the I/O ports the order is seen
struct Expect<'a> {
    addr: u32,
    data: &'a [u8],
    at: usize,
}
impl MainMemory for Expect<'_> {
    fn read(&mut self, _: u32) -> u8 {
        check!(false, "write_n reads nothing");
        0
    }
    fn write(&mut self, addr: u32, byte: u8) {
        check!(self.at < self.data.len() && addr == self.addr + self.at as u32 && byte == self.data[self.at],
            "write i of write_n puts byte i at addr + i");
        self.at += 1;
    }
}

crate::proofs! {
    mem_read_n, 20, [] {
        let mut m = AnyMem::new();
        let addr = nd::u32();
        assume!(addr <= (1 << 24) - 4);
        let r: [u8; 4] = read_n(&mut m, addr);
        let mut i = 0;
        while i < 4 {
            check!(r[i as usize] == m.now(addr + i), "byte i of read_n is the memory at addr + i");
            i += 1;
        }
        check!(m.writes() == 0, "read_n writes nothing");
        reach!(r == [1, 2, 3, 4], "read");
    }
    mem_write_n, 132, [] {
        #[cfg(kani)]
        let data: [u8; 128] = kani::any();
        #[cfg(not(kani))]
        let data: [u8; 128] = nd::tape::next();
        let len = nd::usize();
        assume!(len <= 128);
        let addr = nd::u32();
        assume!(addr <= (1 << 24) - 128);
        let mut m = Expect { addr, data: &data[..len], at: 0 };
        write_n(&mut m, addr, &data[..len]);
        check!(m.at == len, "write_n writes every byte");
        reach!(len == 128, "a page");
    }
}
