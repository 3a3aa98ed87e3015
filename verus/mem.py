"""src/mem.rs: the physical memory map"""

IMPL = "impl < P : Io > MainMemory for LazyMain < P >"
OWN = "impl < P > LazyMain < P >"

JOB = dict(
    at_least=12,
    search="mem",
    stand_in="the native search `mem`",
    sources=[
        dict(file="src/lib.rs", only=[r"const PAGE_SIZE\w*"]),
        dict(file="src/mem.rs", drop=[r"fn read_n", r"fn write_n", r"struct PanickingIO", r"struct StdIo",
                                      r"impl Io for .*"]),
    ],
    inside={
        "trait MainMemory": """
    spec fn reads(pre: Self, post: Self, addr: u32, v: u8) -> bool;
    spec fn writes(pre: Self, post: Self, addr: u32, v: u8) -> bool;
""",
        "trait Io": """
    spec fn reads(pre: Self, post: Self, addr: u8, v: u8) -> bool;
    spec fn writes(pre: Self, post: Self, addr: u8, v: u8) -> bool;
""",
        IMPL: """
    // the property: which device answers for which physical address
    open spec fn reads(pre: Self, post: Self, addr: u32, v: u8) -> bool {
        if addr < 0x80 {
            same(pre, post, 0) && P::reads(pre.io(), post.io(), addr as u8, v)
        } else {
            same(pre, post, 0) && pre.io() == post.io() && v == pre.at(addr)
        }
    }
    open spec fn writes(pre: Self, post: Self, addr: u32, v: u8) -> bool {
        if addr < 0x80 {
            same(pre, post, 0) && P::writes(pre.io(), post.io(), addr as u8, v)
        } else if addr < 0x8000 {
            same(pre, post, 0) && pre.io() == post.io()
        } else {
            pre.io() == post.io() && same(pre, post, addr) && post.at(addr) == v
        }
    }
""",
        OWN: """
    // abstraction: the content of physical address `a`
    pub closed spec fn at(self, a: u32) -> u8 {
        if a < 0x8000 {
            if self.rom is Some { self.rom->0[a - 0x80] } else { 0 }
        } else if a < 0x10000 {
            self.ram0[a - 0x8000]
        } else {
            match self.cells[(a / 0x10000) as int - 1] {
                Some(c) => c[(a % 0x10000) as int],
                None => 0,
            }
        }
    }
    pub closed spec fn io(self) -> P { self.ports }
""",
    },
    headers={
        "trait MainMemory": "pub trait MainMemory: Sized ",
        "trait Io": "pub trait Io: Sized ",
    },
    contracts={
        "trait MainMemory :: read": dict(ret="r", spec="""
        requires addr < 0x100_0000
        ensures Self::reads(*old(self), *final(self), addr, r)"""),
        "trait MainMemory :: write": dict(spec="""
        requires addr < 0x100_0000
        ensures Self::writes(*old(self), *final(self), addr, byte)"""),
        "trait Io :: read": dict(ret="r", spec="        ensures Self::reads(*old(self), *final(self), addr, r)"),
        "trait Io :: write": dict(spec="        ensures Self::writes(*old(self), *final(self), addr, val)"),
        IMPL + " :: read": dict(
            ret="r", proof="        proof { split(addr); }",
            closures=[("| a |", "-> (r: u8) ensures r == a[(addr - PAGE_SIZE_P) as usize as int]")]),
        IMPL + " :: write": dict(proof="        proof { split(addr); }"),
        OWN + " :: new": dict(ret="r", spec="""
        ensures r.io() == ports, forall|a: u32| 0x80 <= a < 0x100_0000 ==> #[trigger] r.at(a) == 0""",
                              closures=[("| ( ) |", "-> (r: Option<Box<[u8; 256 * 256]>>) ensures r is None", "|_unit: ()|")]),
        OWN + " :: with_rom": dict(ret="r", spec="""
        requires bytes.len() <= 0x7f80
        ensures
            r.io() == self.io(),
            forall|a: u32| 0x80 <= a < 0x100_0000 ==> #[trigger] r.at(a) == (
                if a < 0x8000 {
                    if a - 0x80 < bytes.len() { bytes[a - 0x80] } else { 0 }
                } else {
                    self.at(a)
                })""",
                                   closures=[("| i |", "-> (r: u8) ensures r == (if i < bytes@.len() { bytes@[i as int] } else { 0 })")]),
    },
    prelude="""
pub open spec fn same<P>(a: LazyMain<P>, b: LazyMain<P>, but: u32) -> bool {
    forall|x: u32| 0x80 <= x < 0x100_0000 && x != but ==> #[trigger] a.at(x) == b.at(x)
}
proof fn split(a: u32)
    ensures a >> 16 == a / 0x10000, a & 0xffff == a % 0x10000, a & 0xffff == a & 65535,
{
    assert(a >> 16 == a / 0x10000) by (bit_vector);
    assert(a & 0xffff == a % 0x10000) by (bit_vector);
}
pub assume_specification<T, const N: usize, F: FnMut(usize) -> T>[ core::array::from_fn::<T, N, F> ](f: F) -> (r: [T; N])
    requires forall|i: usize| i < N ==> call_requires(f, (i,)),
    ensures forall|i: usize| #![trigger r[i as int]] i < N ==> call_ensures(f, (i,), r[i as int]);
pub assume_specification<T, const N: usize, F: FnMut(T) -> U, U>[ <[T; N]>::map::<F, U> ](a: [T; N], f: F) -> (r: [U; N])
    requires forall|i: int| 0 <= i < N ==> call_requires(f, (a[i],)),
    ensures forall|i: int| #![trigger r[i]] 0 <= i < N ==> call_ensures(f, (a[i],), r[i]);
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
""",
    trusted=[
        "Verus 0.2026.09.13 with its Z3, and vstd's specifications of Option, Box, slices and arrays",
        "assumed specifications of core::array::from_fn, <[T; N]>::map and Option::copied (verus/mem.py)",
        "devices behind the I/O ports: any implementation of trait Io, through its relation only",
    ],
)
