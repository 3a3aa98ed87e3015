"""src/blf4/std_kernel.rs: the page allocator, over every history"""
I = "impl EKernel"

JOB = dict(
    at_least=8,
    search="alloc",
    stand_in="the native search `alloc` of random histories",
    by_kani=(I + " :: new", I + " :: allocate_page", I + " :: free_page"),
    kani=["alloc::alloc_" + n for n in ("new", "bump", "reuse", "free")],
    sources=[
        dict(file="src/lib.rs", only=[r"const PAGE_SIZE\w*"]),
        dict(file="src/mem.rs", only=[r"const HALF_CELL", r"trait MainMemory", r"fn read_n", r"fn write_n"]),
        dict(file="src/blf4/std_kernel.rs", only=[r"struct EKernel", r"impl EKernel"]),
    ],
    rename=[("u32 :: from_le_bytes", "le_word"), ("to_le_bytes", "le_bytes")],
    skip=(I + " :: mmapper", "trait MainMemory :: read", "trait MainMemory :: write"),
    inside={
        "trait MainMemory": """
    spec fn at(self, a: u32) -> u8;
""",
        I: """
    // the free list: `s` are its pages, the head first; each page's first word names the next, 1 ends the list
    pub closed spec fn list<M: MainMemory>(self, mem: M, s: Seq<u32>) -> bool {
        &&& page(self.page_bumper)
        &&& self.next_free == (if s.len() == 0 { None } else { Some(s[0]) })
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
        &&& forall|i: int| 0 <= i < s.len() ==> page(#[trigger] s[i]) && s[i] < self.page_bumper
        &&& forall|i: int| 0 <= i < s.len() ==> word(mem, #[trigger] s[i]) == (if i + 1 < s.len() { s[i + 1] } else { 1u32 })
    }
    proof fn inside<M: MainMemory>(self, m: M, s: Seq<u32>)
        requires self.list(m, s)
        ensures
            page(self.bump()), forall|i: int| 0 <= i < s.len() ==> page(#[trigger] s[i]) && s[i] < self.bump(),
            forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j],
    { }
    pub closed spec fn next(self) -> Option<u32> { self.next_free }
    pub closed spec fn bump(self) -> u32 { self.page_bumper }
    pub closed spec fn handler(self) -> u16 { self.error_handler }
""",
    },
    headers={"trait MainMemory": "pub trait MainMemory: Sized "},
    contracts={
        "fn read_n": dict(ret="r", trusted=True, spec="""
        requires addr + N <= 0x100_0000
        ensures
            forall|i: int| 0 <= i < N ==> r[i] == old(m).at((addr + i) as u32),
            forall|a: u32| final(m).at(a) == old(m).at(a)"""),
        "fn write_n": dict(trusted=True, spec="""
        requires addr + data.len() <= 0x100_0000, addr >= 0x8000
        ensures forall|a: u32| #[trigger] final(m).at(a) == (
            if addr <= a < addr + data.len() { data[a - addr] } else { old(m).at(a) })"""),
        I + " :: new": dict(ret="r", spec="""
        ensures r.bump() == 0x8000, r.next() is None"""),
        I + " :: allocate_page": dict(ret="r", proof="        hide(le); broadcast use pop;", spec="""
        requires
            exists|s: Seq<u32>| old(self).list(*old(mem), s),
            // the 24 bits of physical memory are not used up
            old(self).bump() + 0x80 <= 0x100_0000,
        ensures
            final(self).handler() == old(self).handler(),
            frame(*old(mem), *final(mem), r),
            forall|s: Seq<u32>| #[trigger] old(self).list(*old(mem), s) ==> (
                if s.len() > 0 {
                    r == s[0] && final(self).bump() == old(self).bump()
                    && final(self).list(*final(mem), s.drop_first())
                    && (forall|a: u32| r <= a < r + 0x80 ==> #[trigger] final(mem).at(a) == 0)
                } else {
                    r == old(self).bump() && final(self).bump() == old(self).bump() + 0x80
                    && final(self).list(*final(mem), s)
                    && (forall|a: u32| #[trigger] final(mem).at(a) == old(mem).at(a))
                })"""),
        I + " :: free_page": dict(proof="        hide(le); broadcast use push; proof { bits(addr); }", spec="""
        requires exists|s: Seq<u32>| old(self).list(*old(mem), s), page(addr), addr < old(self).bump(),
        ensures
            final(self).handler() == old(self).handler(), final(self).bump() == old(self).bump(),
            frame(*old(mem), *final(mem), addr),
            forall|s: Seq<u32>| #[trigger] old(self).list(*old(mem), s) && !s.contains(addr)
                ==> final(self).list(*final(mem), seq![addr] + s)"""),
    },
    prelude="""
pub open spec fn page(a: u32) -> bool { a % 0x80 == 0 && 0x8000 <= a <= 0x100_0000 }
pub open spec fn word<M: MainMemory>(m: M, a: u32) -> u32 {
    le(m.at(a), m.at((a + 1) as u32), m.at((a + 2) as u32), m.at((a + 3) as u32))
}
pub open spec fn le(a: u8, b: u8, c: u8, d: u8) -> u32 {
    (a + 0x100 * b + 0x1_0000 * c + 0x100_0000 * d) as u32
}
#[verifier::external_body]
pub fn le_word(b: [u8; 4]) -> (r: u32)
    ensures r == le(b[0], b[1], b[2], b[3])
{ u32::from_le_bytes(b) }
pub trait LeBytes: Sized {
    spec fn is(self, r: [u8; 4]) -> bool;
    fn le_bytes(self) -> (r: [u8; 4]) ensures self.is(r);
}
impl LeBytes for u32 {
    open spec fn is(self, r: [u8; 4]) -> bool { le(r[0], r[1], r[2], r[3]) == self }
    #[verifier::external_body]
    fn le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
// nothing but one page has changed
pub open spec fn frame<M: MainMemory>(a: M, b: M, p: u32) -> bool {
    forall|x: u32| !(p <= x < p + 0x80) ==> #[trigger] b.at(x) == a.at(x)
}
proof fn bits(a: u32)
    ensures a & 127 == a % 128
{ assert(a & 127 == a % 128) by (bit_vector); }
proof fn kept<M: MainMemory>(m: M, m2: M, p: u32, a: u32)
    requires frame(m, m2, p), page(p), page(a), a != p, a < 0x100_0000
    ensures word(m2, a) == word(m, a)
{
    assert(a + 3 < 0x100_0003);
}
pub broadcast proof fn pop<M: MainMemory>(k: EKernel, m: M, s: Seq<u32>, k2: EKernel, m2: M)
    requires
        #[trigger] k.list(m, s), s.len() > 0, frame(m, m2, s[0]), k2.bump() == k.bump(),
        k2.next() == (if word(m, s[0]) == 1 { None } else { Some(word(m, s[0])) }),
    ensures #[trigger] k2.list(m2, s.drop_first())
{
    hide(word);
    let t = s.drop_first();
    assert forall|i: int| 0 <= i < t.len() implies
        page(#[trigger] t[i]) && t[i] < k.bump() && word(m2, t[i]) == (if i + 1 < t.len() { t[i + 1] } else { 1u32 }) by {
        assert(t[i] == s[i + 1]);
        assert(s[0] != s[i + 1]);
        kept(m, m2, s[0], s[i + 1]);
    }
}
pub broadcast proof fn push<M: MainMemory>(k: EKernel, m: M, s: Seq<u32>, k2: EKernel, m2: M, p: u32)
    requires
        #[trigger] k.list(m, s), !s.contains(p), page(p), p < k.bump(), frame(m, m2, p), k2.bump() == k.bump(),
        k2.next() == Some(p), word(m2, p) == (if s.len() == 0 { 1 } else { s[0] }),
    ensures #[trigger] k2.list(m2, seq![p] + s)
{
    hide(word);
    let t = seq![p] + s;
    assert forall|i: int| 0 <= i < t.len() implies
        page(#[trigger] t[i]) && t[i] < k.bump() && word(m2, t[i]) == (if i + 1 < t.len() { t[i + 1] } else { 1u32 }) by {
        if i > 0 {
            assert(t[i] == s[i - 1]);
            kept(m, m2, p, s[i - 1]);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by {
        assert(t[j] == s[j - 1]);
        if i > 0 { assert(t[i] == s[i - 1]); }
    }
    assert(t[0] == p);
}
""",
    epilogue="""
// The property, for one call; `s` is the free list before, the result names the one after, so it composes to any history.
pub open spec fn live(k: EKernel, s: Seq<u32>, p: u32) -> bool { page(p) && p < k.bump() && !s.contains(p) }
fn property_allocate<M: MainMemory>(k: &mut EKernel, m: &mut M, Ghost(s): Ghost<Seq<u32>>) -> (r: (u32, Ghost<Seq<u32>>))
    requires old(k).list(*old(m), s), old(k).bump() + 0x80 <= 0x100_0000,
    ensures
        final(k).list(*final(m), r.1@),
        page(r.0) && !live(*old(k), s, r.0),
        forall|p: u32| live(*final(k), r.1@, p) <==> live(*old(k), s, p) || p == r.0,
        // nothing but that page changes; a page used before is cleared, a page never used is not touched
        frame(*old(m), *final(m), r.0),
        forall|x: u32| r.0 <= x < r.0 + 0x80 ==> #[trigger] final(m).at(x) == 0 || r.0 >= old(k).bump() && final(m).at(x) == old(m).at(x),
{
    proof { k.inside(*m, s); }
    let r = k.allocate_page(m);
    let ghost t = if s.len() > 0 { s.drop_first() } else { s };
    proof {
        if s.len() > 0 {
            assert forall|p: u32| s.contains(p) <==> t.contains(p) || p == s[0] by {
                if s.contains(p) {
                    let i = choose|i: int| 0 <= i < s.len() && s[i] == p;
                    if i > 0 { assert(t[i - 1] == p); }
                }
                if t.contains(p) {
                    let i = choose|i: int| 0 <= i < t.len() && t[i] == p;
                    assert(s[i + 1] == p);
                }
            }
        }
        k.inside(*m, t);
    }
    (r, Ghost(t))
}
fn property_free<M: MainMemory>(k: &mut EKernel, m: &mut M, addr: u32, Ghost(s): Ghost<Seq<u32>>) -> (r: Ghost<Seq<u32>>)
    requires old(k).list(*old(m), s), live(*old(k), s, addr),
    ensures
        final(k).list(*final(m), r@),
        forall|p: u32| live(*final(k), r@, p) <==> live(*old(k), s, p) && p != addr,
        forall|x: u32| !(addr <= x < addr + 0x80) ==> #[trigger] final(m).at(x) == old(m).at(x),
{
    k.free_page(addr, m);
    let ghost t = seq![addr] + s;
    proof {
        assert forall|p: u32| t.contains(p) <==> s.contains(p) || p == addr by {
            if s.contains(p) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == p;
                assert(t[i + 1] == p);
            }
            assert(t[0] == addr);
        }
    }
    Ghost(t)
}
""",
    trusted=[
        "Verus 0.2026.09.13 with its Z3, and vstd",
        "read_n and write_n by their contracts (C12 proves them)",
        "assumed specifications of u32::from_le_bytes and u32::to_le_bytes",
    ],
)
