"""src/blf4/std_kernel.rs: segments in the address space of a program, for segments of any size and place"""
from . import alloc

B = "impl < M : MainMemory > MmapBuilder < '_ , M >"

JOB = dict(
    at_least=10,
    search="space",
    stand_in="the native search `space`",
    sources=[
        dict(file="src/lib.rs", only=[r"const PAGE_SIZE\w*", r"fn align_start"]),
        dict(file="src/mem.rs", only=[r"const HALF_CELL", r"trait MainMemory", r"fn write_n"]),
        dict(file="src/blf4/std_kernel.rs", only=[r"struct EKernel", r"struct MmapBuilder", r"impl EKernel",
                                                  r"impl < M : MainMemory > MmapBuilder.*"]),
    ],
    skip=(alloc.I + " :: mmapper", alloc.I + " :: allocate_page", alloc.I + " :: free_page", alloc.I + " :: new",
          B + " :: new_page", "trait MainMemory :: read", "trait MainMemory :: write"),
    inside={"trait MainMemory": alloc.JOB["inside"]["trait MainMemory"], alloc.I: alloc.JOB["inside"][alloc.I] + """
    proof fn none<M: MainMemory>(self, m: M)
        requires self.next() is None, page(self.bump())
        ensures self.list(m, Seq::empty())
    { }
    proof fn relist<M: MainMemory>(self, a: M, b: M, s: Seq<u32>, p: u32)
        requires self.list(a, s), frame(a, b, p), page(p), !s.contains(p), p < self.bump() <= 0x100_0000
        ensures self.list(b, s)
    {
        hide(word);
        assert forall|i: int| 0 <= i < s.len() implies word(b, #[trigger] s[i]) == word(a, s[i]) by {
            kept(a, b, p, s[i]);
        }
    }
""",
            B: """
    pub closed spec fn sound(self) -> bool { wf(*self.kernel, *self.mem, self.page_table1) }
    pub closed spec fn mapped(self, v: u16) -> bool { mapped(*self.mem, self.page_table1, v) }
    pub closed spec fn pg(self, v: u16) -> u32 { pg(*self.mem, self.page_table1, v) }
    pub closed spec fn perm(self, v: u16) -> u8 { perm(*self.mem, self.page_table1, v) }
    // permissions of the table the page is in
    pub closed spec fn perm1(self, v: u16) -> u8 { perm1(*self.mem, self.page_table1, v) }
    pub closed spec fn byte(self, v: u16) -> u8 { byte(*self.mem, self.page_table1, v) }
    // what is left to the owners
    #[verifier::prophetic] pub closed spec fn fm(self) -> M { *final(self.mem) }
    #[verifier::prophetic] pub closed spec fn fk(self) -> EKernel { *final(self.kernel) }
    pub closed spec fn root(self) -> u32 { self.page_table1 }
    // two pages may be needed for each page that is mapped
    pub closed spec fn mm(self) -> M { *self.mem }
    pub closed spec fn kk(self) -> EKernel { *self.kernel }
    pub open spec fn room(self, pages: int) -> bool { self.used() + 256 * pages <= 0x100_0000 }
    pub closed spec fn used(self) -> int { self.kernel.bump() as int }
    // what write_n to a mapped page does to the address space
    proof fn stored(self, b: Self, v: u16, at: int, d: Seq<u8>)
        requires
            self.sound(), self.mapped(v), v % 128 == 0,
            b.root() == self.root(), b.kk() == self.kk(),
            wrote(self.mm(), b.mm(), at, d), at + d.len() <= self.pg(v) + 128,
            self.pg(v) <= at < self.pg(v) + 128,
        ensures
            b.sound(), b.root() == self.root(),
            forall|w: u16| #[trigger] b.mapped(w) == self.mapped(w),
            forall|w: u16| #[trigger] b.mapped(w) ==> b.pg(w) == self.pg(w) && b.perm(w) == self.perm(w) && b.perm1(w) == self.perm1(w),
            forall|w: u16| #[trigger] b.mapped(w) ==> b.byte(w) == (
                if w / 128 == v / 128 && at <= self.pg(v) + w % 128 < at + d.len() { d[self.pg(v) + w % 128 - at] } else { self.byte(w) })
    {
        stored(*self.kernel, *self.mem, *b.mem, self.page_table1, v, at, d);
    }
    // nothing that is mapped moves, loses a permission
    pub open spec fn grown(self, b: Self) -> bool {
        &&& b.root() == self.root()
        &&& forall|v: u16| #[trigger] b.mapped(v) && self.mapped(v) ==> b.pg(v) == self.pg(v) && has(b.perm1(v), self.perm1(v)) && has(b.perm(v), self.perm(v))
        &&& forall|v: u16| self.mapped(v) ==> #[trigger] b.mapped(v)
    }
"""},
    headers={"trait MainMemory": "pub trait MainMemory: Sized "},
    contracts={
        "fn align_start": dict(ret="r", spec="""
        requires alignment == 128
        ensures r == addr / 128 * 128""", proof="        assert(addr & !127u16 == addr / 128 * 128) by (bit_vector);"),
        "fn write_n": dict(trusted=True, spec="""
        requires addr + data.len() <= 0x100_0000, addr >= 0x8000
        ensures wrote(*old(m), *final(m), addr as int, data@)"""),
        B + " :: map": dict(ret="r", trusted=True, spec="""
        requires
            old(self).sound(), old(self).room(1),
            virt % 128 == 0, flags_byte & 1 == 1, flags_byte & 0xc0 == 0,
        ensures
            final(self).sound(), old(self).grown(*final(self)), final(self).used() <= old(self).used() + 256,
            final(self).fm() == old(self).fm(), final(self).fk() == old(self).fk(),
            forall|w: u16| w / 128 == virt / 128 ==> #[trigger] final(self).mapped(w),
            forall|w: u16| w / 128 == virt / 128 && #[trigger] final(self).mapped(w) ==> final(self).pg(w) == r && has(final(self).perm1(w), flags_byte)
                && final(self).perm(w) == (if old(self).mapped(w) { old(self).perm(w) | flags_byte } else { flags_byte })
                && has(final(self).perm(w), flags_byte),
            forall|w: u16| w / 128 != virt / 128 ==> #[trigger] final(self).mapped(w) == old(self).mapped(w),
            forall|w: u16| w / 128 != virt / 128 && #[trigger] final(self).mapped(w) ==> final(self).perm(w) == old(self).perm(w),
            forall|w: u16| #[trigger] final(self).mapped(w) ==> final(self).byte(w) == (if old(self).mapped(w) { old(self).byte(w) } else { 0 }),
            forall|w: u16, f: u8| old(self).mapped(w) && has(old(self).perm1(w), f) ==> #[trigger] has(final(self).perm1(w), f),
            forall|w: u16, f: u8| old(self).mapped(w) && has(old(self).perm(w), f) ==> #[trigger] has(final(self).perm(w), f),
            final(self).mapped(virt), final(self).pg(virt) == r, r % 128 == 0, 0x8000 <= r < 0x100_0000"""),
        B + " :: map_wr_pages": dict(step_by=True, attrs=["verifier::loop_isolation(false)"], proof="        proof { bits16(virt); or8(); }", spec="""
        requires old(self).sound(), old(self).room(512), virt % 128 == 0
        ensures
            final(self).sound(), old(self).grown(*final(self)),
            final(self).fm() == old(self).fm(), final(self).fk() == old(self).fk(),
            final(self).used() <= old(self).used() + 256 * ((size + 127) / 128),
            // every page asked for can be read and written by the user
            forall|v: u16| virt / 128 <= v / 128 < (virt + size + 127) / 128 ==> #[trigger] final(self).mapped(v),
            forall|v: u16| virt / 128 <= v / 128 < (virt + size + 127) / 128 && #[trigger] final(self).mapped(v) ==>
                has(final(self).perm1(v), 0x27) && has(final(self).perm(v), 0x27) && has(if old(self).mapped(v) { old(self).perm(v) | 0x37 } else { 0x37 }, final(self).perm(v)),
            // no other page changes, and no content
            forall|v: u16| !(virt / 128 <= v / 128 < (virt + size + 127) / 128) ==> #[trigger] final(self).mapped(v) == old(self).mapped(v),
            forall|v: u16| !(virt / 128 <= v / 128 < (virt + size + 127) / 128) && #[trigger] final(self).mapped(v) ==> final(self).perm(v) == old(self).perm(v),
            forall|v: u16| #[trigger] final(self).mapped(v) ==> final(self).byte(v) == (if old(self).mapped(v) { old(self).byte(v) } else { 0 })""",
            loops=["""
            invariant
                self.sound(), old(self).grown(*self), self.fm() == old(self).fm(), self.fk() == old(self).fk(),
                self.used() <= old(self).used() + 256 * ((cur_ - virt + 127) / 128),
                virt <= cur_ <= range_.end, cur_ < range_.end ==> cur_ % 128 == 0,
                forall|v: u16| virt / 128 <= v / 128 < (cur_ + 127) / 128 ==> #[trigger] self.mapped(v),
                forall|v: u16| virt / 128 <= v / 128 < (cur_ + 127) / 128 && #[trigger] self.mapped(v) ==> has(self.perm(v), 0x27) && has(if old(self).mapped(v) { old(self).perm(v) | 0x37 } else { 0x37 }, self.perm(v)),
                forall|v: u16| virt / 128 <= v / 128 < (cur_ + 127) / 128 ==> #[trigger] self.mapped(v) ==> has(self.perm1(v), 0x27),
                forall|v: u16| !(virt / 128 <= v / 128 < (cur_ + 127) / 128) ==> #[trigger] self.mapped(v) == old(self).mapped(v),
                forall|v: u16| !(virt / 128 <= v / 128 < (cur_ + 127) / 128) && #[trigger] self.mapped(v) ==> self.perm(v) == old(self).perm(v),
                forall|v: u16| #[trigger] self.mapped(v) ==> self.byte(v) == (if old(self).mapped(v) { old(self).byte(v) } else { 0 }),
            decreases range_.end - cur_"""]),
        B + " :: add_segment": dict(step_by=True, attrs=["verifier::loop_isolation(false)"], proof="        proof { perms(permissions); or8(); }",
            around=[("write_n", "let ghost before = *self;", "proof { before.stored(*self, vaddr, arg1_ as int, arg2_@); }")],
            spec="""
        requires
            old(self).sound(), old(self).room(513), permissions & 0xc0 == 0, offset + bytes.len() <= 0x1_0000,
        ensures
            final(self).sound(), old(self).grown(*final(self)),
            final(self).fm() == old(self).fm(), final(self).fk() == old(self).fk(),
            final(self).used() <= old(self).used() + 256 * ((offset % 128 + bytes.len() + 127) / 128),
            // its bytes are found where the segment says, and may be accessed as it says
            forall|v: u16| offset <= v < offset + bytes.len() ==> #[trigger] final(self).mapped(v) && final(self).byte(v) == bytes[v - offset],
            forall|v: u16| offset / 128 <= v / 128 < (offset + bytes.len() + 127) / 128 ==> #[trigger] final(self).mapped(v),
            forall|v: u16| offset / 128 <= v / 128 < (offset + bytes.len() + 127) / 128 && #[trigger] final(self).mapped(v) ==>
                final(self).perm(v) == (if old(self).mapped(v) { old(self).perm(v) | (permissions | 0x21) } else { permissions | 0x21 })
                && has(final(self).perm1(v), permissions | 0x21),
            // nothing else changes
            forall|v: u16| !(offset / 128 <= v / 128 < (offset + bytes.len() + 127) / 128) ==> #[trigger] final(self).mapped(v) == old(self).mapped(v),
            forall|v: u16| !(offset / 128 <= v / 128 < (offset + bytes.len() + 127) / 128) && #[trigger] final(self).mapped(v) ==> final(self).perm(v) == old(self).perm(v),
            forall|v: u16| #[trigger] final(self).mapped(v) && !(offset <= v < offset + bytes.len()) ==>
                final(self).byte(v) == (if old(self).mapped(v) { old(self).byte(v) } else { 0 })""",
            loops=["""
            invariant
                self.sound(), old(self).grown(*self), self.fm() == old(self).fm(), self.fk() == old(self).fk(),
                self.used() <= old(self).used() + 256 * ((cur_ - start_vpage + 127) / 128),
                start_vpage <= cur_ <= range_.end, cur_ < range_.end ==> cur_ % 128 == 0,
                forall|v: u16| offset / 128 <= v / 128 < (cur_ + 127) / 128 ==> #[trigger] self.mapped(v),
                forall|v: u16| offset / 128 <= v / 128 < (cur_ + 127) / 128 ==> #[trigger] self.mapped(v) ==> self.perm(v) == (if old(self).mapped(v) { old(self).perm(v) | perm_bits } else { perm_bits }),
                forall|v: u16| offset / 128 <= v / 128 < (cur_ + 127) / 128 ==> #[trigger] self.mapped(v) ==> has(self.perm1(v), perm_bits),
                forall|v: u16| offset <= v < cur_ && #[trigger] self.mapped(v) ==> self.byte(v) == bytes[v - offset],
                forall|v: u16| !(offset / 128 <= v / 128 < (cur_ + 127) / 128) ==> #[trigger] self.mapped(v) == old(self).mapped(v),
                forall|v: u16| !(offset / 128 <= v / 128 < (cur_ + 127) / 128) && #[trigger] self.mapped(v) ==> self.perm(v) == old(self).perm(v),
                forall|v: u16| #[trigger] self.mapped(v) && !(offset <= v < cur_) ==>
                    self.byte(v) == (if old(self).mapped(v) { old(self).byte(v) } else { 0 }),
            decreases range_.end - cur_"""]),
    },
    prelude=alloc.JOB["prelude"] + """
pub open spec fn wrote<M: MainMemory>(a: M, b: M, at: int, d: Seq<u8>) -> bool {
    forall|x: u32| #[trigger] b.at(x) == (if at <= x < at + d.len() { d[x - at] } else { a.at(x) })
}
// README, "Virtual memory"
pub open spec fn t1<M: MainMemory>(m: M, root: u32, v: u16) -> u32 { word(m, (root + 4 * (v / 4096)) as u32) }
#[verifier::opaque]
pub open spec fn has_tab<M: MainMemory>(m: M, root: u32, v: u16) -> bool { t1(m, root, v) % 2 == 1 }
#[verifier::opaque]
pub open spec fn tab<M: MainMemory>(m: M, root: u32, v: u16) -> u32 { (t1(m, root, v) / 0x8000 * 128) as u32 }
pub open spec fn t2<M: MainMemory>(m: M, root: u32, v: u16) -> u32 { word(m, (tab(m, root, v) + 4 * (v / 128 % 32)) as u32) }
#[verifier::opaque]
pub open spec fn mapped<M: MainMemory>(m: M, root: u32, v: u16) -> bool { has_tab(m, root, v) && t2(m, root, v) % 2 == 1 }
#[verifier::opaque]
pub open spec fn pg<M: MainMemory>(m: M, root: u32, v: u16) -> u32 { (t2(m, root, v) / 0x8000 * 128) as u32 }
#[verifier::opaque]
pub open spec fn perm<M: MainMemory>(m: M, root: u32, v: u16) -> u8 { (t2(m, root, v) % 256) as u8 }
#[verifier::opaque]
pub open spec fn perm1<M: MainMemory>(m: M, root: u32, v: u16) -> u8 { (t1(m, root, v) % 256) as u8 }
#[verifier::opaque]
pub open spec fn byte<M: MainMemory>(m: M, root: u32, v: u16) -> u8 { m.at((pg(m, root, v) + v % 128) as u32) }
pub open spec fn live(k: EKernel, s: Seq<u32>, p: u32) -> bool { page(p) && p < k.bump() && !s.contains(p) }
pub open spec fn wfs<M: MainMemory>(k: EKernel, m: M, root: u32, s: Seq<u32>) -> bool {
    &&& k.list(m, s)
    &&& live(k, s, root)
    &&& forall|v: u16| #[trigger] has_tab(m, root, v) ==> live(k, s, tab(m, root, v)) && tab(m, root, v) != root
    &&& forall|v: u16| #[trigger] mapped(m, root, v) ==> live(k, s, pg(m, root, v)) && pg(m, root, v) != root
    &&& forall|v: u16, w: u16| #[trigger] has_tab(m, root, v) && #[trigger] has_tab(m, root, w) && v / 4096 != w / 4096
        ==> tab(m, root, v) != tab(m, root, w)
    &&& forall|v: u16, w: u16| #[trigger] mapped(m, root, v) && #[trigger] has_tab(m, root, w) ==> pg(m, root, v) != tab(m, root, w)
    &&& forall|v: u16, w: u16| #[trigger] mapped(m, root, v) && #[trigger] mapped(m, root, w) && v / 128 != w / 128
        ==> pg(m, root, v) != pg(m, root, w)
    // pages never handed out are zero
    &&& forall|a: u32| a >= k.bump() ==> #[trigger] m.at(a) == 0
}
#[verifier::opaque]
pub open spec fn wf<M: MainMemory>(k: EKernel, m: M, root: u32) -> bool { exists|s: Seq<u32>| wfs(k, m, root, s) }
// what Iterator::step_by does on a range
pub trait Next: Sized {
    spec fn v(self) -> int;
    fn next(self, step: usize, end: Self) -> (r: Self)
        requires self.v() < end.v(), step == 128
        ensures r.v() == (if self.v() + step < end.v() { self.v() + step } else { end.v() });
}
impl Next for u16 {
    open spec fn v(self) -> int { self as int }
    fn next(self, step: usize, end: Self) -> (r: Self) { if (end - self) as usize > step { self + step as u16 } else { end } }
}
impl Next for usize {
    open spec fn v(self) -> int { self as int }
    fn next(self, step: usize, end: Self) -> (r: Self) { if end - self > step { self + step } else { end } }
}
fn next_<T: Next>(cur: T, step: usize, end: T) -> (r: T)
    requires cur.v() < end.v(), step == 128
    ensures r.v() == (if cur.v() + step < end.v() { cur.v() + step } else { end.v() })
{ cur.next(step, end) }
proof fn same_word<M: MainMemory>(a: M, b: M, p: u32, t: u32, i: u32)
    requires frame(a, b, p), page(p), page(t), t < 0x100_0000, t != p, i < 32
    ensures word(a, (t + 4 * i) as u32) == word(b, (t + 4 * i) as u32)
{
    let x = (t + 4 * i) as u32;
    assert(!(p <= x < p + 0x80) && !(p <= x + 1 < p + 0x80) && !(p <= x + 2 < p + 0x80) && !(p <= x + 3 < p + 0x80)) by {
        assert(t + 128 <= p || p + 128 <= t);
    }
}
proof fn tables<M: MainMemory>(a: M, b: M, root: u32, p: u32, v: u16)
    requires
        frame(a, b, p), page(p), page(root), root != p, root < 0x100_0000,
        has_tab(a, root, v) ==> page(tab(a, root, v)) && tab(a, root, v) < 0x100_0000 && tab(a, root, v) != p,
    ensures
        has_tab(a, root, v) == has_tab(b, root, v), tab(a, root, v) == tab(b, root, v),
        mapped(a, root, v) == mapped(b, root, v),
        has_tab(a, root, v) ==> pg(a, root, v) == pg(b, root, v) && perm(a, root, v) == perm(b, root, v) && perm1(a, root, v) == perm1(b, root, v),
{
    hide(word); hide(frame);
    reveal(has_tab); reveal(tab); reveal(mapped); reveal(pg); reveal(perm); reveal(perm1);
    same_word(a, b, p, root, (v / 4096) as u32);
    if has_tab(a, root, v) {
        same_word(a, b, p, tab(a, root, v), (v / 128 % 32) as u32);
    }
}
// a write to a page that is mapped changes no mapping
proof fn data1<M: MainMemory>(k: EKernel, a: M, b: M, root: u32, s: Seq<u32>, v: u16)
    requires wfs(k, a, root, s), mapped(a, root, v), frame(a, b, pg(a, root, v)),
    ensures
        wfs(k, b, root, s),
        forall|w: u16| #[trigger] mapped(b, root, w) == mapped(a, root, w),
        forall|w: u16| #[trigger] mapped(b, root, w) ==> pg(b, root, w) == pg(a, root, w) && perm(b, root, w) == perm(a, root, w)
            && perm1(b, root, w) == perm1(a, root, w),
{
    hide(word); hide(frame); hide(EKernel::list);
    let p = pg(a, root, v);
    assert(page(k.bump()) && 0x8000 <= k.bump() <= 0x100_0000) by { k.inside(a, s); }
    k.relist(a, b, s, p);
    assert forall|w: u16| #![trigger has_tab(b, root, w)] #![trigger mapped(b, root, w)] has_tab(a, root, w) == has_tab(b, root, w) && tab(a, root, w) == tab(b, root, w)
        && mapped(a, root, w) == mapped(b, root, w) && (has_tab(a, root, w) ==> pg(a, root, w) == pg(b, root, w) && perm(a, root, w) == perm(b, root, w)
        && perm1(a, root, w) == perm1(b, root, w)) by {
        assert(has_tab(a, root, w) ==> tab(a, root, w) != p);
        tables(a, b, root, p, w);
    }
    assert forall|w: u16| mapped(b, root, w) implies #[trigger] has_tab(b, root, w) by { reveal(mapped); }
    assert forall|x: u32| x >= k.bump() implies #[trigger] b.at(x) == 0 by { reveal(frame); assert(a.at(x) == 0); }
}
// what write_n to a mapped page does to the address space
proof fn stored<M: MainMemory>(k: EKernel, a: M, b: M, root: u32, v: u16, at: int, d: Seq<u8>)
    requires
        wf(k, a, root), mapped(a, root, v), v % 128 == 0,
        wrote(a, b, at, d), at + d.len() <= pg(a, root, v) + 128,
        pg(a, root, v) <= at < pg(a, root, v) + 128,
    ensures
        wf(k, b, root),
        forall|w: u16| #[trigger] mapped(b, root, w) == mapped(a, root, w),
        forall|w: u16| #[trigger] mapped(b, root, w) ==> pg(b, root, w) == pg(a, root, w) && perm(b, root, w) == perm(a, root, w)
            && perm1(b, root, w) == perm1(a, root, w),
        forall|w: u16| #[trigger] mapped(b, root, w) ==> byte(b, root, w) == (
            if w / 128 == v / 128 && at <= pg(a, root, v) + w % 128 < at + d.len() { d[pg(a, root, v) + w % 128 - at] } else { byte(a, root, w) }),
{
    hide(wfs); hide(frame);
    reveal(wf);
    let s = choose|s: Seq<u32>| wfs(k, a, root, s);
    assert(frame(a, b, pg(a, root, v)) && page(pg(a, root, v))) by { reveal(wfs); reveal(frame); }
    data1(k, a, b, root, s, v);
    assert forall|w: u16| #[trigger] mapped(b, root, w) implies byte(b, root, w) == (
        if w / 128 == v / 128 && at <= pg(a, root, v) + w % 128 < at + d.len() { d[pg(a, root, v) + w % 128 - at] } else { byte(a, root, w) }) by {
        reveal(byte);
        assert(mapped(a, root, w));
        assert(page(pg(a, root, w)) && (w / 128 != v / 128 ==> pg(a, root, w) != pg(a, root, v))) by { reveal(wfs); }
        if w / 128 == v / 128 {
            same_page(a, root, v, w);
        }
    }
}
proof fn same_page<M: MainMemory>(m: M, root: u32, v: u16, w: u16)
    requires v / 128 == w / 128
    ensures mapped(m, root, v) == mapped(m, root, w), pg(m, root, v) == pg(m, root, w), perm(m, root, v) == perm(m, root, w), perm1(m, root, v) == perm1(m, root, w)
{
    reveal(has_tab); reveal(tab); reveal(mapped); reveal(pg); reveal(perm); reveal(perm1);
    assert(v / 4096 == w / 4096);
    assert(v / 128 % 32 == w / 128 % 32);
}
proof fn bits16(a: u16)
    ensures a & 127 == a % 128
{ assert(a & 127 == a % 128) by (bit_vector); }
pub open spec fn has(x: u8, y: u8) -> bool { x & y == y }
proof fn or8()
    ensures
        forall|x: u8, f: u8| #![trigger x | f] (x | f) & f == f, forall|f: u8| #![trigger f & f] f & f == f,
        0x37u8 & 1 == 1, 0x37u8 & 0xc0 == 0, forall|x: u8| #[trigger] has(x, 0x37) ==> has(x, 0x27), has(0x37, 0x37), forall|x: u8| #[trigger] has(x | 0x37, x | 0x37),
        forall|x: u8| #[trigger] has(x, x),
{
    assert(forall|x: u8| x & 0x37 == 0x37 ==> x & 0x27 == 0x27) by (bit_vector);
    assert(forall|x: u8| x & x == x) by (bit_vector);
    assert(forall|x: u8, f: u8| #![auto] (x | f) & f == f) by (bit_vector);
    assert(forall|f: u8| #![auto] f & f == f) by (bit_vector);
    assert(0x37u8 & 1 == 1 && 0x37u8 & 0xc0 == 0) by (bit_vector);
}
proof fn perms(p: u8)
    requires p & 0xc0 == 0
    ensures (p | 0x20 | 1) == p | 0x21, (p | 0x21) & 1 == 1, (p | 0x21) & 0xc0 == 0
{
    assert(p & 0xc0 == 0 ==> (p | 0x20 | 1) == p | 0x21 && (p | 0x21) & 1 == 1 && (p | 0x21) & 0xc0 == 0) by (bit_vector);
}
""",
    trusted=[
        "Verus 0.2026.09.13 with its Z3, and vstd",
        "MmapBuilder::map by its contract (the proof kernel_map of Kani is about its body)",
        "write_n by its contract (C12)",
    ],
)
