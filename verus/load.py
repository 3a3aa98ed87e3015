"""src/blf4/std_kernel/load_user_binary.rs: the address space of a loaded program, for any number of segments"""
from . import alloc, space

B = space.B
L = "impl < M : MainMemory > Machine < M , Blf4 >"
COPY = [(r"^", "#[derive(Clone, Copy)]\n")]


def trusted(c):
    return dict(ret=c.get("ret"), spec=c["spec"], trusted=True) if c.get("ret") else dict(spec=c["spec"], trusted=True)


JOB = dict(
    at_least=12,
    search="load",
    stand_in="the native search `load`",
    sources=[
        dict(file="src/lib.rs", only=[r"const PAGE_SIZE\w*", r"fn align_start"]),
        dict(file="src/mem.rs", only=[r"const HALF_CELL", r"trait MainMemory"]),
        dict(file="src/machine/mod.rs", only=[r"struct Machine"]),
        dict(file="src/blf4/mod.rs", only=[r"const PERM_\w", r"const FLAG_\w", r"struct Blf4", r"struct Blf4Flags"]),
        dict(file="src/aalv/obj.rs", only=[r"struct Object", r"struct Entry", r"struct Flags", r"struct StackSize", r"struct HeapSize",
                                           r"enum SegmentType", r"impl Default for .*"]),
        dict(file="src/blf4/std_kernel.rs", only=[r"struct EKernel", r"struct MmapBuilder", r"impl EKernel", r"impl < M : MainMemory > MmapBuilder.*"]),
        dict(file="src/blf4/std_kernel/load_user_binary.rs"),
    ],
    rename=[("BTreeMap < SegmentType , ( u16 , Vec < u8 > ) >", "Segs_")],
    skip=(alloc.I + " :: free_page", B + " :: new_page", B + " :: map", "trait MainMemory :: read", "trait MainMemory :: write"),
    rewrite_items={
        "struct Machine": [(r"ekernel: Option<Box<dyn EmulatedKernel<C>>>", "pub ekernel: Option<EKernel>"), (r"^pub struct", "#[verifier::reject_recursive_types(C)]\npub struct")],
        "struct Blf4": [(r"\n\s+general_purposes", "\n    pub general_purposes")],
        "struct Object": [(r"BTreeMap<SegmentType, \(u16, Vec<u8>\)>", "Segs_")],
        "struct Entry": COPY, "struct Flags": COPY, "struct StackSize": COPY, "struct HeapSize": COPY, "struct Blf4Flags": COPY,
        "enum SegmentType": [(r"^", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n")],
    },
    inside=dict(space.JOB["inside"]),
    headers=dict(space.JOB["headers"]),
    contracts={
        "fn align_start": space.JOB["contracts"]["fn align_start"],
        alloc.I + " :: new": alloc.JOB["contracts"][alloc.I + " :: new"],
        alloc.I + " :: allocate_page": trusted(alloc.JOB["contracts"][alloc.I + " :: allocate_page"]),
        "impl Default for Flags :: default": dict(ret="r", spec="""
        ensures !r.readable_text"""),
        alloc.I + " :: mmapper": dict(ret="r", ret_ty="MmapBuilder<'a, M>", spec="""
        ensures r.root() == page_table1, r.kk() == *old(self), r.mm() == *old(mem), r.fk() == *final(self), r.fm() == *final(mem)"""),
        B + " :: add_segment": trusted(space.JOB["contracts"][B + " :: add_segment"]),
        B + " :: map_wr_pages": trusted(space.JOB["contracts"][B + " :: map_wr_pages"]),
        L + " :: load_user_binary": dict(over_map=True, proof="        proof { consts(); obj.segs.six(); }", attrs=["verifier::loop_isolation(false)"],
            after=[("permissions", "assert(n_ <= 6 && mmbuilder.used() <= 0x8080 + 262656 * (n_ - 1));"), ("stack_start", "assert(mmbuilder.used() <= 0x8080 + 262656 * 6);"), ("ekernel", "proof { ekernel.none(self.memory); }"), ("mmbuilder", "let ghost loose = mmbuilder; proof { empty(*obj, mmbuilder); }"), ("page_table1", "let ghost first = ekernel; proof { begin(ekernel, self.memory, page_table1); }")],
            around=[("add_segment", "let ghost before = RECV; assert(RECV.used() + 256 * 513 <= 0x100_0000);", "proof { assert(arg1_ == obj.segs.seq()[n_ - 1].offset && arg2_@ =~= obj.segs.seq()[n_ - 1].bytes); seg_step(*obj, n_ as int, before, RECV, arg0_); assert(RECV.used() <= before.used() + 256 * 513); }"),
                    ("map_wr_pages", "let ghost before = RECV; assert(RECV.used() + 256 * 513 <= 0x100_0000);", ["proof { heap_step(*obj, n_ as int, before, RECV, arg0_, arg1_); assert(RECV.used() <= before.used() + 256 * 513); }", "proof { stack_step(*obj, before, RECV, arg0_, arg1_); finish(*obj, RECV); }"])],
            loop_ends=["proof { assert(mmbuilder.used() <= 0x8080 + 262656 * (n_ - 1) + 262656); close(*obj, n_ as int, mmbuilder); }"],
            spec="""
        requires
            // a machine as it is made: nothing above the ROM
            forall|a: u32| a >= 0x8000 ==> #[trigger] old(self).memory.at(a) == 0,
            forall|i: int| 0 <= i < obj.segs.seq().len() ==> (#[trigger] obj.segs.seq()[i]).offset + obj.segs.seq()[i].bytes.len() <= 0x1_0000,
        ensures
            final(self).cpu.flags.virtual_mode && final(self).cpu.flags.user_mode,
            final(self).cpu.stack == 0xffff, final(self).cpu.frame == 0xffff,
            final(self).cpu.program_counter == (match obj.entry { Some(e) => e.1, None => old(self).cpu.program_counter }),
            final(self).installed() is Some,
            loaded(*obj, final(self).installed()->0, final(self).memory, final(self).cpu.page as u32)""",
            loops=["""
            invariant
                n_ <= it_.seq().len() <= 6, it_ == obj.segs,
                mmbuilder.sound(), mmbuilder.root() == page_table1, mmbuilder.fm() == loose.fm(), mmbuilder.fk() == loose.fk(),
                mmbuilder.used() <= 0x8080 + 262656 * n_,
                fits(*obj, n_ as int, mmbuilder),
            decreases it_.seq().len() - n_"""]),
    },
    prelude=space.JOB["prelude"] + """
pub assume_specification [usize::next_multiple_of] (x: usize, y: usize) -> (r: usize)
    requires y > 0, x + y <= usize::MAX
    ensures r as int == (x + y - 1) / (y as int) * y;
// the segments of an object in the order of their types
#[verifier::external_body]
pub struct Segs_ { x: u8 }
pub ghost struct Seg { pub t: SegmentType, pub offset: u16, pub bytes: Seq<u8> }
impl Segs_ {
    pub uninterp spec fn seq(self) -> Seq<Seg>;
    #[verifier::external_body]
    pub proof fn six(&self)
        ensures self.seq().len() <= 6
    { }
    #[verifier::external_body]
    pub fn count_(&self) -> (n: usize)
        ensures n == self.seq().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn item_(&self, i: usize) -> (r: (&SegmentType, &(u16, Vec<u8>)))
        requires i < self.seq().len()
        ensures *r.0 == self.seq()[i as int].t, r.1.0 == self.seq()[i as int].offset, r.1.1@ == self.seq()[i as int].bytes
    { unimplemented!() }
    pub fn iter(&self) -> (r: &Self) ensures r == self { self }
}
proof fn begin<M: MainMemory>(k: EKernel, m: M, root: u32)
    requires k.list(m, Seq::empty()), k.bump() == 0x8080, root == 0x8000, forall|a: u32| a >= 0x8000 ==> #[trigger] m.at(a) == 0,
    ensures wf(k, m, root), forall|v: u16| !#[trigger] mapped(m, root, v),
{
    reveal(wf); reveal(has_tab); reveal(mapped);
    assert forall|v: u16| !#[trigger] has_tab(m, root, v) by {
        assert(m.at((root + 4 * (v / 4096)) as u32) == 0);
    }
    assert forall|v: u16| !#[trigger] mapped(m, root, v) by { assert(!has_tab(m, root, v)); }
    assert(wfs(k, m, root, Seq::empty()));
}
proof fn empty<M: MainMemory>(o: Object, b: MmapBuilder<'_, M>)
    requires forall|v: u16| !#[trigger] b.mapped(v)
    ensures fits(o, 0, b)
{ }
proof fn ors(p: u8, l: u8, h: u8, f: u8)
    ensures
        has(p, l) && has(p, f) ==> has(p, l | f), 0 | f == f, l | 0 == l, has(p, l) ==> has(p | f, l | f),
        has(h | 0x10, p) ==> has(h | f | 0x10, p | f), has(h | 0x10, p) ==> has(h | f | 0x10, p), has(h | f | 0x10, f), has(p, 0), has(p | f, f), has(p | f, p),
        has(h | 0x10, l) && has(l | 0x37, p) ==> has(h | 0x27 | 0x10, p), has(0x37, p) ==> has(h | 0x27 | 0x10, p),
        has(p, f) && has(f, l) ==> has(p, l),
{
    assert(p & l == l && p & f == f ==> p & (l | f) == l | f) by (bit_vector);
    assert(0 | f == f && l | 0 == l && p & 0 == 0 && (p | f) & f == f && (p | f) & p == p && (h | f | 0x10) & f == f) by (bit_vector);
    assert(p & l == l ==> (p | f) & (l | f) == l | f) by (bit_vector);
    assert((h | 0x10) & p == p ==> (h | f | 0x10) & (p | f) == p | f && (h | f | 0x10) & p == p) by (bit_vector);
    assert((h | 0x10) & l == l && (l | 0x37) & p == p ==> (h | 0x27 | 0x10) & p == p) by (bit_vector);
    assert(0x37 & p == p ==> (h | 0x27 | 0x10) & p == p) by (bit_vector);
    assert(p & f == f && f & l == l ==> p & l == l) by (bit_vector);
}
proof fn more(p: u8, l: u8, h: u8, g: u8)
    ensures has(l, p) && has(h, l) ==> has(h, p), has(p, l | g) ==> has(p, l), has(h | 0x10, p) ==> has(h | g | 0x10, p)
{
    assert(l & p == p && h & l == l ==> h & p == p) by (bit_vector);
    assert(p & (l | g) == l | g ==> p & l == l) by (bit_vector);
    assert((h | 0x10) & p == p ==> (h | g | 0x10) & p == p) by (bit_vector);
}
proof fn consts()
    ensures
        4u8 | 2 == 6, 2u8 | 4 == 6, 8u8 | 2 == 10, 8u8 | 4 == 12, 12u8 | 2 == 14,
        6u8 & 0xc0 == 0, 2u8 & 0xc0 == 0, 10u8 & 0xc0 == 0, 8u8 & 0xc0 == 0, 14u8 & 0xc0 == 0,
        6u8 | 0x21 == 0x27, 2u8 | 0x21 == 0x23, 10u8 | 0x21 == 0x2b, 8u8 | 0x21 == 0x29, 14u8 | 0x21 == 0x2f,
        0b1000u8 == 8, 0b0100u8 == 4, 0b0010u8 == 2,
{
    assert(4u8 | 2 == 6 && 2u8 | 4 == 6 && 8u8 | 2 == 10 && 8u8 | 4 == 12 && 12u8 | 2 == 14) by (bit_vector);
    assert(6u8 & 0xc0 == 0 && 2u8 & 0xc0 == 0 && 10u8 & 0xc0 == 0 && 8u8 & 0xc0 == 0 && 14u8 & 0xc0 == 0) by (bit_vector);
    assert(6u8 | 0x21 == 0x27 && 2u8 | 0x21 == 0x23 && 10u8 | 0x21 == 0x2b && 8u8 | 0x21 == 0x29 && 14u8 | 0x21 == 0x2f) by (bit_vector);
}
pub open spec fn seg_lo(o: Object, n: int, v: u16) -> u8 {
    if o.segs.seq()[n - 1].bytes.len() > 0 && touches(o.segs.seq()[n - 1], v) { flags(o.segs.seq()[n - 1].t, readable(o)) } else { 0 }
}
pub open spec fn seg_hi(o: Object, n: int, v: u16) -> u8 {
    if touches(o.segs.seq()[n - 1], v) { flags(o.segs.seq()[n - 1].t, readable(o)) } else { 0 }
}
pub open spec fn in_wr(virt: u16, size: u16, v: u16) -> bool { virt / 128 <= v / 128 < (virt + size + 127) / 128 }
// the address space allows at least l, at most h, and has these bytes
pub open spec fn fit<M: MainMemory>(b: MmapBuilder<'_, M>, l: spec_fn(u16) -> u8, h: spec_fn(u16) -> u8, c: spec_fn(u16) -> u8) -> bool {
    &&& forall|v: u16| l(v) != 0 ==> #[trigger] b.mapped(v)
    &&& forall|v: u16| #[trigger] b.mapped(v) ==> has(b.perm(v), l(v)) && has(b.perm1(v), l(v)) && has(h(v) | 0x10, b.perm(v)) && b.byte(v) == c(v)
    &&& forall|v: u16| !#[trigger] b.mapped(v) ==> c(v) == 0
}
pub open spec fn fits<M: MainMemory>(o: Object, n: int, b: MmapBuilder<'_, M>) -> bool {
    fit(b, |v: u16| lo(o, n, v), |v: u16| hi(o, n, v), |v: u16| content(o, n, v))
}
// one segment more, but not yet the rest of the heap
pub open spec fn fits1<M: MainMemory>(o: Object, n: int, b: MmapBuilder<'_, M>) -> bool {
    fit(b, |v: u16| lo(o, n - 1, v) | seg_hi(o, n, v), |v: u16| hi(o, n - 1, v) | seg_hi(o, n, v), |v: u16| content(o, n, v))
}
proof fn seg_step<M: MainMemory>(o: Object, n: int, b: MmapBuilder<'_, M>, a: MmapBuilder<'_, M>, permissions: u8)
    requires
        0 < n <= o.segs.seq().len(), fits(o, n - 1, b), b.grown(a),
        permissions | 0x21 == flags(o.segs.seq()[n - 1].t, readable(o)),
        ({
            let (offset, bytes) = (o.segs.seq()[n - 1].offset, o.segs.seq()[n - 1].bytes);
            &&& forall|v: u16| offset <= v < offset + bytes.len() ==> #[trigger] a.mapped(v) && a.byte(v) == bytes[v - offset]
            &&& forall|v: u16| offset / 128 <= v / 128 < (offset + bytes.len() + 127) / 128 ==> #[trigger] a.mapped(v)
            &&& forall|v: u16| offset / 128 <= v / 128 < (offset + bytes.len() + 127) / 128 && #[trigger] a.mapped(v) ==>
                a.perm(v) == (if b.mapped(v) { b.perm(v) | (permissions | 0x21) } else { permissions | 0x21 })
                && has(a.perm1(v), permissions | 0x21)
            &&& forall|v: u16| !(offset / 128 <= v / 128 < (offset + bytes.len() + 127) / 128) ==> #[trigger] a.mapped(v) == b.mapped(v)
            &&& forall|v: u16| !(offset / 128 <= v / 128 < (offset + bytes.len() + 127) / 128) && #[trigger] a.mapped(v) ==> a.perm(v) == b.perm(v)
            &&& forall|v: u16| #[trigger] a.mapped(v) && !(offset <= v < offset + bytes.len()) ==> a.byte(v) == (if b.mapped(v) { b.byte(v) } else { 0 })
        }),
    ensures fits1(o, n, a)
{
    let s = o.segs.seq()[n - 1];
    let f = permissions | 0x21;
    assert forall|v: u16| #[trigger] a.mapped(v) implies has(a.perm(v), lo(o, n - 1, v) | seg_hi(o, n, v)) && has(a.perm1(v), lo(o, n - 1, v) | seg_hi(o, n, v))
        && has(hi(o, n - 1, v) | seg_hi(o, n, v) | 0x10, a.perm(v)) && a.byte(v) == content(o, n, v) by {
        ors(b.perm(v), lo(o, n - 1, v), hi(o, n - 1, v), f);
        ors(b.perm(v), lo(o, n - 1, v), hi(o, n - 1, v), 0);
        ors(a.perm1(v), lo(o, n - 1, v), hi(o, n - 1, v), f);
        ors(a.perm1(v), lo(o, n - 1, v), hi(o, n - 1, v), b.perm1(v));
        same(f);
    }
    assert forall|v: u16| lo(o, n - 1, v) | seg_hi(o, n, v) != 0 implies #[trigger] a.mapped(v) by {
        ors(0, lo(o, n - 1, v), 0, 0);
        ors(0, 0, 0, 0);
        if !touches(s, v) { assert(b.mapped(v)); }
    }
    assert forall|v: u16| !#[trigger] a.mapped(v) implies content(o, n, v) == 0 by {
        assert(!b.mapped(v));
    }
}
// pages to read and write
proof fn wr_step<M: MainMemory>(b: MmapBuilder<'_, M>, a: MmapBuilder<'_, M>, virt: u16, size: u16, l: spec_fn(u16) -> u8, h: spec_fn(u16) -> u8, c: spec_fn(u16) -> u8)
    requires
        fit(b, l, h, c), b.grown(a),
        forall|v: u16| virt / 128 <= v / 128 < (virt + size + 127) / 128 ==> #[trigger] a.mapped(v),
        forall|v: u16| virt / 128 <= v / 128 < (virt + size + 127) / 128 && #[trigger] a.mapped(v) ==>
            has(a.perm1(v), 0x27) && has(a.perm(v), 0x27) && has(if b.mapped(v) { b.perm(v) | 0x37 } else { 0x37 }, a.perm(v)),
        forall|v: u16| !(virt / 128 <= v / 128 < (virt + size + 127) / 128) ==> #[trigger] a.mapped(v) == b.mapped(v),
        forall|v: u16| !(virt / 128 <= v / 128 < (virt + size + 127) / 128) && #[trigger] a.mapped(v) ==> a.perm(v) == b.perm(v),
        forall|v: u16| #[trigger] a.mapped(v) ==> a.byte(v) == (if b.mapped(v) { b.byte(v) } else { 0 }),
    ensures
        fit(a, |v: u16| l(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 }), |v: u16| h(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 }), c)
{
    assert forall|v: u16| #[trigger] a.mapped(v) implies has(a.perm(v), l(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 }))
        && has(a.perm1(v), l(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 }))
        && has(h(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 }) | 0x10, a.perm(v)) && a.byte(v) == c(v) by {
        ors(a.perm(v), b.perm(v), h(v), 0x27);
        ors(a.perm(v), b.perm(v), h(v), 0);
        ors(a.perm(v), l(v), h(v), 0x27);
        ors(a.perm(v), l(v), h(v), b.perm(v));
        ors(a.perm(v), l(v), h(v), 0);
        ors(a.perm1(v), l(v), h(v), 0x27);
        ors(a.perm1(v), l(v), h(v), b.perm1(v));
    }
    assert forall|v: u16| l(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 }) != 0 implies #[trigger] a.mapped(v) by {
        ors(0, l(v), 0, 0);
        if !in_wr(virt, size, v) { assert(b.mapped(v)); }
    }
    assert forall|v: u16| !#[trigger] a.mapped(v) implies c(v) == 0 by {
        assert(!b.mapped(v));
    }
}
// at least less, at most more
proof fn loosen<M: MainMemory>(b: MmapBuilder<'_, M>, l: spec_fn(u16) -> u8, h: spec_fn(u16) -> u8, c: spec_fn(u16) -> u8, l2: spec_fn(u16) -> u8, h2: spec_fn(u16) -> u8)
    requires fit(b, l, h, c), forall|v: u16| has(l(v), #[trigger] l2(v)) && has(h2(v), h(v)),
    ensures fit(b, l2, h2, c)
{
    assert forall|v: u16| #[trigger] b.mapped(v) implies has(b.perm(v), l2(v)) && has(b.perm1(v), l2(v)) && has(h2(v) | 0x10, b.perm(v)) by {
        let (p, q, x, y, h1, h3) = (b.perm(v), b.perm1(v), l(v), l2(v), h(v), h2(v));
        assert(has(x, y) && has(h3, h1));
        assert(x & y == y && p & x == x ==> p & y == y) by (bit_vector);
        assert(x & y == y && q & x == x ==> q & y == y) by (bit_vector);
        assert(h3 & h1 == h1 && (h1 | 0x10) & p == p ==> (h3 | 0x10) & p == p) by (bit_vector);
    }
    assert forall|v: u16| l2(v) != 0 implies #[trigger] b.mapped(v) by {
        let (x, y) = (l(v), l2(v));
        assert(has(x, y));
        assert(x & y == y && y != 0 ==> x != 0) by (bit_vector);
    }
}
proof fn heap_step<M: MainMemory>(o: Object, n: int, b: MmapBuilder<'_, M>, a: MmapBuilder<'_, M>, virt: u16, size: u16)
    requires
        0 < n <= o.segs.seq().len(), fits1(o, n, b), b.grown(a), o.segs.seq()[n - 1].t is Heap,
        ({
            let end = o.segs.seq()[n - 1].offset + o.segs.seq()[n - 1].bytes.len();
            &&& virt == (end + 127) / 128 * 128
            &&& size == (if o.segs.seq()[n - 1].bytes.len() < heap_of(o) { heap_of(o) - o.segs.seq()[n - 1].bytes.len() } else { 0 })
        }),
        forall|v: u16| virt / 128 <= v / 128 < (virt + size + 127) / 128 ==> #[trigger] a.mapped(v),
        forall|v: u16| virt / 128 <= v / 128 < (virt + size + 127) / 128 && #[trigger] a.mapped(v) ==>
            has(a.perm1(v), 0x27) && has(a.perm(v), 0x27) && has(if b.mapped(v) { b.perm(v) | 0x37 } else { 0x37 }, a.perm(v)),
        forall|v: u16| !(virt / 128 <= v / 128 < (virt + size + 127) / 128) ==> #[trigger] a.mapped(v) == b.mapped(v),
        forall|v: u16| !(virt / 128 <= v / 128 < (virt + size + 127) / 128) && #[trigger] a.mapped(v) ==> a.perm(v) == b.perm(v),
        forall|v: u16| #[trigger] a.mapped(v) ==> a.byte(v) == (if b.mapped(v) { b.byte(v) } else { 0 }),
    ensures fits(o, n, a)
{
    let l = |v: u16| lo(o, n - 1, v) | seg_hi(o, n, v);
    let h = |v: u16| hi(o, n - 1, v) | seg_hi(o, n, v);
    wr_step(b, a, virt, size, l, h, |v: u16| content(o, n, v));
    let l1 = |v: u16| l(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 });
    let h1 = |v: u16| h(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 });
    let l2 = |v: u16| lo(o, n, v);
    let h2 = |v: u16| hi(o, n, v);
    let s = o.segs.seq()[n - 1];
    assert forall|v: u16| has(l1(v), #[trigger] l2(v)) && has(h2(v), h1(v)) by {
        ends(lo(o, n - 1, v), seg_hi(o, n, v), seg_lo(o, n, v));
        ends(hi(o, n - 1, v), seg_hi(o, n, v), seg_lo(o, n, v));
    }
    loosen(a, l1, h1, |v: u16| content(o, n, v), l2, h2);
}
proof fn ends(x: u8, f: u8, g: u8)
    ensures
        g == 0 || g == f ==> has(x | f | 0x27, x | g | 0x27) && has(x | f | 0x27, x | g | 0) && has(x | f | 0, x | g | 0),
        has(x | f | 0x27, x | f | 0x27), has(x | f | 0x27, x | f | 0), has(x | f | 0, x | f | 0), f == 0x27 ==> has(x | f | 0, x | g | 0x27) || !(g == 0 || g == f),
        g == 0 || g == f ==> has(x | f, x | g | 0), has(x | f | 0x27, x | f), has(x | f | 0, x | f),
        f == 0x27 && (g == 0 || g == f) ==> has(x | f, x | g | 0x27),
{
    assert(g == 0 || g == f ==> (x | f | 0x27) & (x | g | 0x27) == x | g | 0x27 && (x | f | 0x27) & (x | g | 0) == x | g | 0 && (x | f | 0) & (x | g | 0) == x | g | 0) by (bit_vector);
    assert((x | f | 0x27) & (x | f | 0x27) == x | f | 0x27 && (x | f | 0x27) & (x | f | 0) == x | f | 0 && (x | f | 0) & (x | f | 0) == x | f | 0) by (bit_vector);
    assert(f == 0x27 && (g == 0 || g == f) ==> (x | f | 0) & (x | g | 0x27) == x | g | 0x27) by (bit_vector);
    assert(f == 0x27 && (g == 0 || g == f) ==> (x | f) & (x | g | 0x27) == x | g | 0x27) by (bit_vector);
    assert(g == 0 || g == f ==> (x | f) & (x | g | 0) == x | g | 0) by (bit_vector);
    assert((x | f | 0x27) & (x | f) == x | f && (x | f | 0) & (x | f) == x | f) by (bit_vector);
}
// no heap, or none beyond its initial data
proof fn close<M: MainMemory>(o: Object, n: int, b: MmapBuilder<'_, M>)
    requires
        0 < n <= o.segs.seq().len(),
        fits(o, n, b) || fits1(o, n, b) && (!(o.segs.seq()[n - 1].t is Heap) || (o.segs.seq()[n - 1].offset + o.segs.seq()[n - 1].bytes.len() + 127) / 128 * 128 >= 0x1_0000),
    ensures fits(o, n, b)
{
    if !fits(o, n, b) {
        let l1 = |v: u16| lo(o, n - 1, v) | seg_hi(o, n, v);
        let h1 = |v: u16| hi(o, n - 1, v) | seg_hi(o, n, v);
        let l2 = |v: u16| lo(o, n, v);
        let h2 = |v: u16| hi(o, n, v);
        assert forall|v: u16| has(l1(v), #[trigger] l2(v)) && has(h2(v), h1(v)) by {
            ends(lo(o, n - 1, v), seg_hi(o, n, v), seg_lo(o, n, v));
            ends(hi(o, n - 1, v), seg_hi(o, n, v), seg_lo(o, n, v));
        }
        loosen(b, l1, h1, |v: u16| content(o, n, v), l2, h2);
    }
}
proof fn stack_step<M: MainMemory>(o: Object, b: MmapBuilder<'_, M>, a: MmapBuilder<'_, M>, virt: u16, size: u16)
    requires
        fits(o, o.segs.seq().len() as int, b), b.grown(a),
        size == stack_of(o), virt == (0xffff - (if size > 0 { size - 1 } else { 0 })) / 128 * 128,
        forall|v: u16| virt / 128 <= v / 128 < (virt + size + 127) / 128 ==> #[trigger] a.mapped(v),
        forall|v: u16| virt / 128 <= v / 128 < (virt + size + 127) / 128 && #[trigger] a.mapped(v) ==>
            has(a.perm1(v), 0x27) && has(a.perm(v), 0x27) && has(if b.mapped(v) { b.perm(v) | 0x37 } else { 0x37 }, a.perm(v)),
        forall|v: u16| !(virt / 128 <= v / 128 < (virt + size + 127) / 128) ==> #[trigger] a.mapped(v) == b.mapped(v),
        forall|v: u16| !(virt / 128 <= v / 128 < (virt + size + 127) / 128) && #[trigger] a.mapped(v) ==> a.perm(v) == b.perm(v),
        forall|v: u16| #[trigger] a.mapped(v) ==> a.byte(v) == (if b.mapped(v) { b.byte(v) } else { 0 }),
    ensures whole(o, a)
{
    let n = o.segs.seq().len() as int;
    let l = |v: u16| lo(o, n, v);
    let h = |v: u16| hi(o, n, v);
    wr_step(b, a, virt, size, l, h, |v: u16| content(o, n, v));
    assert forall|v: u16| in_wr(virt, size, v) <==> #[trigger] stack(o, v) == 0x27 by { }
    let l1 = |v: u16| l(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 });
    let h1 = |v: u16| h(v) | (if in_wr(virt, size, v) { 0x27u8 } else { 0 });
    let l2 = |v: u16| lo(o, n, v) | stack(o, v);
    let h2 = |v: u16| hi(o, n, v) | stack(o, v);
    assert forall|v: u16| has(l1(v), #[trigger] l2(v)) && has(h2(v), h1(v)) by {
        ors(l1(v), l1(v), l1(v), l1(v)); same(l1(v)); same(h1(v));
        assert(stack(o, v) == 0x27 || stack(o, v) == 0);
    }
    loosen(a, l1, h1, |v: u16| content(o, n, v), l2, h2);
}
proof fn same(x: u8) ensures has(x, x) { assert(x & x == x) by (bit_vector); }
pub open spec fn whole<M: MainMemory>(o: Object, b: MmapBuilder<'_, M>) -> bool {
    let n = o.segs.seq().len() as int;
    fit(b, |v: u16| lo(o, n, v) | stack(o, v), |v: u16| hi(o, n, v) | stack(o, v), |v: u16| content(o, n, v))
}
// the same of the memory the builder has, once it is given back
proof fn finish<M: MainMemory>(o: Object, b: MmapBuilder<'_, M>)
    requires whole(o, b), b.sound()
    ensures loaded(o, b.kk(), b.mm(), b.root())
{
    let (m, root, n) = (b.mm(), b.root(), o.segs.seq().len() as int);
    let l = |v: u16| lo(o, n, v) | stack(o, v);
    assert forall|v: u16| #![trigger mapped(m, root, v)] lo(o, n, v) | stack(o, v) != 0 implies mapped(m, root, v) by {
        assert(l(v) != 0);
        assert(b.mapped(v));
    }
    assert forall|v: u16| #[trigger] mapped(m, root, v) implies has(perm(m, root, v), lo(o, n, v) | stack(o, v))
        && has(perm1(m, root, v), lo(o, n, v) | stack(o, v))
        && has(hi(o, n, v) | stack(o, v) | 0x10, perm(m, root, v))
        && byte(m, root, v) == content(o, n, v) by {
        assert(b.mapped(v));
    }
}
pub open spec fn loaded<M: MainMemory>(o: Object, k: EKernel, m: M, root: u32) -> bool {
    let n = o.segs.seq().len() as int;
    &&& wf(k, m, root)
    &&& forall|v: u16| #![trigger mapped(m, root, v)] lo(o, n, v) | stack(o, v) != 0 ==> mapped(m, root, v)
    &&& forall|v: u16| #[trigger] mapped(m, root, v) ==> has(perm(m, root, v), lo(o, n, v) | stack(o, v))
            && has(perm1(m, root, v), lo(o, n, v) | stack(o, v))
            && has(hi(o, n, v) | stack(o, v) | 0x10, perm(m, root, v))
            && byte(m, root, v) == content(o, n, v)
}
pub struct SymbolTable { x: u8 }
pub struct RelocationTable { x: u8 }
impl<M> Machine<M, Blf4> {
    pub closed spec fn installed(self) -> Option<EKernel> { self.ekernel }
    #[verifier::external_body]
    fn install_emulated_kernel(&mut self, ek: EKernel) -> (r: bool)
        ensures final(self).installed() == Some(ek), final(self).memory == old(self).memory, final(self).cpu == old(self).cpu
    { unimplemented!() }
}
pub open spec fn readable(o: Object) -> bool { match o.flags { Some(f) => f.readable_text, None => false } }
pub open spec fn heap_of(o: Object) -> int { match o.heap_size { Some(f) => f.0 as int, None => 0x400 } }
pub open spec fn stack_of(o: Object) -> int { match o.stack_size { Some(f) => f.0 as int, None => 0x180 } }
// 0bUDXWRP
pub open spec fn flags(t: SegmentType, readable: bool) -> u8 {
    match t {
        SegmentType::Text => if readable { 0x2b } else { 0x29 },
        SegmentType::RoData => 0x23,
        SegmentType::Data | SegmentType::Heap => 0x27,
        SegmentType::Zero | SegmentType::Unknown => 0x2f,
    }
}
pub open spec fn touches(s: Seg, v: u16) -> bool { s.offset / 128 <= v / 128 < (s.offset + s.bytes.len() + 127) / 128 }
// what the pages have to allow: the segments, the heap, the stack
pub open spec fn lo(o: Object, n: int, v: u16) -> u8
    decreases n
{
    if n <= 0 { 0 } else {
        let s = o.segs.seq()[n - 1];
        let at = v / 128 * 128;
        lo(o, n - 1, v) | (if s.bytes.len() > 0 && touches(s, v) { flags(s.t, readable(o)) } else { 0 })
            | (if s.t is Heap && s.bytes.len() < heap_of(o) && at + 128 > s.offset + s.bytes.len() && at < s.offset + heap_of(o) { 0x27u8 } else { 0 })
    }
}
// what they may allow: the heap ends within a page after where it has to
pub open spec fn hi(o: Object, n: int, v: u16) -> u8
    decreases n
{
    if n <= 0 { 0 } else {
        let s = o.segs.seq()[n - 1];
        let at = v / 128 * 128;
        hi(o, n - 1, v) | (if touches(s, v) { flags(s.t, readable(o)) } else { 0 })
            | (if s.t is Heap && s.bytes.len() < heap_of(o) && at + 128 > s.offset && at < s.offset + heap_of(o) + 128 { 0x27u8 } else { 0 })
    }
}
pub open spec fn stack(o: Object, v: u16) -> u8 { if v / 128 * 128 + 128 > 0x1_0000 - stack_of(o) { 0x27 } else { 0 } }
// bytes no segment has are zero
pub open spec fn content(o: Object, n: int, v: u16) -> u8
    decreases n
{
    if n <= 0 { 0 } else {
        let s = o.segs.seq()[n - 1];
        if s.offset <= v < s.offset + s.bytes.len() { s.bytes[v - s.offset] } else { content(o, n - 1, v) }
    }
}
""",
    trusted=[
        "Verus 0.2026.09.13 with its Z3, and vstd",
        "EKernel::allocate_page, MmapBuilder::add_segment and ::map_wr_pages by their contracts (jobs alloc and space)",
        "BTreeMap gives each segment once (a stand-in collection; an object has at most one segment per type)",
        "Machine::install_emulated_kernel keeps memory and processor (C11)",
    ],
)
