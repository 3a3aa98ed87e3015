"""src/aalv/obj/sec_impl.rs: what the sections of an object are as bytes"""
from . import io_model

def sec(n):
    return "impl Section for " + n
W = "requires writable(*old(writer), self.enc())"
RD = dict(ret="r")

SPECS = """
pub open spec fn begins(e: Seq<u8>, b: Seq<u8>) -> bool { e.len() <= b.len() && e =~= b.take(e.len() as int) }
// the bytes of one symbol
pub open spec fn says(d: SymbolDefinition, c: Seq<u8>) -> bool {
    let n = c.len() - 4;
    &&& n >= 0 && c[n] == 0 && !c.take(n).contains(0) && c[n + 1] == num(d.segment_type) && c.skip(n + 2) =~= le(d.location)
    &&& d.is_global <==> !(n > 0 && c[0] == 0x20)
    &&& d.name@ == lossy(if d.is_global { c.take(n) } else { c.subrange(1, n) })
}
pub open spec fn said(s: Seq<SymbolDefinition>, b: Seq<u8>) -> bool
    decreases s.len()
{
    if s.len() == 0 { b.len() == 0 }
    else { exists|k: int| 0 <= k <= b.len() && said(s.drop_last(), #[trigger] b.take(k)) && says(s.last(), b.skip(k)) }
}
proof fn said_none() ensures forall|s: Seq<SymbolDefinition>, b: Seq<u8>| s.len() == 0 && b.len() == 0 ==> #[trigger] said(s, b) {}
proof fn said_next(s: Seq<SymbolDefinition>, e: SymbolDefinition, d: Seq<u8>, p: int, q: int, w: Seq<u8>)
    requires
        0 <= p <= q <= d.len(), said(s, d.subrange(p, q)), w.len() == 3, io::has(d, q + io::until(d, q, 0).len(), w),
        w[0] == num(e.segment_type), w.skip(1) =~= le(e.location), io::until(d, q, 0).len() > 0,
        ({
            let n = io::until(d, q, 0).drop_last();
            (e.is_global <==> !(n.len() > 0 && n[0] == 0x20)) && e.name@ == lossy(if e.is_global { n } else { n.skip(1) })
        })
    ensures said(s.push(e), d.subrange(p, q + io::until(d, q, 0).len() + 3))
{
    let u = io::until(d, q, 0);
    until_facts(d, q);
    let m = q + u.len() + 3;
    let b = d.subrange(p, m);
    assert(s.push(e).drop_last() =~= s);
    assert(b.take(q - p) =~= d.subrange(p, q));
    let c = b.skip(q - p);
    assert(c =~= d.subrange(q, m));
    let n = c.len() - 4;
    assert(c.take(n) =~= u.drop_last());
    assert(c[n] == u.last());
    let v = d.subrange(m - 3, m);
    assert(v =~= w);
    assert(c[n + 1] == v[0]);
    assert(c.skip(n + 2) =~= w.skip(1));
    if !e.is_global { assert(c.subrange(1, n) =~= u.drop_last().skip(1)); }
    assert(says(e, c));
}
proof fn until_facts(d: Seq<u8>, q: int)
    requires 0 <= q <= d.len()
    ensures ({
        let u = io::until(d, q, 0);
        &&& q + u.len() <= d.len() && u =~= d.subrange(q, q + u.len())
        &&& u.len() > 0 ==> !u.drop_last().contains(0)
        &&& u.len() == 0 ==> q == d.len()
        &&& u.len() > 0 && u.last() != 0 ==> q + u.len() == d.len()
    })
    decreases d.len() - q
{
    let u = io::until(d, q, 0);
    if q < d.len() && d[q] != 0 {
        until_facts(d, q + 1);
        let t = io::until(d, q + 1, 0);
        assert(u.skip(1) =~= t);
        if u.drop_last().contains(0) {
            let i = u.drop_last().index_of(0);
            assert(t.drop_last()[i - 1] == 0);
        }
    }
}
pub open spec fn num(t: SegmentType) -> u8 { t as u8 }
pub open spec fn reloc(e: RelocationEntry) -> Seq<u8> {
    seq![num(e.reference_segment)] + le(e.reference_location) + le(e.symbol_index)
}
pub open spec fn relocs(s: Seq<RelocationEntry>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { relocs(s.drop_last()) + reloc(s.last()) }
}
pub open spec fn pre(d: SymbolDefinition) -> Seq<u8> { if d.is_global { seq![] } else { seq![0x20u8] } }
pub open spec fn label(d: SymbolDefinition) -> Seq<u8> { pre(d) + encode_utf8(d.name@) }
pub open spec fn sym(d: SymbolDefinition) -> Seq<u8> { label(d) + seq![0u8] + seq![num(d.segment_type)] + le(d.location) }
pub open spec fn syms(s: Seq<SymbolDefinition>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { syms(s.drop_last()) + sym(s.last()) }
}
// no zero bytes, and nothing that is not local looks so
pub open spec fn clean(d: SymbolDefinition) -> bool {
    !encode_utf8(d.name@).contains(0) && (d.is_global ==> encode_utf8(d.name@).len() == 0 || encode_utf8(d.name@)[0] != 0x20)
}
pub open spec fn alike(a: SymbolDefinition, b: SymbolDefinition) -> bool {
    a.name@ == b.name@ && a.is_global == b.is_global && a.segment_type == b.segment_type && a.location == b.location
}
pub open spec fn along(x: Seq<SymbolDefinition>, s: Seq<SymbolDefinition>, n: int) -> bool {
    s.len() <= x.len() && n == syms(x.take(s.len() as int)).len() && forall|k: int| 0 <= k < s.len() ==> alike(#[trigger] s[k], x[k])
}
// the next symbol of x is at q of d
pub open spec fn front(x: Seq<SymbolDefinition>, s: Seq<SymbolDefinition>, d: Seq<u8>, q: int) -> bool {
    s.len() < x.len() && io::until(d, q, 0) == label(x[s.len() as int]) + seq![0u8]
        && io::has(d, q + label(x[s.len() as int]).len() + 1, seq![num(x[s.len() as int].segment_type)] + le(x[s.len() as int].location))
}
proof fn strs()
    ensures encode_utf8(""@) == Seq::<u8>::empty(), encode_utf8(" "@) == seq![0x20u8], encode_utf8("\\0"@) == seq![0u8], encode_utf8("R"@) == seq![0x52u8],
        ""@ =~= seq![], "R"@ =~= seq!['R']
{
    reveal_strlit(""); reveal_strlit(" "); reveal_strlit("\\0"); reveal_strlit("R");
    is_ascii_chars_encode_utf8(""@); is_ascii_chars_encode_utf8(" "@); is_ascii_chars_encode_utf8("\\0"@); is_ascii_chars_encode_utf8("R"@);
    assert(encode_utf8(""@) =~= seq![]);
    assert(encode_utf8(" "@) =~= seq![0x20u8]);
    assert(encode_utf8("\\0"@) =~= seq![0u8]);
    assert(encode_utf8("R"@) =~= seq![0x52u8]);
}
proof fn until_is(d: Seq<u8>, q: int, b: Seq<u8>)
    requires io::has(d, q, b + seq![0u8]), !b.contains(0)
    ensures io::until(d, q, 0) == b + seq![0u8]
    decreases b.len()
{
    let w = b + seq![0u8];
    assert(d.subrange(q, q + w.len())[0] == w[0]);
    if b.len() == 0 {
        assert(io::until(d, q, 0) =~= b + seq![0u8]);
    } else {
        assert(b[0] != 0);
        let t = b.skip(1);
        assert(!t.contains(0)) by { if t.contains(0) { let i = t.index_of(0); assert(b[i + 1] == 0); } }
        assert(d.subrange(q + 1, q + 1 + t.len() + 1) =~= d.subrange(q, q + w.len()).skip(1));
        assert(w.skip(1) =~= t + seq![0u8]);
        until_is(d, q + 1, t);
        assert(io::until(d, q, 0) =~= b + seq![0u8]);
    }
}
proof fn syms_split(s: Seq<SymbolDefinition>, k: int)
    requires 0 <= k < s.len()
    ensures
        syms(s.take(k)).len() + sym(s[k]).len() <= syms(s).len(),
        syms(s).subrange(syms(s.take(k)).len() as int, syms(s.take(k)).len() + sym(s[k]).len() as int) == sym(s[k])
    decreases s.len()
{
    let t = s.drop_last();
    if k == s.len() - 1 {
        assert(s.take(k) =~= t);
        assert(syms(s).subrange(syms(t).len() as int, syms(t).len() + sym(s[k]).len() as int) =~= sym(s[k]));
    } else {
        syms_split(t, k);
        assert(t.take(k) =~= s.take(k));
        let (a, b) = (syms(s.take(k)).len() as int, sym(s[k]).len() as int);
        assert(syms(s).subrange(a, a + b) =~= syms(t).subrange(a, a + b));
    }
}
proof fn syms_step(s: Seq<SymbolDefinition>, n: int)
    requires 0 < n <= s.len()
    ensures
        syms(s.take(n)) == syms(s.take(n - 1)) + sym(s[n - 1]), syms(s.take(0)) == Seq::<u8>::empty(),
        syms(s.take(n)).len() <= syms(s).len()
{
    assert(s.take(n).drop_last() =~= s.take(n - 1));
    assert(s.take(0) =~= seq![]);
    syms_split(s, n - 1);
}
proof fn sym_next(x: Seq<SymbolDefinition>, s: Seq<SymbolDefinition>, d: Seq<u8>, p: int, q: int)
    requires
        0 <= p <= q < d.len(), along(x, s, q - p), syms(x) == io::after(d, p),
        forall|k: int| 0 <= k < x.len() ==> clean(#[trigger] x[k])
    ensures front(x, s, d, q)
{
    let k = s.len() as int;
    if k == x.len() {
        assert(x.take(k) =~= x);
        assert(false);
    }
    syms_split(x, k);
    let (a, e) = (syms(x.take(k)).len() as int, sym(x[k]));
    let l = label(x[k]) + seq![0u8];
    assert(d.subrange(q, q + e.len()) =~= syms(x).subrange(a, a + e.len()));
    assert(d.subrange(q, q + l.len()) =~= e.take(l.len() as int));
    assert(e.take(l.len() as int) =~= l);
    assert(clean(x[k]));
    let b = label(x[k]);
    assert(!b.contains(0)) by {
        if b.contains(0) {
            let i = b.index_of(0);
            if i < pre(x[k]).len() { assert(b[i] == 0x20); }
            else { assert(encode_utf8(x[k].name@)[i - pre(x[k]).len()] == 0); }
        }
    }
    until_is(d, q, b);
    let r = seq![num(x[k].segment_type)] + le(x[k].location);
    assert(d.subrange(q + l.len(), q + l.len() + r.len()) =~= e.skip(l.len() as int));
    assert(e.skip(l.len() as int) =~= r);
}
proof fn relocs_step(s: Seq<RelocationEntry>, n: int)
    requires 0 < n <= s.len()
    ensures
        relocs(s.take(n)) == relocs(s.take(n - 1)) + reloc(s[n - 1]), relocs(s.take(0)) == Seq::<u8>::empty(),
        relocs(s.take(n)).len() <= relocs(s).len(), relocs(s.take(n)).len() == 5 * n
{
    assert(s.take(n).drop_last() =~= s.take(n - 1));
    assert(s.take(0) =~= seq![]);
    relocs_all(s);
    relocs_all(s.take(n));
    relocs_all(s.take(n - 1));
}
proof fn relocs_same(a: Seq<RelocationEntry>, b: Seq<RelocationEntry>)
    requires a.len() == b.len(), relocs(a) == relocs(b)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 {
        let (x, y) = (a.last(), b.last());
        relocs_all(a.drop_last());
        relocs_all(b.drop_last());
        let n = 5 * (a.len() - 1);
        assert(relocs(a.drop_last()) =~= relocs(a).take(n));
        assert(relocs(b.drop_last()) =~= relocs(b).take(n));
        relocs_same(a.drop_last(), b.drop_last());
        assert(relocs(a).skip(n) =~= reloc(x));
        assert(relocs(b).skip(n) =~= reloc(y));
        assert(reloc(x) == reloc(y));
        assert(reloc(x)[0] == reloc(y)[0]);
        assert(le(x.reference_location) =~= reloc(x).subrange(1, 3));
        assert(le(y.reference_location) =~= reloc(y).subrange(1, 3));
        assert(le(x.symbol_index) =~= reloc(x).skip(3));
        assert(le(y.symbol_index) =~= reloc(y).skip(3));
        le_injective(x.reference_location, y.reference_location);
        le_injective(x.symbol_index, y.symbol_index);
        assert(x == y);
        assert(a =~= a.drop_last().push(x));
        assert(b =~= b.drop_last().push(y));
    } else { assert(a =~= b); }
}
proof fn relocs_all(s: Seq<RelocationEntry>)
    ensures
        relocs(s).len() == 5 * s.len(),
        forall|k: int| 0 <= k < s.len() ==> relocs(s)[5 * k] == num((#[trigger] s[k]).reference_segment)
    decreases s.len()
{
    if s.len() > 0 {
        relocs_all(s.drop_last());
        assert forall|k: int| 0 <= k < s.len() implies relocs(s)[5 * k] == num((#[trigger] s[k]).reference_segment) by {
            if k < s.len() - 1 {
                assert(s.drop_last()[k] == s[k]);
                assert(relocs(s)[5 * k] == relocs(s.drop_last())[5 * k]);
            }
        }
    }
}
"""

JOB = dict(
    search="objects",
    stand_in="the native search `objects`",
    at_least=20,
    copy=["enum SegmentType", "struct Entry", "struct Flags", "struct HeapSize", "struct StackSize", "struct RelocationEntry"],
    sources=[
        dict(file="src/aalv/mod.rs", only=[r"trait Section"], rename=[("Result <", "io::Result<")]),
        dict(file="src/aalv/obj.rs", only=[r"enum SegmentType", r"impl (TryFrom .*|Default for Flags)", r"struct (Entry|Flags|HeapSize|StackSize|BinarySegment|SymbolDefinition|SymbolTable|RelocationEntry|RelocationTable)",
             r"fn segment_type_from_u8"]),
        dict(file="src/aalv/obj/sec_impl.rs"),
    ],
    rename=[("to_le_bytes", "le_bytes"), ("u16 :: from_le_bytes", "le16_"), ("String :: from_utf8_lossy", "lossy_"), ("buf . chars ( )", "chars_(&buf)")],
    inside={
        "trait Section": io_model.SECTION_SPEC,
        sec("Entry"): """
    open spec fn enc(&self) -> Seq<u8> { seq![num(self.0)] + le(self.1) }
    open spec fn fit(&self) -> bool { true }
    open spec fn same(&self, x: &Self) -> bool { *self == *x }
    open spec fn means(&self, b: Seq<u8>) -> bool { begins(self.enc(), b) }
""",
        sec("Flags"): """
    open spec fn enc(&self) -> Seq<u8> { if self.readable_text { seq![0x52u8] } else { seq![] } }
    open spec fn fit(&self) -> bool { true }
    open spec fn same(&self, x: &Self) -> bool { *self == *x }
    open spec fn means(&self, b: Seq<u8>) -> bool { valid_utf8(b) && self.readable_text == (decode_utf8(b).len() > 0) && forall|k: int| 0 <= k < decode_utf8(b).len() ==> #[trigger] decode_utf8(b)[k] == 'R' }
""",
        sec("HeapSize"): """
    open spec fn enc(&self) -> Seq<u8> { le(self.0) }
    open spec fn fit(&self) -> bool { true }
    open spec fn same(&self, x: &Self) -> bool { *self == *x }
    open spec fn means(&self, b: Seq<u8>) -> bool { begins(self.enc(), b) }
""",
        sec("StackSize"): """
    open spec fn enc(&self) -> Seq<u8> { le(self.0) }
    open spec fn fit(&self) -> bool { true }
    open spec fn same(&self, x: &Self) -> bool { *self == *x }
    open spec fn means(&self, b: Seq<u8>) -> bool { begins(self.enc(), b) }
""",
        sec("BinarySegment"): """
    open spec fn enc(&self) -> Seq<u8> { le(self.offset) + seq![num(self.stype)] + self.bytes@ }
    open spec fn fit(&self) -> bool { true }
    open spec fn same(&self, x: &Self) -> bool { self.offset == x.offset && self.stype == x.stype && self.bytes@ == x.bytes@ }
    open spec fn means(&self, b: Seq<u8>) -> bool { b == self.enc() }
""",
        sec("RelocationTable"): """
    open spec fn enc(&self) -> Seq<u8> { relocs(self.0@) }
    open spec fn fit(&self) -> bool { true }
    open spec fn same(&self, x: &Self) -> bool { self.0@ =~= x.0@ }
    open spec fn means(&self, b: Seq<u8>) -> bool { begins(self.enc(), b) && b.len() < self.enc().len() + 5 }
""",
        sec("SymbolTable"): """
    open spec fn enc(&self) -> Seq<u8> { syms(self.0@) }
    open spec fn fit(&self) -> bool { forall|k: int| 0 <= k < self.0@.len() ==> clean(#[trigger] self.0@[k]) }
    open spec fn same(&self, x: &Self) -> bool {
        self.0@.len() == x.0@.len() && forall|k: int| 0 <= k < self.0@.len() ==> alike(#[trigger] self.0@[k], x.0@[k])
    }
    open spec fn means(&self, b: Seq<u8>) -> bool { said(self.0@, b) }
""",
    },
    contracts={
        "trait Section :: read": dict(ret="r", spec=io_model.SECTION_READ),
        "trait Section :: write": dict(ret="r", by_ref=["writer"], spec=io_model.SECTION_WRITE),
        "impl TryFrom < u8 > for SegmentType :: try_from": dict(ret="r", spec="""
        ensures r matches Ok(t) ==> num(t) == value, (exists|t: SegmentType| #[trigger] num(t) == value) ==> r is Ok"""),
        "fn segment_type_from_u8": dict(ret="r", spec="""
        ensures r matches Ok(t) ==> num(t) == n, (exists|t: SegmentType| #[trigger] num(t) == n) ==> r is Ok""",
            closures=[("| ( ) |", "-> (r: io::Error)", "|_unit: ()|")]),
        **{sec(n) + " :: write": dict(by_ref=["writer"], proof="        broadcast use {io::over_len, io::over_over, io::over_none, io::one};")
           for n in ("Entry", "HeapSize", "StackSize", "BinarySegment")},
        sec("BinarySegment") + " :: read": dict(
            proof="        let ghost d0 = reader.data(); let ghost p0 = reader.pos(); let ghost all = io::after(d0, p0);",
            after=[("bytes", """proof {
                assert(all.take(3) =~= d0.subrange(p0, p0 + 3));
                assert(all.skip(3) =~= io::after(d0, p0 + 3));
                assert forall|o: u16, t: SegmentType| le(o)[0] == buf@[0] && le(o)[1] == buf@[1] && num(t) == buf@[2]
                    implies all == #[trigger] le(o) + seq![#[trigger] num(t)] + io::after(d0, p0 + 3) by {
                    assert(all.take(3) == buf@);
                    assert(all[0] == buf@[0] && all[1] == buf@[1] && all[2] == buf@[2]);
                    assert(all =~= le(o) + seq![num(t)] + io::after(d0, p0 + 3));
                }
                assert forall|x: Self| #[trigger] x.enc() == all implies all.len() >= 3 && buf@ =~= le(x.offset) + seq![num(x.stype)]
                        && x.bytes@ == io::after(d0, p0 + 3) by {
                    assert(all.take(3) =~= le(x.offset) + seq![num(x.stype)]);
                    assert(all.take(3) =~= d0.subrange(p0, p0 + 3));
                    assert(all.skip(3) =~= x.bytes@);
                    assert(all.skip(3) =~= io::after(d0, p0 + 3));
                    assert(buf@[0] == all[0] && buf@[1] == all[1] && buf@[2] == all[2]);
                }
            }""")]),
        sec("RelocationTable") + " :: write": dict(by_ref=["writer"], over_map=True,
            proof="        broadcast use {io::over_len, io::over_over, io::over_none, io::one}; let ghost w0 = *writer; proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }",
            loops=["""
            invariant
                n_ <= it_@.len(), it_@ == self.0@, writable(w0, self.enc()),
                w0 == *old(writer), (*writer).fixed() == w0.fixed(), (*writer).sound() == w0.sound(), (*writer).at() == w0.at() + relocs(it_@.take(n_ as int)).len(),
                (*writer).out() == io::over(w0.out(), w0.at(), relocs(it_@.take(n_ as int)))
            decreases it_@.len() - n_"""],
            after=[("item_", """broadcast use {io::over_len, io::over_over, io::over_none, io::one};
            let ghost e0 = *item_; let ghost r0 = relocs(it_@.take(n_ as int)); proof {
                relocs_step(it_@, n_ + 1);
                assert(r0 + reloc(e0) =~= r0 + seq![num(e0.reference_segment)] + le(e0.reference_location) + le(e0.symbol_index));
            }""")],),
        "impl Default for Flags :: default": dict(ret="r", spec="""
        ensures !r.readable_text"""),
        sec("Flags") + " :: write": dict(by_ref=["writer"],
            proof="        broadcast use {io::over_len, io::over_over, io::over_none, io::one}; proof { strs(); }"),
        sec("Flags") + " :: read": dict(over_map=True, copies=True, attrs=["verifier::loop_isolation(false)", "verifier::allow_complex_invariants"],
            proof="""        let ghost all = io::after(reader.data(), reader.pos()); proof {
            strs();
            encode_utf8_decode_utf8("R"@); encode_utf8_valid_utf8("R"@); encode_utf8_decode_utf8(""@); encode_utf8_valid_utf8(""@);
        }""",
            loops=["""
            invariant
                n_ <= it_@.len(), it_@ == buf@,
                valid_utf8(all), it_@ == decode_utf8(all), forall|k: int| 0 <= k < n_ ==> #[trigger] it_@[k] == 'R',
                all =~= seq![0x52u8] ==> it_@ == "R"@, all =~= seq![] ==> it_@ == ""@,
                flags.readable_text <==> n_ > 0
            decreases it_@.len() - n_"""]),
        sec("SymbolTable") + " :: write": dict(by_ref=["writer"], over_map=True,
            proof="        broadcast use {io::over_len, io::over_over, io::over_none, io::one}; let ghost w0 = *writer; proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); strs(); }",
            loops=["""
            invariant
                n_ <= it_@.len(), it_@ == self.0@, writable(w0, self.enc()),
                w0 == *old(writer), (*writer).fixed() == w0.fixed(), (*writer).sound() == w0.sound(), (*writer).at() == w0.at() + syms(it_@.take(n_ as int)).len(),
                (*writer).out() == io::over(w0.out(), w0.at(), syms(it_@.take(n_ as int)))
            decreases it_@.len() - n_"""],
            after=[("item_", """broadcast use {io::over_len, io::over_over, io::over_none, io::one};
            let ghost e0 = *item_; let ghost r0 = syms(it_@.take(n_ as int)); proof {
                syms_step(it_@, n_ + 1); strs();
                let (a, b, c) = (pre(e0), encode_utf8(e0.name@), seq![0u8]);
                assert(r0 + sym(e0) =~= r0 + (a + b + c) + seq![num(e0.segment_type)] + le(e0.location));
            }""")],),
        sec("SymbolTable") + " :: read": dict(attrs=["verifier::loop_isolation(false)", "verifier::allow_complex_invariants"],
            proof="        hide(says); hide(said); hide(io::until); let ghost d0 = reader.data(); let ghost p0 = reader.pos(); proof { said_none(); assert(d0.subrange(p0, p0) =~= Seq::empty()); } let ghost s0 = reader.sound(); let ghost all = io::after(d0, p0);",
            loops=["""
            invariant
                0 <= p0 <= d0.len(), p0 <= reader.pos() <= d0.len(), reader.data() == d0, reader.sound() == s0,
                said(symbols@, d0.subrange(p0, reader.pos())),
                forall|x: Self| x.fit() && #[trigger] x.enc() == all ==> along(x.0@, symbols@, reader.pos() - p0)
            ensures
                reader.pos() >= d0.len()
            decreases d0.len() - reader.pos()"""],
            after=[("namebuf", """let ghost q0 = reader.pos(); let ghost e0 = symbols@; proof {
                until_facts(d0, q0);
                assert forall|x: Self| x.fit() && #[trigger] x.enc() == all && q0 < d0.len() implies front(x.0@, symbols@, d0, q0) by {
                    sym_next(x.0@, symbols@, d0, p0, q0);
                }
                assert forall|x: Self| x.fit() && #[trigger] x.enc() == all && q0 >= d0.len() implies x.0@.len() == e0.len() by {
                    if e0.len() < x.0@.len() { syms_split(x.0@, e0.len() as int); }
                }
            }"""),
                   ("def", """proof {
                assert(namebuf@ =~= io::until(d0, q0, 0).drop_last());
                if !is_global { assert(namebuf@.skip(1) =~= namebuf@.subrange(1, namebuf@.len() as int)); }
                assert(buf@.skip(1) =~= le(def.location));
                said_next(e0, def, d0, p0, q0, buf@);
                assert forall|x: Self| x.fit() && #[trigger] x.enc() == all implies along(x.0@, e0.push(def), reader.pos() - p0) by {
                    assert(front(x.0@, e0, d0, q0));
                    let k = e0.len() as int;
                    let y = x.0@[k];
                    assert(clean(y));
                    syms_step(x.0@, k + 1);
                    let w = seq![num(y.segment_type)] + le(y.location);
                    assert(d0.subrange(reader.pos() - 3, reader.pos() as int)[0] == w[0]);
                    assert(buf@ =~= w);
                    assert(buf@[0] == w[0] && buf@[1] == w[1] && buf@[2] == w[2]);
                    assert((label(y) + seq![0u8]).drop_last() =~= label(y));
                    assert(namebuf@ =~= label(y));
                    if y.is_global { assert(label(y) =~= encode_utf8(y.name@)); }
                    else { assert(label(y)[0] == 0x20); assert(label(y).skip(1) =~= encode_utf8(y.name@)); }
                    encode_utf8_valid_utf8(y.name@); encode_utf8_decode_utf8(y.name@);
                    assert(alike(def, y));
                }
            }"""),
            ]),
        sec("RelocationTable") + " :: read": dict(attrs=["verifier::loop_isolation(false)", "verifier::allow_complex_invariants"],
            proof="        let ghost d0 = reader.data(); let ghost p0 = reader.pos(); let ghost s0 = reader.sound();",
            loops=["""
            invariant_except_break
                reader.pos() == p0 + 5 * entries@.len(), reader.data() == d0
            invariant
                0 <= p0 <= d0.len(), p0 + 5 * entries@.len() <= d0.len(), reader.sound() == s0,
                relocs(entries@) =~= d0.subrange(p0, p0 + 5 * entries@.len()),
                io::after(d0, p0) == d0.skip(p0)
            ensures
                p0 + 5 * entries@.len() > d0.len() - 5,
                forall|x: Self| #[trigger] x.enc() == io::after(d0, p0) ==> RelocationTable(entries).same(&x)
            decreases d0.len() - 5 * entries@.len()"""],
            after=[("buf", """let ghost e0 = entries@; proof {
                relocs_all(e0);
                assert forall|x: Self| #[trigger] x.enc() == d0.skip(p0) implies
                        d0.len() - p0 == 5 * x.0@.len() && e0.len() <= x.0@.len() && (e0.len() == x.0@.len() ==> e0 == x.0@) by {
                    relocs_all(x.0@);
                    if e0.len() == x.0@.len() { relocs_same(e0, x.0@); }
                }
                assert forall|e: RelocationEntry| (#[trigger] e0.push(e)).drop_last() =~= e0 by {} }"""),
                   ("stype", """proof {
                        assert forall|x: Self| #[trigger] x.enc() == io::after(d0, p0) implies exists|t: SegmentType| #[trigger] num(t) == stype by {
                            relocs_all(x.0@);
                            assert(d0.skip(p0)[5 * e0.len() as int] == stype);
                            assert(num(x.0@[e0.len() as int].reference_segment) == stype);
                        }
                   }""")],
            ),
    },
    prelude=io_model.PRELUDE + io_model.WRITABLE + SPECS + """
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for SegmentType {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: u8) -> Result<Self, ()>;
}
""",
    trusted=io_model.TRUSTED,
)
