"""src/aalv/obj.rs: an object from the sections of a file"""
from . import io_model, sections, aalv_read, object_parts

NAMES = ("Entry", "Flags", "HeapSize", "StackSize", "BinarySegment", "SymbolTable", "RelocationTable")
sec = sections.sec
TYPES = r"enum SegmentType|struct (Entry|Flags|HeapSize|StackSize|BinarySegment|SymbolDefinition|SymbolTable|RelocationEntry|RelocationTable|Object)"

# what an object is as sections
OBJECT = """
pub open spec fn opt<S: Section>(x: Option<S>) -> Seq<Seq<u8>> { match x { None => seq![], Some(s) => seq![s.enc()] } }
pub open spec fn a_seg_(k: SegmentType, v: (u16, Vec<u8>)) -> BinarySegment { BinarySegment { offset: v.0, stype: k, bytes: v.1 } }
pub open spec fn seg_encs(m: BTreeMap<SegmentType, (u16, Vec<u8>)>) -> Seq<Seq<u8>> {
    Seq::new(m.order().len(), |k: int| a_seg_(m.order()[k], m@[m.order()[k]]).enc())
}
// the sections with name n that x is written as
pub open spec fn want(x: Object, n: Seq<char>) -> Seq<Seq<u8>> {
    if n == Entry::NAME@ { opt(x.entry) }
    else if n == Flags::NAME@ { opt(x.flags) }
    else if n == StackSize::NAME@ { opt(x.stack_size) }
    else if n == HeapSize::NAME@ { opt(x.heap_size) }
    else if n == BinarySegment::NAME@ { seg_encs(x.segs) }
    else if n == SymbolTable::NAME@ { if x.symbols.0@.len() == 0 { seq![] } else { seq![x.symbols.enc()] } }
    else if n == RelocationTable::NAME@ { if x.relocation_table.0@.len() == 0 { seq![] } else { seq![x.relocation_table.enc()] } }
    else { seq![] }
}
pub open spec fn same_opt<S: Section>(a: Option<S>, b: Option<S>) -> bool {
    (a is Some <==> b is Some) && (a is Some ==> a->0.same(&b->0))
}
pub open spec fn same_segs(a: Map<SegmentType, (u16, Vec<u8>)>, b: Map<SegmentType, (u16, Vec<u8>)>) -> bool {
    a.dom() =~= b.dom() && forall|k: SegmentType| #[trigger] a.contains_key(k) ==> a[k].0 == b[k].0 && a[k].1@ == b[k].1@
}
pub open spec fn same_object(a: Object, b: Object) -> bool {
    &&& a.file_offset == b.file_offset
    &&& same_opt(a.entry, b.entry) && same_opt(a.flags, b.flags) && same_opt(a.stack_size, b.stack_size) && same_opt(a.heap_size, b.heap_size)
    &&& same_segs(a.segs@, b.segs@)
    &&& a.symbols.same(&b.symbols)
    &&& a.relocation_table.same(&b.relocation_table)
}
pub struct BTreeMap<K, V> { pub m: Vec<(K, V)> }
impl<K, V> View for BTreeMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K, V> BTreeMap<K, V> {
    // its keys in the order they are gone through
    pub uninterp spec fn order(&self) -> Seq<K>;
    #[verifier::external_body]
    pub proof fn ordered(&self)
        ensures
            forall|i: int, j: int| 0 <= i < j < self.order().len() ==> self.order()[i] != self.order()[j],
            forall|k: K| #[trigger] self@.contains_key(k) <==> self.order().contains(k)
    {}
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.contains_key(k)
    { unimplemented!() }
}
pub open spec fn reserved(n: Seq<char>) -> bool { n.len() > 0 && n[0] == '_' }
proof fn section_names()
    ensures
        Entry::NAME@ =~= seq!['_', 'e', 'n', 't', 'r', 'y'], Flags::NAME@ =~= seq!['_', 'f', 'l', 'a', 'g', 's'],
        StackSize::NAME@ =~= seq!['_', 's', 't', 'a', 'c', 'k', '_', 's', 'i', 'z', 'e'], HeapSize::NAME@ =~= seq!['_', 'h', 'e', 'a', 'p', '_', 's', 'i', 'z', 'e'],
        BinarySegment::NAME@ =~= seq!['_', 's', 'e', 'g'], SymbolTable::NAME@ =~= seq!['_', 's', 'y', 'm', 's'], RelocationTable::NAME@ =~= seq!['_', 'r', 'e', 'l', 'o', 'c'],
        Entry::NAME@.len() == 6 && Flags::NAME@.len() == 6 && StackSize::NAME@.len() == 11 && HeapSize::NAME@.len() == 10
            && BinarySegment::NAME@.len() == 4 && SymbolTable::NAME@.len() == 5 && RelocationTable::NAME@.len() == 6,
        Entry::NAME@[1] == 'e', Flags::NAME@[1] == 'f', RelocationTable::NAME@[1] == 'r',
{
    reveal_strlit("_entry"); reveal_strlit("_flags"); reveal_strlit("_stack_size"); reveal_strlit("_heap_size"); reveal_strlit("_seg"); reveal_strlit("_syms"); reveal_strlit("_reloc");
}
"""

JOB = dict(
    search="objects",
    stand_in="the native search `objects`",
    at_least=5,
    copy=sections.JOB["copy"],
    public=["struct AalvReader"],
    sources=[
        dict(file="src/aalv/mod.rs", only=[r"const AALV_MAGIC", r"trait Section", r"struct AalvReader", r"fn read_aalv_file"], rename=[("Result <", "io::Result<")]),
        dict(file="src/aalv/mod.rs", only=[r"impl < F : BufRead \+ Seek > AalvReader < F >"], methods=["new", "read_section"], rename=[("Result <", "io::Result<")]),
        dict(file="src/aalv/obj.rs", only=[TYPES, r"impl Object"], methods=["from_aalv_reader", "from_file"]),
        dict(file="src/aalv/obj/sec_impl.rs"),
    ],
    str_bytes={"AALV_MAGIC": "MAGIC_LEN"},
    rename=[("P : AsRef < Path >", "P"), ("aalvur . remaing_sections ( )", "names_(aalvur)"),
            ("s . starts_with ( '_' )", "starts_(s, '_')"), (". transpose", ".transpose_")],
    inside=dict(sections.JOB["inside"]),
    contracts={
        "trait Section :: read": dict(ret="r", spec=io_model.SECTION_READ),
        "trait Section :: write": dict(ret="r", by_ref=["writer"], spec=io_model.SECTION_WRITE),
        **{sec(n) + " :: read": dict(ret="r", trusted=True) for n in NAMES},
        **{sec(n) + " :: write": dict(ret="r", trusted=True, by_ref=["writer"]) for n in NAMES},
        aalv_read.RD + " :: read_section": dict(aalv_read.JOB["contracts"][aalv_read.RD + " :: read_section"], trusted=True),
        aalv_read.RD + " :: new": dict(ret="r", spec=aalv_read.JOB["contracts"][aalv_read.RD + " :: new"]["spec"], trusted=True),
        "fn read_aalv_file": dict(ret="r", spec="""
        ensures
            r matches Ok(a) ==> a.ok() && a.file.data() == path_data(path) && (path_sound(path) ==> a.file.sound())
                && is_file(path_data(path), 0, a.file_offset as int, a.heads(), a.file_end as int),
            path_sound(path) && r is Err ==> forall|o: int, h: Seq<Head>, e: int| !is_file(path_data(path), 0, o, h, e)"""),
        "impl Object :: from_file": dict(ret="r", spec="""
        ensures
            // what is read is there
            r matches Ok(y) ==> in_file(y, path_data(path)),
            // the object that was written to a file is read from it
            forall|x: Object| #[trigger] holds(path_data(path), x) && path_sound(path) ==> (r matches Ok(y) && same_object(y, x))""",
            proof="""        proof {
            let d = path_data(path);
            assert forall|x: Object| #[trigger] holds(d, x) implies about(x) && found(d, x) by { held(d, x); }
        }"""),
        "impl Object :: from_aalv_reader": dict(ret="r", spec="""
        requires old(aalvur).ok()
        ensures
            // nothing but what an object consists of, each at most once, is read as an object
            r matches Ok(y) ==> read_from(y, old(aalvur).list()) && y.file_offset == old(aalvur).file_offset,
            // what an object is written as is read as that object
            forall|x: Object| #![trigger written(x, *old(aalvur))] #![trigger about(x)] written(x, *old(aalvur)) && old(aalvur).file.sound() ==> (r matches Ok(y) && same_object(y, x))""",
            attrs=["verifier::loop_isolation(false)", "verifier::allow_complex_invariants"],
            proof="""        let ghost a0 = *aalvur; let ghost l0 = aalvur.list(); let ghost g = BinarySegment::NAME@; let ghost mut f_ = finds(l0, g);
        proof {
            section_names();
            assert forall|x: Object| #[trigger] written(x, a0) implies finds(l0, g) == seg_encs(x.segs) && halfway(x.segs, Map::empty(), 0) by { assert(reserved(g)); };
        }""",
            loops=["""
            invariant
                aalvur.ok(), aalvur.file_offset == a0.file_offset, aalvur.file.sound() == a0.file.sound(),
                f_ == finds(aalvur.list(), g), f_.len() <= finds(l0, g).len(), f_ == finds(l0, g).skip(finds(l0, g).len() - f_.len()),
                each_seg(finds(l0, g).take(finds(l0, g).len() - f_.len()), segs@),
                forall|n: Seq<char>| n != g ==> #[trigger] finds(aalvur.list(), n) == finds(l0, n),
                forall|x: Object| #[trigger] written(x, a0) && a0.file.sound() ==> f_.len() <= x.segs.order().len()
                    && f_ == seg_encs(x.segs).skip(x.segs.order().len() - f_.len())
                    && halfway(x.segs, segs@, x.segs.order().len() - f_.len())
            decreases f_.len()"""],
            loop_starts=["""let ghost s0 = segs@; let ghost sg_ = seg; proof {
                assert forall|x: Object| #[trigger] written(x, a0) && a0.file.sound() implies ({
                    let i = x.segs.order().len() - f_.len();
                    let k = x.segs.order()[i];
                    f_[0] == a_seg_(k, x.segs@[k]).enc() && (is_seg_(seg, k, x.segs@[k]) && !s0.contains_key(k))
                }) by {
                    x.segs.ordered();
                    let i = x.segs.order().len() - f_.len();
                    let k = x.segs.order()[i];
                    assert(seg_encs(x.segs).skip(i)[0] == seg_encs(x.segs)[i]);
                    assert(f_[0] == a_seg_(k, x.segs@[k]).enc());
                }
            }"""],
            loop_ends=["""proof {
                let g0 = f_;
                f_ = finds(aalvur.list(), g);
                let st = sg_->Ok_0.stype;
                let v = segs@[st];
                assert(segs@ == s0.insert(st, v));
                assert(a_seg_(st, v).enc() =~= g0[0]);
                segs_step(finds(l0, g), s0, segs@, finds(l0, g).len() - g0.len());
                assert forall|x: Object| #[trigger] written(x, a0) && a0.file.sound() implies f_.len() <= x.segs.order().len()
                    && f_ == seg_encs(x.segs).skip(x.segs.order().len() - f_.len())
                    && halfway(x.segs, segs@, x.segs.order().len() - f_.len()) by {
                    let i = x.segs.order().len() - g0.len();
                    let k = x.segs.order()[i];
                    assert(seg_encs(x.segs).skip(i).skip(1) =~= seg_encs(x.segs).skip(i + 1));
                    halfway_step(x.segs, s0, segs@, i);
                }
            }"""],
            after=[("obj", """proof {
                let l = aalvur.list();
                assert forall|k: int| 0 <= k < l.len() implies finds(l, (#[trigger] l[k]).0).len() > 0 by { finds_some(l, k); };
                assert forall|k: int| 0 <= k < aalvur.sections@.len() implies (#[trigger] aalvur.sections@[k]).0@ == l[k].0 by {};
                if none_left(l) {
                    assert forall|n: Seq<char>| reserved(n) implies (#[trigger] finds(l, n)).len() == 0 by { finds_not(l, n); }
                    assert forall|n: Seq<char>| reserved(n) && unknown(n) implies (#[trigger] finds(l0, n)).len() == 0 by { assert(finds(l, n).len() == 0); }
                    assert(finds(l, Entry::NAME@).len() == 0 && finds(l, Flags::NAME@).len() == 0 && finds(l, StackSize::NAME@).len() == 0 && finds(l, HeapSize::NAME@).len() == 0
                        && finds(l, SymbolTable::NAME@).len() == 0 && finds(l, RelocationTable::NAME@).len() == 0);
                    assert(only(obj.entry, l0));
                    assert(only(obj.flags, l0));
                    assert(only(obj.stack_size, l0));
                    assert(only(obj.heap_size, l0));
                    assert(table(obj.symbols, obj.symbols.0@.len() == 0, l0));
                    assert(table(obj.relocation_table, obj.relocation_table.0@.len() == 0, l0));
                    assert(each_seg(finds(l0, g), obj.segs@));
                    assert(read_from(obj, l0));
                }
                assert forall|x: Object| #[trigger] written(x, a0) && a0.file.sound() implies same_object(obj, x)
                        && (forall|n: Seq<char>| reserved(n) ==> (#[trigger] finds(l, n)).len() == 0) by {
                    x.segs.ordered();
                    assert(same_segs(obj.segs@, x.segs@)) by { halfway_done(x.segs, obj.segs@); }
                    assert(finds(l0, Entry::NAME@) == opt(x.entry));
                    assert(same_opt(obj.entry, x.entry));
                    assert(finds(l0, Flags::NAME@) == opt(x.flags));
                    assert(same_opt(obj.flags, x.flags));
                    assert(same_opt(obj.stack_size, x.stack_size));
                    assert(same_opt(obj.heap_size, x.heap_size));
                    assert(obj.symbols.same(&x.symbols));
                    assert(obj.relocation_table.same(&x.relocation_table));
                }
            }""")],
            closures=[("| s |", "-> (r: bool) ensures r == reserved(s@)", "|s: &str| "),
                      ("|| ~ SymbolTable", "-> (r: SymbolTable) ensures r.0@.len() == 0", "|| "),
                      ("|| ~ RelocationTable", "-> (r: RelocationTable) ensures r.0@.len() == 0", "|| ")]),
    },
    prelude=io_model.PRELUDE + io_model.WRITABLE + io_model.READ_SEEK + io_model.LISTS + io_model.READ_LISTS + sections.SPECS + OBJECT + io_model.READ_FILE + io_model.FILES + io_model.READ_BACK
        + object_parts.PARTS + object_parts.ROUND + """
// d is x as written, after what is not the beginning of another
pub open spec fn holds(d: Seq<u8>, x: Object) -> bool {
    stored(d, x) && fits(x) && x.symbols.fit() && forall|q: int| 0 <= q < x.file_offset ==> !io::has(d, q, AALV_MAGIC@)
}
pub open spec fn found(d: Seq<u8>, x: Object) -> bool {
    &&& exists|h: Seq<Head>, e: int| is_file(d, 0, x.file_offset as int, h, e)
    &&& forall|o: int, h: Seq<Head>, e: int| #[trigger] is_file(d, 0, o, h, e) ==>
        o == x.file_offset && forall|n: Seq<char>| reserved(n) ==> #[trigger] finds(listing(h, d), n) == want(x, n)
}
pub open spec fn in_file(y: Object, d: Seq<u8>) -> bool {
    exists|h: Seq<Head>, e: int| #[trigger] is_file(d, 0, y.file_offset as int, h, e) && read_from(y, listing(h, d))
}
pub open spec fn about(x: Object) -> bool { true }
proof fn held(d: Seq<u8>, x: Object)
    requires holds(d, x)
    ensures found(d, x)
{
    stored_is_written(d, x);
    let f = x.file_offset as int;
    let (h0, e0) = heads(d, f + AALV_MAGIC@.len())->0;
    assert(first_magic(d, 0, f));
    assert(is_file(d, 0, f, h0, e0));
    assert forall|o: int, h: Seq<Head>, e: int| #[trigger] is_file(d, 0, o, h, e) implies o == f && h == h0 by {
        assert(first_magic(d, 0, o));
        if o < f { assert(!io::has(d, o, AALV_MAGIC@)); }
        if f < o { assert(!io::has(d, f, AALV_MAGIC@)); }
    }
}
pub open spec fn written<F: BufRead + Seek>(x: Object, a: AalvReader<F>) -> bool {
    x.symbols.fit() && x.file_offset == a.file_offset && forall|n: Seq<char>| reserved(n) ==> #[trigger] finds(a.list(), n) == want(x, n)
}
pub open spec fn unknown(n: Seq<char>) -> bool {
    n != Entry::NAME@ && n != Flags::NAME@ && n != StackSize::NAME@ && n != HeapSize::NAME@ && n != BinarySegment::NAME@ && n != SymbolTable::NAME@ && n != RelocationTable::NAME@
}
pub open spec fn none_left(l: List) -> bool { forall|k: int| 0 <= k < l.len() ==> !reserved((#[trigger] l[k]).0) }
// x is the only section of its name, if there is one, and read from it
pub open spec fn only<S: Section>(x: Option<S>, l: List) -> bool {
    let f = finds(l, S::NAME@);
    &&& f.len() <= 1 && (x is Some <==> f.len() == 1)
    &&& x matches Some(s) ==> s.means(f[0])
}
// a table that is empty when there is none
pub open spec fn table<S: Section>(x: S, none: bool, l: List) -> bool {
    let f = finds(l, S::NAME@);
    f.len() <= 1 && (f.len() == 0 ==> none) && (f.len() == 1 ==> x.means(f[0]))
}
// the segments are these, and of distinct types
pub open spec fn each_seg(f: Seq<Seq<u8>>, m: Map<SegmentType, (u16, Vec<u8>)>) -> bool {
    &&& m.dom().len() == f.len()
    &&& forall|k: int| 0 <= k < f.len() ==> is_among(#[trigger] f[k], m)
}
pub open spec fn is_among(b: Seq<u8>, m: Map<SegmentType, (u16, Vec<u8>)>) -> bool {
    exists|t: SegmentType| #[trigger] m.contains_key(t) && a_seg_(t, m[t]).enc() == b
}
proof fn segs_step(f: Seq<Seq<u8>>, s: Map<SegmentType, (u16, Vec<u8>)>, t: Map<SegmentType, (u16, Vec<u8>)>, n: int)
    requires
        0 <= n < f.len(), each_seg(f.take(n), s),
        exists|k: SegmentType, v: (u16, Vec<u8>)| !s.contains_key(k) && t == #[trigger] s.insert(k, v) && a_seg_(k, v).enc() == f[n]
    ensures each_seg(f.take(n + 1), t)
{
    let (k, v) = choose|k: SegmentType, v: (u16, Vec<u8>)| !s.contains_key(k) && t == #[trigger] s.insert(k, v) && a_seg_(k, v).enc() == f[n];
    let (a, b) = (f.take(n), f.take(n + 1));
    assert(t.dom() =~= s.dom().insert(k));
    assert(t.contains_key(k));
    assert forall|j: int| 0 <= j < b.len() implies is_among(#[trigger] b[j], t) by {
        if j < n {
            assert(a[j] == b[j]);
            assert(is_among(a[j], s));
            let q = choose|q: SegmentType| #[trigger] s.contains_key(q) && a_seg_(q, s[q]).enc() == a[j];
            assert(t.contains_key(q) && t[q] == s[q]);
        }
    }
}
pub open spec fn read_from(y: Object, l: List) -> bool {
    &&& forall|n: Seq<char>| reserved(n) && unknown(n) ==> (#[trigger] finds(l, n)).len() == 0
    &&& only(y.entry, l) && only(y.flags, l) && only(y.stack_size, l) && only(y.heap_size, l)
    &&& table(y.symbols, y.symbols.0@.len() == 0, l) && table(y.relocation_table, y.relocation_table.0@.len() == 0, l)
    &&& each_seg(finds(l, BinarySegment::NAME@), y.segs@)
}
proof fn finds_not(l: List, n: Seq<char>)
    requires forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).0 != n
    ensures finds(l, n).len() == 0
    decreases l.len()
{
    if l.len() > 0 {
        assert forall|k: int| 0 <= k < l.skip(1).len() implies (#[trigger] l.skip(1)[k]).0 != n by { assert(l.skip(1)[k] == l[k + 1]); }
        finds_not(l.skip(1), n);
    }
}
pub open spec fn is_seg_(r: io::Result<BinarySegment>, k: SegmentType, v: (u16, Vec<u8>)) -> bool {
    r matches Ok(b) && b.same(&a_seg_(k, v))
}
// s are the first n of m
pub open spec fn halfway(m: BTreeMap<SegmentType, (u16, Vec<u8>)>, s: Map<SegmentType, (u16, Vec<u8>)>, n: int) -> bool {
    &&& 0 <= n <= m.order().len()
    &&& forall|k: SegmentType| #[trigger] s.contains_key(k) <==> m.order().take(n).contains(k)
    &&& forall|k: SegmentType| #[trigger] s.contains_key(k) ==> s[k].0 == m@[k].0 && s[k].1@ == m@[k].1@
}
proof fn halfway_step(m: BTreeMap<SegmentType, (u16, Vec<u8>)>, s: Map<SegmentType, (u16, Vec<u8>)>, t: Map<SegmentType, (u16, Vec<u8>)>, n: int)
    requires
        halfway(m, s, n), n < m.order().len(), ({
            let k = m.order()[n];
            t == s.insert(k, t[k]) && t[k].0 == m@[k].0 && t[k].1@ == m@[k].1@
        })
    ensures halfway(m, t, n + 1)
{
    let k = m.order()[n];
    let (a, b) = (m.order().take(n), m.order().take(n + 1));
    assert(b =~= a.push(k));
    assert forall|q: SegmentType| #[trigger] t.contains_key(q) <==> b.contains(q) by {
        if b.contains(q) && q != k { let j = b.index_of(q); assert(a[j] == q); assert(a.contains(q)); }
        if a.contains(q) { let j = a.index_of(q); assert(b[j] == q); }
        if q == k { assert(b[n] == k); }
    }
}
proof fn halfway_done(m: BTreeMap<SegmentType, (u16, Vec<u8>)>, s: Map<SegmentType, (u16, Vec<u8>)>)
    requires halfway(m, s, m.order().len() as int)
    ensures same_segs(s, m@)
{
    m.ordered();
    assert(m.order().take(m.order().len() as int) =~= m.order());
    assert forall|k: SegmentType| s.contains_key(k) == m@.contains_key(k) by {}
}
proof fn finds_some(l: List, k: int)
    requires 0 <= k < l.len()
    ensures finds(l, l[k].0).len() > 0
    decreases l.len()
{
    if k > 0 { assert(l.skip(1)[k - 1] == l[k]); finds_some(l.skip(1), k - 1); }
}
pub struct Names_<'a, F> { pub a: &'a AalvReader<F> }
pub fn names_<'a, F: BufRead + Seek>(a: &'a AalvReader<F>) -> (r: Names_<'a, F>) ensures *r.a == *a { Names_ { a } }
impl<'a, F: BufRead + Seek> Names_<'a, F> {
    pub fn any<P: Fn(&str) -> bool>(&self, p: P) -> (r: bool)
        requires forall|k: int| 0 <= k < self.a.sections@.len() ==> call_requires(p, (&*(#[trigger] self.a.sections@[k]).0,))
        ensures
            self.a.sections@.len() <= usize::MAX,
            !r ==> forall|k: int| 0 <= k < self.a.sections@.len() ==> call_ensures(p, (&*(#[trigger] self.a.sections@[k]).0,), false),
            r ==> exists|k: int| 0 <= k < self.a.sections@.len() && call_ensures(p, (&*(#[trigger] self.a.sections@[k]).0,), true)
    {
        let s = &self.a.sections;
        let mut n: usize = 0;
        while n < s.len()
            invariant
                n <= s@.len(), *s == self.a.sections, forall|k: int| 0 <= k < s@.len() ==> call_requires(p, (&*(#[trigger] s@[k]).0,)),
                forall|k: int| 0 <= k < n ==> call_ensures(p, (&*(#[trigger] s@[k]).0,), false)
            decreases s@.len() - n
        {
            if p(&*s[n].0) { return true; }
            n = n + 1;
        }
        false
    }
}
#[verifier::external_body]
pub fn starts_(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
pub trait Transpose_<T> {
    fn transpose_(self) -> io::Result<Option<T>>;
}
impl<T> Transpose_<T> for Option<io::Result<T>> {
    fn transpose_(self) -> (r: io::Result<Option<T>>)
        ensures match self {
            None => r == Ok::<Option<T>, io::Error>(None),
            Some(Ok(x)) => r == Ok::<Option<T>, io::Error>(Some(x)),
            Some(Err(e)) => r == Err::<Option<T>, io::Error>(e),
        }
    { match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
}
""",
    trusted=io_model.TRUSTED + ["BTreeMap::new and insert as documented, its keys distinct"],
)
