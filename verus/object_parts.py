"""An object as the sections it is written as, and that a reader finds them"""

PARTS = """
pub open spec fn add<S: Section>(l: List, x: Option<S>) -> List { match x { None => l, Some(s) => l.push((S::NAME@, s.enc())) } }
pub open spec fn add_segs(l: List, m: BTreeMap<SegmentType, (u16, Vec<u8>)>, n: int) -> List
    decreases n
{
    if n <= 0 { l } else { add_segs(l, m, n - 1).push((BinarySegment::NAME@, a_seg_(m.order()[n - 1], m@[m.order()[n - 1]]).enc())) }
}
pub open spec fn before_segs(x: Object) -> List { add(add(add(add(seq![], x.entry), x.flags), x.stack_size), x.heap_size) }
pub open spec fn with_segs(x: Object) -> List { add_segs(before_segs(x), x.segs, x.segs.order().len() as int) }
pub open spec fn with_syms(x: Object) -> List { if x.symbols.0@.len() == 0 { with_segs(x) } else { with_segs(x).push((SymbolTable::NAME@, x.symbols.enc())) } }
// the sections an object is written as
pub open spec fn parts(x: Object) -> List {
    if x.relocation_table.0@.len() == 0 { with_syms(x) } else { with_syms(x).push((RelocationTable::NAME@, x.relocation_table.enc())) }
}
pub open spec fn small(x: Object) -> bool { x.file_offset <= 0xfff_ffff_ffff && sections_bytes(parts(x)).len() <= 0xfff_ffff_ffff }
pub open spec fn le_(a: List, b: List) -> bool { sections_bytes(a).len() <= sections_bytes(b).len() }
proof fn segs_sizes(l: List, m: BTreeMap<SegmentType, (u16, Vec<u8>)>, i: int, n: int)
    requires 0 <= i <= n
    ensures le_(add_segs(l, m, i), add_segs(l, m, n))
    decreases n - i
{
    if i < n {
        segs_sizes(l, m, i, n - 1);
        sections_push(add_segs(l, m, n - 1), (BinarySegment::NAME@, a_seg_(m.order()[n - 1], m@[m.order()[n - 1]]).enc()));
    }
}
proof fn add_size<S: Section>(l: List, x: Option<S>)
    ensures
        le_(l, add(l, x)), before(l, add(l, x)),
        x matches Some(s) ==> sections_bytes(add(l, x)).len() == sections_bytes(l).len() + section_bytes(S::NAME@, s.enc()).len()
            && add(l, x)[l.len() as int] == (S::NAME@, s.enc()) && add(l, x).len() == l.len() + 1
{ if let Some(s) = x { sections_push(l, (S::NAME@, s.enc())); } }
pub open spec fn step<S: Section>(l: List, x: Option<S>, all: List) -> bool {
    &&& !S::NAME@.contains('\0')
    &&& le_(add(l, x), all)
    &&& x matches Some(s) ==> sections_bytes(add(l, x)).len() == sections_bytes(l).len() + section_bytes(S::NAME@, s.enc()).len()
        && (short(all) ==> s.enc().len() < 0x1_0000)
}
pub open spec fn some<S: Section>(s: S) -> Option<S> { Some(s) }
pub open spec fn seg_step(x: Object, n: int) -> bool {
    step(add_segs(before_segs(x), x.segs, n), some(a_seg_(x.segs.order()[n], x.segs@[x.segs.order()[n]])), parts(x))
}
proof fn one_step<S: Section>(l: List, x: Option<S>, all: List)
    requires before(add(l, x), all), le_(add(l, x), all), !S::NAME@.contains('\0')
    ensures step(l, x, all)
{
    add_size(l, x);
    if let Some(s) = x { assert(all[l.len() as int] == add(l, x)[l.len() as int]); }
}
proof fn no_nuls()
    ensures
        !Entry::NAME@.contains('\0'), !Flags::NAME@.contains('\0'), !StackSize::NAME@.contains('\0'), !HeapSize::NAME@.contains('\0'),
        !BinarySegment::NAME@.contains('\0'), !SymbolTable::NAME@.contains('\0'), !RelocationTable::NAME@.contains('\0')
{ section_names(); }
proof fn sizes(x: Object)
    ensures
        sections_bytes(seq![]) == Seq::<u8>::empty(),
        step(seq![], x.entry, parts(x)), step(add(seq![], x.entry), x.flags, parts(x)), step(add(add(seq![], x.entry), x.flags), x.stack_size, parts(x)),
        step(add(add(add(seq![], x.entry), x.flags), x.stack_size), x.heap_size, parts(x)),
        forall|n: int| 0 <= n < x.segs.order().len() ==> seg_step(x, n),
        x.symbols.0@.len() > 0 ==> step(with_segs(x), some(x.symbols), parts(x)),
        x.relocation_table.0@.len() > 0 ==> step(with_syms(x), some(x.relocation_table), parts(x)),
{
    no_nuls();
    let n = x.segs.order().len() as int;
    let z = Seq::empty();
    let l1 = add(z, x.entry); let l2 = add(l1, x.flags); let l3 = add(l2, x.stack_size); let l4 = add(l3, x.heap_size);
    add_size(z, x.entry); add_size(l1, x.flags); add_size(l2, x.stack_size); add_size(l3, x.heap_size);
    let (l5, l6, l7) = (with_segs(x), with_syms(x), parts(x));
    segs_sizes(l4, x.segs, 0, n);
    segs_before(l4, x.segs, 0, n);
    add_size(l5, some(x.symbols));
    add_size(l6, some(x.relocation_table));
    assert(before(l6, l7) && le_(l6, l7));
    assert(before(l5, l7) && le_(l5, l7));
    assert(before(l4, l7) && le_(l4, l7));
    one_step(z, x.entry, l7); one_step(l1, x.flags, l7); one_step(l2, x.stack_size, l7); one_step(l3, x.heap_size, l7);
    if x.symbols.0@.len() > 0 { one_step(l5, some(x.symbols), l7); }
    if x.relocation_table.0@.len() > 0 { one_step(l6, some(x.relocation_table), l7); }
    assert forall|k: int| 0 <= k < n implies seg_step(x, k) by {
        segs_sizes(l4, x.segs, k + 1, n);
        segs_before(l4, x.segs, k + 1, n);
        let e = add_segs(l4, x.segs, k + 1);
        assert(before(e, l7));
        one_step(add_segs(l4, x.segs, k), some(a_seg_(x.segs.order()[k], x.segs@[x.segs.order()[k]])), l7);
    }
}
// each section fits the format
pub open spec fn short(l: List) -> bool { forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).1.len() < 0x1_0000 }
pub open spec fn fits(x: Object) -> bool { short(parts(x)) }
// d has x at its end, from x.file_offset
pub open spec fn stored(d: Seq<u8>, x: Object) -> bool {
    let b = AALV_MAGIC@ + sections_bytes(parts(x)) + seq![0u8];
    d.len() == x.file_offset + b.len() && io::has(d, x.file_offset as int, b)
}
proof fn store(b: Seq<u8>, x: Object)
    requires io::has(b, x.file_offset as int, AALV_MAGIC@), b.len() == x.file_offset + AALV_MAGIC@.len()
    ensures stored(io::over(b + sections_bytes(parts(x)), b.len() + sections_bytes(parts(x)).len() as int, seq![0u8]), x)
{
    let w = b + sections_bytes(parts(x));
    io::over_at_end(w, seq![0u8]);
    let d = w + seq![0u8];
    let o = x.file_offset as int;
    let z = AALV_MAGIC@ + sections_bytes(parts(x)) + seq![0u8];
    assert(b.subrange(o, b.len() as int) == AALV_MAGIC@);
    assert forall|k: int| 0 <= k < AALV_MAGIC@.len() implies b[o + k] == AALV_MAGIC@[k] by { assert(b.subrange(o, b.len() as int)[k] == AALV_MAGIC@[k]); }
    assert(d.subrange(o, o + z.len()) =~= z);
}
pub open spec fn before(l: List, m: List) -> bool { l.len() <= m.len() && forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] == m[k] }
proof fn segs_before(l: List, m: BTreeMap<SegmentType, (u16, Vec<u8>)>, i: int, n: int)
    requires 0 <= i <= n
    ensures before(add_segs(l, m, i), add_segs(l, m, n)), add_segs(l, m, n).len() == l.len() + n
    decreases n
{ if 0 < n { segs_before(l, m, if i < n { i } else { i - 1 }, n - 1); } }
"""

ROUND = """
proof fn finds_push(l: List, x: (Seq<char>, Seq<u8>))
    ensures
        finds(l.push(x), x.0) == finds(l, x.0).push(x.1),
        forall|n: Seq<char>| n != x.0 ==> #[trigger] finds(l.push(x), n) == finds(l, n)
    decreases l.len()
{
    if l.len() == 0 {
        assert(l.push(x).skip(1) =~= Seq::empty());
        assert(finds(l.push(x).skip(1), x.0) =~= seq![]);
        assert(finds(l.push(x), x.0) =~= seq![x.1]);
        assert(finds(l, x.0).push(x.1) =~= seq![x.1]);
        assert forall|n: Seq<char>| n != x.0 implies #[trigger] finds(l.push(x), n) == finds(l, n) by {
            assert(finds(l.push(x).skip(1), n) =~= seq![]);
            assert(finds(l, n) =~= seq![]);
        }
    } else {
        let t = l.skip(1);
        assert(l.push(x).skip(1) =~= t.push(x));
        finds_push(t, x);
        assert(finds(l.push(x), x.0) =~= finds(l, x.0).push(x.1));
        assert forall|n: Seq<char>| n != x.0 implies #[trigger] finds(l.push(x), n) == finds(l, n) by {
            assert(finds(t.push(x), n) == finds(t, n));
        }
    }
}
proof fn finds_add<S: Section>(l: List, x: Option<S>)
    ensures
        finds(l, S::NAME@).len() == 0 ==> finds(add(l, x), S::NAME@) == opt(x),
        forall|n: Seq<char>| n != S::NAME@ ==> #[trigger] finds(add(l, x), n) == finds(l, n)
{
    if let Some(s) = x {
        finds_push(l, (S::NAME@, s.enc()));
        if finds(l, S::NAME@).len() == 0 { assert(finds(add(l, x), S::NAME@) =~= opt(x)); }
    } else if finds(l, S::NAME@).len() == 0 { assert(finds(add(l, x), S::NAME@) =~= opt(x)); }
}
proof fn finds_segs(l: List, m: BTreeMap<SegmentType, (u16, Vec<u8>)>, n: int)
    requires finds(l, BinarySegment::NAME@).len() == 0, 0 <= n <= m.order().len()
    ensures
        finds(add_segs(l, m, n), BinarySegment::NAME@) == seg_encs(m).take(n),
        forall|q: Seq<char>| q != BinarySegment::NAME@ ==> #[trigger] finds(add_segs(l, m, n), q) == finds(l, q)
    decreases n
{
    if n > 0 {
        finds_segs(l, m, n - 1);
        let p = add_segs(l, m, n - 1);
        let s = (BinarySegment::NAME@, a_seg_(m.order()[n - 1], m@[m.order()[n - 1]]).enc());
        finds_push(p, s);
        assert(seg_encs(m).take(n) =~= seg_encs(m).take(n - 1).push(s.1));
        assert forall|q: Seq<char>| q != BinarySegment::NAME@ implies #[trigger] finds(add_segs(l, m, n), q) == finds(l, q) by {
            assert(finds(p, q) == finds(l, q));
        }
    } else {
        assert(finds(l, BinarySegment::NAME@) =~= seg_encs(m).take(0));
    }
}
pub proof fn wanted(x: Object)
    ensures forall|n: Seq<char>| finds(parts(x), n) == #[trigger] want(x, n)
{
    section_names();
    let z: List = Seq::empty();
    let l1 = add(z, x.entry); let l2 = add(l1, x.flags); let l3 = add(l2, x.stack_size); let l4 = add(l3, x.heap_size);
    finds_add(z, x.entry); finds_add(l1, x.flags); finds_add(l2, x.stack_size); finds_add(l3, x.heap_size);
    finds_segs(l4, x.segs, x.segs.order().len() as int);
    let (l5, l6) = (with_segs(x), with_syms(x));
    finds_push(l5, (SymbolTable::NAME@, x.symbols.enc()));
    finds_push(l6, (RelocationTable::NAME@, x.relocation_table.enc()));
    assert(seg_encs(x.segs).take(x.segs.order().len() as int) =~= seg_encs(x.segs));
    assert(Entry::NAME@ != Flags::NAME@ && Flags::NAME@[1] != RelocationTable::NAME@[1] && Entry::NAME@[1] != RelocationTable::NAME@[1]);
    assert forall|n: Seq<char>| finds(parts(x), n) == #[trigger] want(x, n) by {
        assert(finds(z, n) =~= seq![]);
        assert(finds(l1, n) == if n == Entry::NAME@ { opt(x.entry) } else { seq![] });
        assert(n != Flags::NAME@ ==> finds(l2, n) == finds(l1, n));
        assert(n != StackSize::NAME@ ==> finds(l3, n) == finds(l2, n));
        assert(n != HeapSize::NAME@ ==> finds(l4, n) == finds(l3, n));
        assert(n != BinarySegment::NAME@ ==> finds(l5, n) == finds(l4, n));
        assert(n != SymbolTable::NAME@ ==> finds(l6, n) == finds(l5, n));
        assert(n != RelocationTable::NAME@ ==> finds(parts(x), n) == finds(l6, n));
        if n == SymbolTable::NAME@ { assert(finds(l5, n).len() == 0); assert(finds(l6, n) =~= want(x, n)); }
        if n == RelocationTable::NAME@ { assert(finds(l6, n).len() == 0); assert(finds(parts(x), n) =~= want(x, n)); }
    }
}
pub proof fn stored_is_written(d: Seq<u8>, x: Object)
    requires stored(d, x), fits(x)
    ensures
        heads(d, x.file_offset + AALV_MAGIC@.len()) matches Some((h, e)) && e == d.len()
            && forall|n: Seq<char>| reserved(n) ==> #[trigger] finds(listing(h, d), n) == want(x, n),
        io::has(d, x.file_offset as int, AALV_MAGIC@)
{
    let (o, m) = (x.file_offset as int, AALV_MAGIC@.len() as int);
    let l = parts(x);
    let b = AALV_MAGIC@ + sections_bytes(l) + seq![0u8];
    assert(d.subrange(o, o + b.len()) == b);
    assert(d.subrange(o, o + m) =~= b.take(m));
    assert(b.take(m) =~= AALV_MAGIC@);
    let t = sections_bytes(l) + seq![0u8];
    assert(d.subrange(o + m, o + m + t.len()) =~= b.skip(m));
    assert(b.skip(m) =~= t);
    assert(proper(l)) by { parts_proper(x); }
    file_read_back(d, o + m, l);
    wanted(x);
    assert forall|n: Seq<char>| reserved(n) implies #[trigger] finds(l, n) == want(x, n) by {}
}
pub open spec fn good(n: Seq<char>) -> bool { n.len() > 0 && !encode_utf8(n).contains(0) }
pub open spec fn all_good(l: List) -> bool { forall|k: int| 0 <= k < l.len() ==> good((#[trigger] l[k]).0) }
proof fn ascii_good(n: Seq<char>)
    requires n.len() > 0, forall|k: int| 0 <= k < n.len() ==> 0 < (#[trigger] n[k]) as u32 && (n[k] as u32) < 128
    ensures good(n)
{
    is_ascii_chars_encode_utf8(n);
    let e = encode_utf8(n);
    assert forall|k: int| 0 <= k < e.len() implies e[k] != 0 by { assert(n[k] as u32 > 0); }
}
proof fn names_good()
    ensures good(Entry::NAME@), good(Flags::NAME@), good(StackSize::NAME@), good(HeapSize::NAME@), good(BinarySegment::NAME@), good(SymbolTable::NAME@), good(RelocationTable::NAME@)
{
    section_names();
    ascii_good(Entry::NAME@); ascii_good(Flags::NAME@); ascii_good(StackSize::NAME@); ascii_good(HeapSize::NAME@);
    ascii_good(BinarySegment::NAME@); ascii_good(SymbolTable::NAME@); ascii_good(RelocationTable::NAME@);
}
proof fn segs_good(l: List, m: BTreeMap<SegmentType, (u16, Vec<u8>)>, n: int)
    requires all_good(l), good(BinarySegment::NAME@)
    ensures all_good(add_segs(l, m, n))
    decreases n
{ if n > 0 { segs_good(l, m, n - 1); } }
proof fn parts_proper(x: Object)
    requires fits(x)
    ensures proper(parts(x))
{
    names_good();
    segs_good(before_segs(x), x.segs, x.segs.order().len() as int);
    assert(all_good(with_syms(x)));
    assert(all_good(parts(x)));
}
"""
