"""src/source/mod.rs: lines to segments, and the addresses of what is in them"""
from . import encode, labels

ST = "impl ProcessState"
LINES = "impl < B : BufRead > SourceLines < B >"

STAND_INS = """
pub struct BTreeMap<K, V> { pub m: Vec<(K, V)> }
impl<K, V> View for BTreeMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
pub trait Dflt_: Sized { spec fn dflt(self) -> bool; }
impl<K, V> BTreeMap<K, V> {
    // its keys in the order they are gone through
    pub uninterp spec fn order(&self) -> Seq<K>;
    #[verifier::external_body]
    pub broadcast proof fn ordered(&self)
        ensures
            #![trigger self.order()]
            forall|i: int, j: int| 0 <= i < j < self.order().len() ==> #[trigger] self.order()[i] != #[trigger] self.order()[j],
            forall|i: int| 0 <= i < self.order().len() ==> self@.contains_key(#[trigger] self.order()[i]),
            forall|k: K| #[trigger] self@.contains_key(k) ==> self.order().contains(k)
    {}
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn count_(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn value_mut_<'a>(&'a mut self, n: usize) -> (r: &'a mut V)
        requires n < old(self).order().len()
        ensures
            *r == old(self)@[old(self).order()[n as int]], final(self).order() == old(self).order(),
            final(self)@ == old(self)@.insert(old(self).order()[n as int], *final(r))
    { unimplemented!() }
    // entry(k).or_default()
    #[verifier::external_body]
    pub fn or_default_<'a>(&'a mut self, k: K) -> (r: &'a mut V) where V: Dflt_
        ensures
            if old(self)@.contains_key(k) { *r == old(self)@[k] } else { (*r).dflt() },
            final(self)@ == old(self)@.insert(k, *final(r))
    { unimplemented!() }
}
impl Dflt_ for DataLineSegment { open spec fn dflt(self) -> bool { self.lines@.len() == 0 && self.size == 0 && self.start == 0 } }
pub trait BufRead: Sized {}
// the lines still to come
pub struct Lines<B> { pub b: B }
impl<B> Lines<B> {
    pub uninterp spec fn rest(self) -> Seq<StdResult<String, IoError>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<StdResult<String, IoError>>)
        ensures match r {
            Some(l) => old(self).rest().len() > 0 && l == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && *final(self) == *old(self),
        }
    { unimplemented!() }
}
pub struct BufReader<F> { pub f: F }
pub struct File {}
impl BufRead for BufReader<File> {}
pub struct Path {}
impl Path {
    #[verifier::external_body]
    pub fn new<S: ?Sized>(s: &S) -> &Path { unimplemented!() }
    #[verifier::external_body]
    pub fn with_file_name(&self, s: &str) -> Path { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &String) -> Path { unimplemented!() }
}
#[verifier::external_body]
pub fn opened_(path: &Path) -> (r: SourceResult<SourceLines<BufReader<File>>>)
    ensures r matches Ok(l) ==> l.ln == 0 && l.errors is None && l.lines.rest().len() < 0xffff_ffff
{ unimplemented!() }
pub trait Text_ {
    fn copied_(&self) -> Box<str>;
}
impl Text_ for Box<str> {
    #[verifier::external_body]
    fn copied_(&self) -> (r: Box<str>) { self.clone() }
}
pub trait Prefix_ { fn strip_prefix_(&self, c: char) -> Option<&str>; }
impl Prefix_ for String {
    #[verifier::external_body]
    fn strip_prefix_(&self, c: char) -> Option<&str> { self.strip_prefix(c) }
}
pub assume_specification [String::into_boxed_str] (s: String) -> (r: Box<str>) ensures r@ == s@;
"""

SPECS = """
pub open spec fn line_size(l: DataLine) -> int {
    match l {
        DataLine::Ins(_, d) => 1 + bytes(d, 0).len() as int,
        DataLine::Wide(_) => 2,
        DataLine::Raw(b) => b@.len() as int,
    }
}
// how many bytes the lines are
pub open spec fn total(s: Seq<DataLine>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + line_size(s.last()) } }
// at is the place of one of the lines, or of the end
pub open spec fn place(s: Seq<DataLine>, at: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] total(s.take(k)) == at }
pub open spec fn id_of(l: DataLine) -> Option<usize> {
    match l {
        DataLine::Wide(Wide::Label(i)) => Some(i),
        DataLine::Ins(_, d) => match imm_of(d) { Imm::Wide(Wide::Label(i)) => Some(i), _ => None },
        _ => None,
    }
}
pub type Segs = Map<SegmentType, DataLineSegment>;
pub open spec fn lines_of(m: Segs, st: SegmentType) -> Seq<DataLine> { if m.contains_key(st) { m[st].lines@ } else { seq![] } }
pub open spec fn size_of_(m: Segs, st: SegmentType) -> int { if m.contains_key(st) { m[st].size as int } else { 0 } }
pub open spec fn start_of(m: Segs, st: SegmentType) -> int { if m.contains_key(st) { m[st].start as int } else { 0 } }
// m has the lines of o and l after those of st
pub open spec fn with_line(m: Segs, o: Segs, st: SegmentType, l: DataLine) -> bool {
    &&& m.dom() =~= o.dom().insert(st)
    &&& m.contains_key(st) && m[st].lines@ =~= lines_of(o, st).push(l)
    &&& forall|k: SegmentType| #[trigger] m.contains_key(k) && k != st ==> m[k] == o[k]
}
pub open spec fn sized(m: Segs) -> bool { forall|k: SegmentType| #[trigger] m.contains_key(k) ==> m[k].size == total(m[k].lines@) }
pub open spec fn valid(m: Segs, s: Symbols) -> bool {
    forall|k: SegmentType, i: int| m.contains_key(k) && 0 <= i < m[k].lines@.len() ==> (id_of(#[trigger] m[k].lines@[i]) matches Some(n) ==> n < s.labels@.len())
}
pub open spec fn here(m: Segs, a: Address) -> bool { place(lines_of(m, a.0), a.1 as int) }
pub open spec fn labelled(m: Segs, s: Symbols) -> bool {
    forall|i: int| 0 <= i < s.labels@.len() ==> (#[trigger] s.at(i) matches Some(a) ==> here(m, a))
}
impl ProcessState {
    // sizes are those of the lines, labels and the entry are places of lines, and labels that are used are there
    pub open spec fn good(self, s: Symbols) -> bool {
        &&& s.wf() && sized(self.dls@) && valid(self.dls@, s) && labelled(self.dls@, s)
        &&& self.entry matches Some(a) ==> here(self.dls@, a)
        &&& forall|k: SegmentType| #[trigger] self.dls@.contains_key(k) ==> self.dls@[k].start == 0
    }
    pub open spec fn now(self, st: SegmentType) -> Address { Address(st, size_of_(self.dls@, st) as u16) }
}
// perhaps more labels, without an address
pub open spec fn more(s: Symbols, o: Symbols) -> bool {
    &&& s.labels@.len() >= o.labels@.len()
    &&& forall|i: int| 0 <= i < o.labels@.len() ==> #[trigger] s.names()[i] == o.names()[i]
    &&& s.alike(o, -1)
    &&& forall|i: int| o.labels@.len() <= i < s.labels@.len() ==> #[trigger] s.at(i) is None && s.kind(i) is Internal
}
pub open spec fn seg_named(n: Seq<char>, st: SegmentType) -> bool {
    match st {
        SegmentType::Data => n == "data"@,
        SegmentType::RoData => n == "rodata"@,
        SegmentType::Text => n == "text"@,
        SegmentType::Heap => n == "heap"@,
        _ => false,
    }
}
// what a line that is accepted does
pub open spec fn did(line: SourceLine, c0: SegmentType, c1: SegmentType, s0: Symbols, s1: Symbols, t0: ProcessState, t1: ProcessState, n: nat) -> bool
    decreases n, 0int
{
    &&& line is DirSeg || c1 == c0
    &&& line is DirSeg || line is DirEntry || line is Label || line is Comment || line is DirGlobal || line is DirReference ==> t1.dls == t0.dls
    &&& line is DirSeg || line is DirEntry || line is Comment || line is DirByte || line is DirString || (line matches SourceLine::DirWide(Ok(_))) ==> s1 == s0
    &&& line is DirEntry || line is DirInclude || t1.entry == t0.entry
    &&& match line {
        SourceLine::DirSeg(n) => seg_named(n@, c1),
        SourceLine::DirEntry => t0.entry is None && t1.entry == Some(t0.now(c0)),
        // a label is the address of what comes next
        SourceLine::Label(l) => s1.with(s0, l@) && {
            let i = s1.index(l@);
            &&& s1.is_at(l@, i) && s1.at(i) == Some(t0.now(c0)) && s1.alike(s0, i) && s1.kind(i) == s0.kind(i)
            &&& i < s0.labels@.len() ==> s0.at(i) is None
        },
        SourceLine::Ins(n, ops) => more(s1, s0) && exists|op: u8, d: DataOperand| assembled(ops@, d, s1) && #[trigger] with_line(t1.dls@, t0.dls@, c0, DataLine::Ins(op, d)),
        SourceLine::DirByte(b) => exists|v: Vec<u8>| v@ =~= seq![b] && #[trigger] with_line(t1.dls@, t0.dls@, c0, DataLine::Raw(v)),
        SourceLine::DirString(v) => with_line(t1.dls@, t0.dls@, c0, DataLine::Raw(v)),
        SourceLine::DirWide(Ok(w)) => with_line(t1.dls@, t0.dls@, c0, DataLine::Wide(Wide::Number(w))),
        SourceLine::DirWide(Err(l)) => s1.with(s0, l@) && s1.alike(s0, -1) && exists|id: usize| id < s1.labels@.len() && s1.names()[id as int] == l@
            && #[trigger] with_line(t1.dls@, t0.dls@, c0, DataLine::Wide(Wide::Label(id))),
        SourceLine::DirGlobal(l) => s1.with(s0, l@) && declared(s1, s0, l@, false),
        SourceLine::DirReference(l) => s1.with(s0, l@) && declared(s1, s0, l@, true),
        // some lines, as if they were here, but for the segment
        SourceLine::DirInclude(_) => n > 0 && exists|ls: Seq<SourceLine>, c: SegmentType| #[trigger] file_(ls, c) && ran(ls, c, s0, s1, t0, t1, (n - 1) as nat),
        SourceLine::Comment => true,
    }
}
pub open spec fn declared(s: Symbols, o: Symbols, l: Seq<char>, reference: bool) -> bool {
    let i = s.index(l);
    &&& s.is_at(l, i) && s.alike(o, i)
    &&& s.at(i) == (if i < o.labels@.len() { o.at(i) } else { None })
    &&& s.kind(i) == (if reference || i < o.labels@.len() && o.kind(i) is Reference { SymbolType::Reference } else { SymbolType::Global })
}
// the label of the operands (which instruction it is: C19)
pub open spec fn assembled(ops: Seq<SourceOperand>, d: DataOperand, s: Symbols) -> bool {
    imm_of(d) matches Imm::Wide(Wide::Label(i)) ==> i < s.labels@.len() && named(ops, s.names()[i as int])
}
pub open spec fn named(ops: Seq<SourceOperand>, l: Seq<char>) -> bool {
    exists|k: int| 0 <= k < ops.len() && (#[trigger] ops[k] matches SourceOperand::Label(n) && n@ == l)
}
// segments are one after the other, each at the beginning of a page, none in the first
pub open spec fn placed(m: Segs, o: Seq<SegmentType>, n: int, end: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> PAGE_SIZE <= start_of(m, #[trigger] o[i]) && start_of(m, o[i]) % PAGE_SIZE as int == 0
        && start_of(m, o[i]) + size_of_(m, o[i]) <= end
    &&& forall|i: int, j: int| 0 <= i < j < n ==> start_of(m, #[trigger] o[i]) + size_of_(m, o[i]) <= start_of(m, #[trigger] o[j])
}
pub open spec fn label_made(e: (Box<str>, SymbolType, SegmentType, u16), s: Symbols, i: int, m: Segs) -> bool {
    &&& e.0@ == s.names()[i]
    &&& match s.at(i) {
        Some(a) => !(s.kind(i) is Reference) && e.1 == s.kind(i) && e.2 == a.0 && e.3 == a.1 + start_of(m, a.0),
        None => !(s.kind(i) is Internal) && e.1 is Reference && e.2 is Unknown,
    }
}
pub open spec fn same_lines(m: Segs, o: Segs) -> bool {
    m.dom() =~= o.dom() && forall|k: SegmentType| #[trigger] m.contains_key(k) ==> m[k].lines == o[k].lines && m[k].size == o[k].size
}
// p is what the labels s and the lines t stand for, at their addresses
pub open spec fn made(p: ProcessedSource, s: Symbols, t: ProcessState) -> bool {
    &&& p.labels@.len() == s.labels@.len() && forall|i: int| 0 <= i < s.labels@.len() ==> label_made(#[trigger] p.labels@[i], s, i, p.dls@)
    &&& same_lines(p.dls@, t.dls@)
    &&& placed(p.dls@, p.dls.order(), p.dls.order().len() as int, 0xffff)
    &&& match t.entry {
        Some(a) => p.entry matches Some(e) && e.0 == a.0 && e.1 == a.1 + start_of(p.dls@, a.0),
        None => p.entry is None,
    }
}
// every place has an address
pub open spec fn fitting(m: Segs) -> bool { forall|k: SegmentType| #[trigger] m.contains_key(k) ==> m[k].start + m[k].size <= 0xffff }
// the labels and the entry have addresses
pub open spec fn room(m: Segs, a: Address) -> bool { start_of(m, a.0) + a.1 <= 0xffff }
pub open spec fn roomy(m: Segs, s: Symbols, e: Option<Address>) -> bool {
    &&& forall|i: int| 0 <= i < s.labels@.len() ==> (#[trigger] s.at(i) matches Some(a) ==> room(m, a))
    &&& e matches Some(a) ==> room(m, a)
}
proof fn has_room(m: Segs, t: ProcessState, a: Address)
    requires here(t.dls@, a), sized(t.dls@), same_lines(m, t.dls@), fitting(m)
    ensures room(m, a)
{
    let ls = lines_of(t.dls@, a.0);
    let k = choose|k: int| 0 <= k <= ls.len() && #[trigger] total(ls.take(k)) == a.1 as int;
    total_prefix(ls, k);
    if m.contains_key(a.0) { assert(t.dls@.contains_key(a.0)); }
    else { assert(!t.dls@.contains_key(a.0)); }
}
proof fn rooms(m: Segs, s: Symbols, t: ProcessState)
    requires t.good(s), same_lines(m, t.dls@), fitting(m)
    ensures roomy(m, s, t.entry)
{
    assert forall|i: int| 0 <= i < s.labels@.len() implies (#[trigger] s.at(i) matches Some(a) ==> room(m, a)) by {
        if s.at(i) is Some { has_room(m, t, s.at(i)->0); }
    }
    if t.entry is Some { has_room(m, t, t.entry->0); }
}
// a line more, or labels that are new or here: all good
pub open spec fn step(t0: ProcessState, s0: Symbols, t1: ProcessState, s1: Symbols) -> bool {
    &&& s1.wf() && s1.labels@.len() >= s0.labels@.len()
    &&& forall|k: SegmentType| #[trigger] t1.dls@.contains_key(k) ==> t1.dls@[k].start == 0
    &&& forall|i: int| 0 <= i < s1.labels@.len() ==> (#[trigger] s1.at(i) matches Some(a) ==> (i < s0.labels@.len() && s0.at(i) == Some(a)) || exists|st: SegmentType| a == #[trigger] t0.now(st))
    &&& t1.entry matches Some(a) ==> t0.entry == Some(a) || exists|st: SegmentType| a == #[trigger] t0.now(st)
}
pub open spec fn added(t0: ProcessState, t1: ProcessState, s1: Symbols, st: SegmentType, l: DataLine) -> bool {
    &&& with_line(t1.dls@, t0.dls@, st, l) && size_of_(t1.dls@, st) == size_of_(t0.dls@, st) + line_size(l)
    &&& id_of(l) matches Some(n) ==> n < s1.labels@.len()
}
pub open spec fn as_before(t0: ProcessState, t1: ProcessState) -> bool {
    forall|k: SegmentType| #[trigger] lines_of(t1.dls@, k) =~= lines_of(t0.dls@, k) && size_of_(t1.dls@, k) == size_of_(t0.dls@, k)
}
proof fn good_kept(t0: ProcessState, s0: Symbols, t1: ProcessState, s1: Symbols)
    requires t0.good(s0), step(t0, s0, t1, s1), as_before(t0, t1)
    ensures t1.good(s1)
{
    let (m, o) = (t1.dls@, t0.dls@);
    assert forall|a: Address| #[trigger] here(o, a) implies here(m, a) by { assert(lines_of(m, a.0) =~= lines_of(o, a.0)); }
    nows(t0);
    assert forall|k: SegmentType| #[trigger] m.contains_key(k) implies m[k].size == total(m[k].lines@) by {
        assert(lines_of(m, k) =~= lines_of(o, k));
        assert(size_of_(m, k) == size_of_(o, k));
        assert(o.contains_key(k) ==> o[k].size == total(lines_of(o, k)));
    }
    assert forall|k: SegmentType, i: int| m.contains_key(k) && 0 <= i < m[k].lines@.len() implies (id_of(#[trigger] m[k].lines@[i]) matches Some(n) ==> n < s1.labels@.len()) by {
        assert(lines_of(m, k) =~= lines_of(o, k));
        assert(o[k].lines@[i] == m[k].lines@[i]);
    }
    labels_kept(t0, s0, t1, s1);
}
// now is the place of the next line
proof fn nows(t0: ProcessState)
    requires sized(t0.dls@)
    ensures forall|st: SegmentType| here(t0.dls@, #[trigger] t0.now(st))
{
    assert forall|st: SegmentType| here(t0.dls@, #[trigger] t0.now(st)) by {
        place_end(lines_of(t0.dls@, st));
        assert(size_of_(t0.dls@, st) == total(lines_of(t0.dls@, st)));
    }
}
proof fn labels_kept(t0: ProcessState, s0: Symbols, t1: ProcessState, s1: Symbols)
    requires t0.good(s0), step(t0, s0, t1, s1), forall|a: Address| #[trigger] here(t0.dls@, a) ==> here(t1.dls@, a)
    ensures labelled(t1.dls@, s1), t1.entry matches Some(a) ==> here(t1.dls@, a)
{
    nows(t0);
    assert forall|i: int| 0 <= i < s1.labels@.len() implies (#[trigger] s1.at(i) matches Some(a) ==> here(t1.dls@, a)) by {
        if s1.at(i) is Some {
            let a = s1.at(i)->0;
            if i < s0.labels@.len() && s0.at(i) == Some(a) { assert(here(t0.dls@, a)); }
            else { let st = choose|st: SegmentType| a == #[trigger] t0.now(st); assert(here(t0.dls@, t0.now(st))); }
        }
    }
    if t1.entry is Some {
        let a = t1.entry->0;
        if t0.entry == Some(a) { assert(here(t0.dls@, a)); }
        else { let st = choose|st: SegmentType| a == #[trigger] t0.now(st); assert(here(t0.dls@, t0.now(st))); }
    }
}
proof fn good_added(t0: ProcessState, s0: Symbols, t1: ProcessState, s1: Symbols, st: SegmentType, l: DataLine)
    requires t0.good(s0), step(t0, s0, t1, s1), added(t0, t1, s1, st, l)
    ensures t1.good(s1)
{
    let (m, o) = (t1.dls@, t0.dls@);
    assert forall|a: Address| #[trigger] here(o, a) implies here(m, a) by {
        if a.0 == st { place_push(lines_of(o, st), l, a.1 as int); assert(m[st].lines@ =~= lines_of(o, st).push(l)); }
        else { assert(m.contains_key(a.0) <==> o.contains_key(a.0)); }
    }
    assert forall|k: SegmentType| #[trigger] m.contains_key(k) implies m[k].size == total(m[k].lines@) by {
        if k == st {
            assert(m[st].lines@ =~= lines_of(o, st).push(l));
            assert(lines_of(o, st).push(l).drop_last() =~= lines_of(o, st));
            assert(size_of_(o, st) == total(lines_of(o, st)));
        }
    }
    assert forall|k: SegmentType, i: int| m.contains_key(k) && 0 <= i < m[k].lines@.len() implies (id_of(#[trigger] m[k].lines@[i]) matches Some(n) ==> n < s1.labels@.len()) by {
        if k == st {
            assert(m[st].lines@ =~= lines_of(o, st).push(l));
            if i < lines_of(o, st).len() { assert(o[k].lines@[i] == m[k].lines@[i]); }
        } else { assert(o[k].lines@[i] == m[k].lines@[i]); }
    }
    labels_kept(t0, s0, t1, s1);
}
proof fn goods(t0: ProcessState, s0: Symbols)
    requires t0.good(s0)
    ensures
        forall|t1: ProcessState, s1: Symbols| step(t0, s0, t1, s1) && as_before(t0, t1) ==> #[trigger] t1.good(s1),
        forall|t1: ProcessState, s1: Symbols, st: SegmentType, l: DataLine| step(t0, s0, t1, s1) && added(t0, t1, s1, st, l) ==> #[trigger] t1.good(s1) || !#[trigger] with_line(t1.dls@, t0.dls@, st, l),
{
    assert forall|t1: ProcessState, s1: Symbols| step(t0, s0, t1, s1) && as_before(t0, t1) implies #[trigger] t1.good(s1) by { good_kept(t0, s0, t1, s1); }
    assert forall|t1: ProcessState, s1: Symbols, st: SegmentType, l: DataLine| step(t0, s0, t1, s1) && added(t0, t1, s1, st, l) implies #[trigger] t1.good(s1) || !#[trigger] with_line(t1.dls@, t0.dls@, st, l) by { good_added(t0, s0, t1, s1, st, l); }
}
// what a line of text says (C19, C20)
pub uninterp spec fn parsed(l: StdResult<String, IoError>) -> SourceLine;
impl<B> SourceLines<B> {
    pub open spec fn rest(self) -> Seq<SourceLine> { self.lines.rest().map_values(|l: StdResult<String, IoError>| parsed(l)) }
}
// the lines, one after the other
pub open spec fn file_(ls: Seq<SourceLine>, c: SegmentType) -> bool { true }
pub open spec fn between_(c: SegmentType, s: Symbols, t: ProcessState) -> bool { true }
// what the lines do one after another; n: how deep files are included
pub open spec fn ran(ls: Seq<SourceLine>, c1: SegmentType, s0: Symbols, s1: Symbols, t0: ProcessState, t1: ProcessState, n: nat) -> bool
    decreases n, 1 + ls.len()
{
    if ls.len() == 0 { c1 is Unknown && s1 == s0 && t1 == t0 }
    else {
        exists|c: SegmentType, s: Symbols, t: ProcessState| #[trigger] between_(c, s, t) && ran(ls.drop_last(), c, s0, s, t0, t, n) && did(ls.last(), c, c1, s, s1, t, t1, n)
    }
}
proof fn did_deeper(l: SourceLine, c0: SegmentType, c1: SegmentType, s0: Symbols, s1: Symbols, t0: ProcessState, t1: ProcessState, n: nat, m: nat)
    requires did(l, c0, c1, s0, s1, t0, t1, n), n <= m
    ensures did(l, c0, c1, s0, s1, t0, t1, m)
    decreases n, 0int
{
    if l is DirInclude {
        let (ls, c) = choose|ls: Seq<SourceLine>, c: SegmentType| #[trigger] file_(ls, c) && ran(ls, c, s0, s1, t0, t1, (n - 1) as nat);
        ran_deeper(ls, c, s0, s1, t0, t1, (n - 1) as nat, (m - 1) as nat);
        assert(file_(ls, c));
    }
}
proof fn ran_deeper(ls: Seq<SourceLine>, c1: SegmentType, s0: Symbols, s1: Symbols, t0: ProcessState, t1: ProcessState, n: nat, m: nat)
    requires ran(ls, c1, s0, s1, t0, t1, n), n <= m
    ensures ran(ls, c1, s0, s1, t0, t1, m)
    decreases n, 1 + ls.len()
{
    if ls.len() > 0 {
        let (c, s, t) = choose|c: SegmentType, s: Symbols, t: ProcessState| #[trigger] between_(c, s, t) && ran(ls.drop_last(), c, s0, s, t0, t, n) && did(ls.last(), c, c1, s, s1, t, t1, n);
        ran_deeper(ls.drop_last(), c, s0, s, t0, t, n, m);
        did_deeper(ls.last(), c, c1, s, s1, t, t1, n, m);
        assert(between_(c, s, t));
    }
}
pub open spec fn did_some(l: SourceLine, c0: SegmentType, c1: SegmentType, s0: Symbols, s1: Symbols, t0: ProcessState, t1: ProcessState) -> bool {
    exists|n: nat| #[trigger] did(l, c0, c1, s0, s1, t0, t1, n)
}
pub open spec fn ran_some(ls: Seq<SourceLine>, c1: SegmentType, s0: Symbols, s1: Symbols, t0: ProcessState, t1: ProcessState) -> bool {
    exists|n: nat| #[trigger] ran(ls, c1, s0, s1, t0, t1, n)
}
proof fn ran_none(c: SegmentType, s: Symbols, t: ProcessState)
    requires c is Unknown
    ensures ran_some(seq![], c, s, s, t, t)
{ assert(ran(seq![], c, s, s, t, t, 0)); }
proof fn ran_one(ls: Seq<SourceLine>, l: SourceLine, c0: SegmentType, c1: SegmentType, s0: Symbols, s: Symbols, s1: Symbols, t0: ProcessState, t: ProcessState, t1: ProcessState)
    requires ran_some(ls, c0, s0, s, t0, t), did_some(l, c0, c1, s, s1, t, t1)
    ensures ran_some(ls.push(l), c1, s0, s1, t0, t1)
{
    let a = choose|n: nat| #[trigger] ran(ls, c0, s0, s, t0, t, n);
    let b = choose|n: nat| #[trigger] did(l, c0, c1, s, s1, t, t1, n);
    let n = if a < b { b } else { a };
    ran_deeper(ls, c0, s0, s, t0, t, a, n);
    did_deeper(l, c0, c1, s, s1, t, t1, b, n);
    assert(ls.push(l).drop_last() =~= ls);
    assert(ls.push(l).last() == l);
    assert(between_(c0, s, t));
    assert(ran(ls.push(l), c1, s0, s1, t0, t1, n));
}
broadcast proof fn did_here(l: SourceLine, c0: SegmentType, c1: SegmentType, s0: Symbols, s1: Symbols, t0: ProcessState, t1: ProcessState)
    requires did(l, c0, c1, s0, s1, t0, t1, 0)
    ensures #[trigger] did_some(l, c0, c1, s0, s1, t0, t1)
{}
// an included file
broadcast proof fn did_include(l: SourceLine, c: SegmentType, s0: Symbols, s1: Symbols, t0: ProcessState, t1: ProcessState, ls: Seq<SourceLine>, c1: SegmentType)
    requires l is DirInclude, #[trigger] ran_some(ls, c1, s0, s1, t0, t1)
    ensures #[trigger] did_some(l, c, c, s0, s1, t0, t1)
{
    let n = choose|n: nat| #[trigger] ran(ls, c1, s0, s1, t0, t1, n);
    assert(file_(ls, c1));
    assert(did(l, c, c, s0, s1, t0, t1, (n + 1) as nat));
}
proof fn total_least(s: Seq<DataLine>)
    ensures total(s) >= 0
    decreases s.len()
{ if s.len() > 0 { total_least(s.drop_last()); } }
proof fn total_prefix(s: Seq<DataLine>, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= total(s.take(k)) <= total(s)
    decreases s.len()
{
    total_least(s);
    if k < s.len() { total_prefix(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); } else { assert(s.take(k) =~= s); }
}
proof fn place_end(s: Seq<DataLine>)
    ensures place(s, total(s))
{ assert(s.take(s.len() as int) =~= s); }
proof fn place_push(s: Seq<DataLine>, l: DataLine, at: int)
    requires place(s, at)
    ensures place(s.push(l), at)
{
    let k = choose|k: int| 0 <= k <= s.len() && #[trigger] total(s.take(k)) == at;
    assert(s.push(l).take(k) =~= s.take(k));
}
"""

def symbols():
    out = {}
    for k, c in labels.JOB["contracts"].items():
        k = k.replace("into_iter", "it_")
        out[k] = {x: c[x] for x in ("ret", "ret_ty", "spec") if x in c}
        if "impl Symbols" in k:
            out[k]["trusted"] = True
    return out


JOB = dict(
    search="assembles",
    stand_in="the native search `assembles`",
    at_least=20,
    messages=True, hoist=True,
    public=["struct Symbols", "struct LabelRead", "struct SourceLines", "struct SourceLocation", "struct ProcessState"],
    copy=["struct Address", "enum SymbolType", "enum SegmentType", "struct U4", "struct ByteRegister", "struct WideRegister", "enum Wide", "enum DataOperand", "struct Entry"],
    sources=[
        dict(file="src/u4.rs", only=[r"struct U4"]),
        dict(file="src/blf4/register_type.rs", only=[r"struct \w+"]),
        dict(file="src/lib.rs", only=[r"const PAGE_SIZE", r"fn align_end"]),
        dict(file="src/aalv/obj.rs", only=[r"enum SegmentType", r"struct Entry"]),
        dict(file="src/source/symbols.rs", only=[r"struct Address", r"enum SymbolType", r"struct Symbols", r"impl SymbolType", r"impl Symbols"],
             rename=[("into_iter", "it_")]),
        dict(file="src/source/mod.rs",
             only=[r"enum SourceOperand", r"enum SourceLine", r"struct SourceLines", r"enum DataLine", r"enum Wide", r"enum DataOperand",
                   r"struct ProcessedSource", r"struct DataLineSegment", r"struct ProcessState", r"struct SourceLocation", r"fn add_error_opt",
                   r"fn process", r"fn inner_process", r"fn inner_process_line", r"fn parse_ins", r"impl DataOperand", r"impl < B > SourceLines < B >",
                   r"impl < B : BufRead > SourceLines < B >", r"impl ProcessState", r"impl SourceLocation", r"type Opcode"],
             methods=["size", "add_error", "parse_next_line", "inner_parse_line", "get_size", "add_line", "new", "unknown_defined"],
             rename=[("Result <", "SourceResult<"), ("entry ( st ) . or_default ( )", "or_default_(st)"), ("SourceLines :: new ( path )", "opened_(path)"),
                     (". strip_prefix", ".strip_prefix_"), (". clone ( )", ".copied_()"), ("seg . into ( )", "boxed_(seg)"), ("src . into ( )", "boxed_(src)"),
                     (". into_iter ( )", ".it_()"), ("BReg", "ByteRegister"), ("WReg", "WideRegister")]),
    ],
    rename=[("pub ( super )", "pub")],
    rewrite_items=dict(labels.JOB["rewrite_items"]),
    contracts=dict(symbols(), **{
        "fn align_end": dict(ret="r", spec="""
        requires alignment == 128, addr <= 0xff80
        ensures r == (addr + 127) / 128 * 128""", proof="""
        proof {
            assert(128u16 - 1 == 127);
            assert(addr & 127 == addr % 128) by (bit_vector);
            assert(addr < 0xff80 ==> add(addr, 128) & !127u16 == add(addr, 128) / 128 * 128) by (bit_vector);
        }"""),
        "impl DataOperand :: size": dict(ret="r", trusted=True, spec=encode.JOB["contracts"]["impl DataOperand :: size"]["spec"]),
        "impl SourceLocation :: new": dict(ret="r", spec="\n        ensures true"),
        "fn add_error_opt": dict(spec="""
        ensures *final(errors) is Some"""),
        "impl < B > SourceLines < B > :: add_error": dict(spec="""
        ensures final(self).errors is Some, final(self).lines == old(self).lines, final(self).ln == old(self).ln"""),
        LINES + " :: inner_parse_line": dict(ret="r", trusted=True, spec="""
        ensures *final(self) == *old(self), r matches Ok(l) ==> l == parsed(line)"""),
        LINES + " :: parse_next_line": dict(ret="r", break_is_return=True, spec="""
        requires old(self).lines.rest().len() < 0xffff_ffff - old(self).ln
        ensures
            final(self).lines.rest().len() < 0xffff_ffff - final(self).ln,
            final(self).lines.rest().len() <= old(self).lines.rest().len(),
            r is Some ==> final(self).lines.rest().len() < old(self).lines.rest().len(),
            final(self).errors is None ==> old(self).errors is None && match r {
                Some((_, l)) => old(self).rest().len() > 0 && l == old(self).rest()[0] && final(self).rest() =~= old(self).rest().drop_first(),
                None => old(self).rest().len() == 0,
            }""", loops=["""
            invariant
                self.lines.rest().len() < 0xffff_ffff - self.ln, self.lines.rest().len() <= old(self).lines.rest().len(),
                self.errors is None ==> old(self).errors is None && self.lines == old(self).lines,
            decreases self.lines.rest().len()"""]),
        ST + " :: new": dict(ret="r", spec="""
        ensures r.dls@ == Map::<SegmentType, DataLineSegment>::empty(), r.entry is None"""),
        ST + " :: get_size": dict(ret="r", spec="""
        ensures r == size_of_(self.dls@, st)""",
            closures=[("| dls |", "-> (r: u16) ensures r == dls.size", "|dls: &DataLineSegment| ")]),
        ST + " :: add_line": dict(ret="r", spec="""
        requires forall|k: SegmentType| #[trigger] old(self).dls@.contains_key(k) ==> old(self).dls@[k].start == 0
        ensures
            final(self).entry == old(self).entry,
            forall|k: SegmentType| #[trigger] final(self).dls@.contains_key(k) ==> final(self).dls@[k].start == 0,
            r ==> with_line(final(self).dls@, old(self).dls@, st, line) && size_of_(final(self).dls@, st) == size_of_(old(self).dls@, st) + size,
            // what does not fit changes nothing
            !r ==> (forall|k: SegmentType| #[trigger] lines_of(final(self).dls@, k) =~= lines_of(old(self).dls@, k) && size_of_(final(self).dls@, k) == size_of_(old(self).dls@, k)),"""),
        ST + " :: unknown_defined": dict(ret="r", spec="""
        ensures r == self.dls@.contains_key(SegmentType::Unknown)"""),
        "fn parse_ins": dict(ret="r", trusted=True, spec="""
        requires old(sym).wf()
        ensures
            final(sym).wf(), more(*final(sym), *old(sym)),
            r matches Ok(Some((op, d))) ==> assembled(ops@, d, *final(sym))"""),
        "fn inner_process_line": dict(ret="r", str_match=True, attrs=["verifier::exec_allows_no_decreases_clause"], spec="""
        requires old(state).good(*old(symbols))
        ensures
            final(state).good(*final(symbols)),
            r is Ok ==> did_some(line, *old(current_segment), *final(current_segment), *old(symbols), *final(symbols), *old(state), *final(state))""",
            closures=[("| e |", "-> (r: Error) ensures true", "|e: &'static str| ")],
            proof="        broadcast use did_here, did_include; proof { goods(*state, *symbols); let n = state.now(*current_segment); assert(n.1 == size_of_(state.dls@, *current_segment)); }"),
        "fn inner_process": dict(ret="r", attrs=["verifier::exec_allows_no_decreases_clause"], spec="""
        requires old(state).good(*old(symbols)), lines.lines.rest().len() < 0xffff_ffff - lines.ln
        ensures
            final(state).good(*final(symbols)),
            r is None ==> lines.errors is None && exists|c: SegmentType| #[trigger] ran_some(lines.rest(), c, *old(symbols), *final(symbols), *old(state), *final(state))""",
            proof="        let ghost all = lines.rest(); let ghost e0 = lines.errors; proof { ran_none(SegmentType::Unknown, *symbols, *state); }",
            after=[("current_segment", "let ghost mut done = Seq::<SourceLine>::empty();")],
            loops=["""
            invariant
                lines.lines.rest().len() < 0xffff_ffff - lines.ln,
                state.good(*symbols),
                lines.errors is None ==> e0 is None && all =~= done + lines.rest() && ran_some(done, current_segment, *old(symbols), *symbols, *old(state), *state),
            ensures
                state.good(*symbols),
                lines.errors is None ==> e0 is None && all =~= done && ran_some(done, current_segment, *old(symbols), *symbols, *old(state), *state),"""],
            loop_starts=["let ghost (c_, s_, t_) = (current_segment, *symbols, *state);"],
            loop_ends=["proof { if lines.errors is None { ran_one(done, line, c_, current_segment, *old(symbols), s_, *symbols, *old(state), t_, *state); done = done.push(line); } }"]),
        "fn process": dict(ret="r", values_mut=True, over_map=True, spec="""
        requires lines.lines.rest().len() < 0xffff_ffff - lines.ln
        ensures
            r matches Ok(p) ==> exists|c: SegmentType, s0: Symbols, s: Symbols, t0: ProcessState, t: ProcessState|
                s0.labels@.len() == 0 && t0.dls@ == Map::<SegmentType, DataLineSegment>::empty() && t0.entry is None
                && #[trigger] ran_some(lines.rest(), c, s0, s, t0, t) && t.good(s) && made(p, s, t)""",
            attrs=["verifier::loop_isolation(false)", "verifier::allow_complex_invariants", "verifier::rlimit(100)"],
            after=[("src", "let ghost (s0, t0) = (symbols, state);"), ("errors", "let ghost (s, t, e0) = (symbols, state, errors);"), ("labels", "let ghost e1 = errors; proof { rooms(dls@, s, t); }")],
            closures=[("| dl |", "-> (r: u16) ensures r == dl.start", "|dl: &DataLineSegment| "),
                      ("| SourceLocation { source , line_number } |", "-> (r: Error) ensures true", "|x_: SourceLocation| ", True),
                      ("| accum , item |", "-> (r: Error) ensures true", "|accum: Error, item: Error| "),
                      ("| addr |", "-> (r: Entry) requires start_of(dls@, addr.0) + addr.1 <= 0xffff ensures r.0 == addr.0, r.1 == addr.1 + start_of(dls@, addr.0)", "|addr: Address| "),
                      ("| dl |", "-> (r: u16) ensures r == dl.start", "|dl: &DataLineSegment| ")],
            loops=["""
            invariant
                n_ <= dls.order().len(), PAGE_SIZE <= last_end,
                dls.order() == t.dls.order(), same_lines(dls@, t.dls@), fitting(dls@), errors is None ==> e0 is None,
                placed(dls@, dls.order(), n_ as int, last_end as int),
            ensures
                dls.order() == t.dls.order(), same_lines(dls@, t.dls@), fitting(dls@),
                errors is None ==> e0 is None && placed(dls@, dls.order(), dls.order().len() as int, 0xffff),
            decreases dls.order().len() - n_""", """
            invariant
                n_ <= s.labels@.len(), roomy(dls@, s, t.entry), s.wf(), errors is None ==> e1 is None,
                it_.n@ == Some(s.labels@.len()), forall|i: int| 0 <= i < s.labels@.len() ==> #[trigger] it_.at(i) == (s.labels@[i], s.kind(i), s.id_to_pos@[i]),
                errors is None ==> labels@.len() == n_ && forall|i: int| 0 <= i < n_ ==> label_made(#[trigger] labels@[i], s, i, dls@),
            decreases s.labels@.len() - n_"""],
            loop_starts=["proof { dls.ordered(); } let ghost b_ = dls;", "proof { let a = s.at(n_ as int); assert(a is Some ==> room(dls@, a->0)); assert(!s.unused(n_ as int)); }"],
            proof="        hide(ran_some);",
            loop_ends=["proof { b_.ordered(); dls.ordered(); }"]),
    }),
    prelude=labels.STAND_INS + STAND_INS + labels.SPECS + encode.JOB["prelude"] + SPECS,
    trusted=[
        "Verus 0.2026.09.13 with its Z3, and vstd",
        "the methods of Symbols by their contracts (job labels), parse_ins by its contract (job operands), DataOperand::size by its contract (job encode)",
        "inner_parse_line is a function of the text of the line and leaves the lines to come where they are (what it gives: C19 and C20, and the native check `assembles`)",
        "BTreeMap by a stand-in: each key once, in some order that stays the same while values change; entry(..).or_default() as documented",
        "std::io::Lines by a stand-in: the lines one after another; a file has fewer than 2^32 - 1 lines",
        "opening an included file gives some lines (SourceLines::new is not looked at); Path is not looked at",
        "specifications of core::mem::replace, String::into_boxed_str, str equality and strip_prefix as documented",
        "termination of process is not proved (a file that includes itself does not end)",
        "Error, IoError and the texts of messages are not looked at",
    ],
)
