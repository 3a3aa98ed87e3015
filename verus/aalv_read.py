"""src/aalv/mod.rs: where the sections of a file are, and what of the file each is read from"""
from . import io_model

RD = "impl < F : BufRead + Seek > AalvReader < F >"
WIN = "impl < R : Read > Read for ReadWindow < R >"

JOB = dict(
    search="objects",
    stand_in="the native search `objects`",
    at_least=20,
    sources=[
        dict(file="src/aalv/mod.rs", only=[r"const AALV_MAGIC", r"struct AalvReader", r"struct ReadWindow", r"trait Section",
                                           r"impl < F : BufRead \+ Seek > AalvReader < F >", r"impl < R : Read > Read for ReadWindow < R >"]),
    ],
    public=["struct AalvReader", "struct ReadWindow"],
    skip=[RD + " :: remaing_sections"],
    rename=[("io :: Result <", "io::Result<"), ("Result <", "io::Result<"),
            ("AALV_MAGIC . as_bytes ( ) [ 0 ]", "AALV_MAGIC[0]"), ("AALV_MAGIC . as_bytes ( )", "AALV_MAGIC"), ("AALV_MAGIC . len ( )", "MAGIC_LEN"),
            ("u16 :: from_le_bytes", "le16_"), ("String :: from_utf8_lossy", "lossy_"),
            ("self . sections . iter ( )", "Heads_ { s: &self.sections }"), ("S :: read", "read_in_window_::<S, F>"),
            ("name . len ( )", "str_len_(&name)"), ("& * * s == S :: NAME", "{ let s = &*e_.0; str_eq_(s, S::NAME) }")],
    str_bytes={"AALV_MAGIC": "MAGIC_LEN"},
    inside={
        "trait Section": io_model.SECTION_SPEC,
        WIN: """
    open spec fn data(&self) -> Seq<u8> { clip(self.reader.data(), self.reader.pos() + self.length) }
    open spec fn pos(&self) -> int { self.reader.pos() }
    open spec fn sound(&self) -> bool { self.reader.sound() }
""",
    },
    contracts={
        "trait Section :: read": dict(ret="r", spec=io_model.SECTION_READ),
        "trait Section :: write": dict(ret="r", by_ref=["writer"], spec=io_model.SECTION_WRITE),
        WIN + " :: read": dict(ret="r", proof="        let ghost b0 = buf;", after=[("n", "proof { assert(final(buf)@.take(n as int) =~= final(b0)@.take(n as int)); }")]),
        WIN + " :: read_exact": dict(ret="r"),
        RD + " :: new": dict(ret="r", spec="""
        requires 0 <= file.pos() <= file.data().len() <= io::MOST
        ensures
            r matches Ok(a) ==> a.ok() && a.file.data() == file.data() && a.file.sound() == file.sound() && is_file(file.data(), file.pos(), a.file_offset as int, a.heads(), a.file_end as int),
            file.sound() && r is Err ==> forall|o: int, h: Seq<Head>, e: int| !is_file(file.data(), file.pos(), o, h, e)"""),
        RD + " :: read_magic": dict(ret="r", spec="""
        requires 0 <= (*old(self)).file.pos() <= (*old(self)).file.data().len() <= io::MOST
        ensures
            final(self).sections@ == old(self).sections@,
            final(self).file.sound() == old(self).file.sound(),
            r is Ok ==> final(self).file.data() == old(self).file.data()
                && first_magic(old(self).file.data(), old(self).file.pos(), final(self).file_offset as int)
                && final(self).file.pos() == final(self).file_offset + AALV_MAGIC.len(),
            old(self).file.sound() && r is Err ==> forall|o: int| !first_magic(old(self).file.data(), old(self).file.pos(), o)""",
            attrs=["verifier::loop_isolation(false)", "verifier::allow_complex_invariants"],
            proof="        let ghost d0 = self.file.data(); let ghost p0 = self.file.pos(); proof { assert forall|q: int| #[trigger] io::has(d0, q, AALV_MAGIC@) implies q + AALV_MAGIC.len() <= d0.len() && d0[q] == AALV_MAGIC[0] by { assert(d0.subrange(q, q + AALV_MAGIC@.len())[0] == AALV_MAGIC@[0]); } }",
            loops=["""
            invariant_except_break
                self.file.pos() <= d0.len(), self.file.data() == d0,
                forall|q: int| p0 <= q < self.file.pos() ==> !io::has(d0, q, AALV_MAGIC@)
            invariant
                self.sections@ == old(self).sections@, self.file.sound() == old(self).file.sound(), p0 <= self.file.pos()
            decreases d0.len() - self.file.pos()""", """
            invariant
                self.sections@ == old(self).sections@, self.file.sound() == old(self).file.sound(), q0 <= self.file.pos() <= d0.len(), self.file.data() == d0,
                first_magic_byte != magic_buf[0] ==> forall|q: int| p0 <= q < self.file.pos() ==> !io::has(d0, q, AALV_MAGIC@),
                first_magic_byte == magic_buf[0] ==> q0 < self.file.pos() && d0[self.file.pos() - 1] == first_magic_byte
                    && forall|q: int| p0 <= q < self.file.pos() - 1 ==> !io::has(d0, q, AALV_MAGIC@)
            decreases d0.len() - self.file.pos()"""],
            after=[("first_magic_byte", "let ghost q0 = self.file.pos();")]),
        RD + " :: read_section_headers": dict(ret="r", spec="""
        requires 0 <= old(self).file.pos(), old(self).sections@.len() == 0, old(self).file.data().len() <= io::MOST
        ensures
            final(self).file_offset == old(self).file_offset,
            final(self).file.sound() == old(self).file.sound(),
            r is Ok ==> final(self).file.data() == old(self).file.data() && final(self).ok()
                && heads(old(self).file.data(), old(self).file.pos()) == Some((final(self).heads(), final(self).file_end as int)),
            old(self).file.sound() && r is Err ==> heads(old(self).file.data(), old(self).file.pos()) is None""",
            attrs=["verifier::loop_isolation(false)", "verifier::allow_complex_invariants"],
            proof="        let ghost d0 = self.file.data(); let ghost p0 = self.file.pos();",
            loops=["""
            invariant
                self.file.data() == d0, d0.len() <= io::MOST, self.file.sound() == old(self).file.sound(), self.file_offset == old(self).file_offset,
                0 <= self.file.pos(), self.ok(),
                match heads(d0, self.file.pos()) {
                    Some((t, e)) => heads(d0, p0) == Some((self.heads() + t, e)),
                    None => heads(d0, p0) is None,
                }
            decreases (if self.file.pos() < d0.len() { d0.len() - self.file.pos() } else { 0 })"""],
            ),
        RD + " :: read_section": dict(ret="r", spec="""
        requires old(self).ok()
        ensures took(*old(self), *final(self), r)""",
            proof="""        proof {
            let (h, d, n) = (self.heads(), self.file.data(), S::NAME@);
            named(h, n);
            let f = |s: (Box<str>, u64, u16)| head(s);
            assert forall|k: int| 0 <= k < self.sections@.len() implies (#[trigger] self.sections@.remove(k)).map_values(f) =~= self.heads().remove(k) by {};
            assert forall|k: int| 0 <= k < self.sections@.len() implies (#[trigger] self.sections@[k]).0@ == self.heads()[k].name by {};
            assert forall|k: int| 0 <= k < self.sections@.len() implies self.sections@[k].0@ == (#[trigger] self.heads()[k]).name by {};
            let l = self.list();
            match first_named(h, n) {
                None => { finds_none(l, n); }
                Some(k) => {
                    finds_remove(l, k, n);
                    assert(listing(h.remove(k), d) =~= l.remove(k));
                    assert(finds(l, n).skip(1) =~= finds(l.remove(k), n));
                }
            }
        }""",
            closures=[("| ( s , _pos , _size ) |", "-> (r: bool) ensures r == (e_.0@ == S::NAME@)", "|e_: &(Box<str>, u64, u16)| ")]),
        RD + " :: end": dict(ret="r", spec="""
        requires self.ok(), 
        ensures r matches Ok(f) ==> f.data() == self.file.data() && f.pos() == self.file_end && f.sound() == self.file.sound(), self.file.sound() ==> r is Ok"""),
    },
    prelude=io_model.PRELUDE + io_model.WRITABLE + io_model.READ_SEEK + io_model.LISTS + io_model.READ_LISTS + """
pub open spec fn first_named(h: Seq<Head>, n: Seq<char>) -> Option<int>
    decreases h.len()
{
    if h.len() == 0 { None } else if h[0].name == n { Some(0) }
    else { match first_named(h.skip(1), n) { None => None, Some(k) => Some(k + 1) } }
}
proof fn named(h: Seq<Head>, n: Seq<char>)
    ensures match first_named(h, n) {
        None => forall|k: int| 0 <= k < h.len() ==> (#[trigger] h[k]).name != n,
        Some(k) => 0 <= k < h.len() && h[k].name == n && forall|j: int| 0 <= j < k ==> (#[trigger] h[j]).name != n,
    }
    decreases h.len()
{
    if h.len() > 0 && h[0].name != n {
        let t = h.skip(1);
        named(t, n);
        assert forall|j: int| 0 < j < h.len() implies (#[trigger] h[j]) == t[j - 1] by {};
    }
}
proof fn finds_none(l: List, n: Seq<char>)
    requires forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).0 != n
    ensures finds(l, n).len() == 0
    decreases l.len()
{
    if l.len() > 0 {
        assert forall|k: int| 0 <= k < l.skip(1).len() implies (#[trigger] l.skip(1)[k]).0 != n by { assert(l.skip(1)[k] == l[k + 1]); }
        finds_none(l.skip(1), n);
    }
}
proof fn finds_remove(l: List, k: int, n: Seq<char>)
    requires 0 <= k < l.len(), l[k].0 == n, forall|j: int| 0 <= j < k ==> (#[trigger] l[j]).0 != n
    ensures
        finds(l, n) == seq![l[k].1] + finds(l.remove(k), n),
        forall|m: Seq<char>| m != n ==> #[trigger] finds(l.remove(k), m) == finds(l, m)
    decreases l.len()
{
    if k == 0 {
        assert(l.remove(0) =~= l.skip(1));
    } else {
        let t = l.skip(1);
        assert(t[k - 1] == l[k]);
        assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] t[j]).0 != n by { assert(t[j] == l[j + 1]); }
        finds_remove(t, k - 1, n);
        assert(l.remove(k).skip(1) =~= t.remove(k - 1));
        assert(l.remove(k)[0] == l[0]);
        assert forall|m: Seq<char>| m != n implies #[trigger] finds(l.remove(k), m) == finds(l, m) by {
            assert(finds(t.remove(k - 1), m) == finds(t, m));
        }
    }
}
""" + io_model.FILES + io_model.UNTIL + io_model.READ_BACK + """
#[verifier::external_body]
fn read_in_window_<S: Section, F: Read>(reader: ReadWindow<&mut F>) -> (r: io::Result<S>)
    requires 0 <= reader.pos() <= reader.data().len()
    ensures
        section_read(r, io::after(reader.data(), reader.pos()), reader.sound()),
        (*final(reader.reader)).data() == (*old(reader.reader)).data(), (*final(reader.reader)).sound() == (*old(reader.reader)).sound(), (*final(reader.reader)).pos() >= 0
{ S::read(reader) }
pub struct Heads_<'a> { pub s: &'a Vec<(Box<str>, u64, u16)> }
impl<'a> Heads_<'a> {
    pub fn position<P: Fn(&(Box<str>, u64, u16)) -> bool>(&self, p: P) -> (r: Option<usize>)
        requires forall|k: int| 0 <= k < self.s@.len() ==> call_requires(p, (&#[trigger] self.s@[k],))
        ensures
            self.s@.len() <= usize::MAX,
            r matches Some(n) ==> n < self.s@.len() && call_ensures(p, (&self.s@[n as int],), true)
                && forall|k: int| 0 <= k < n ==> call_ensures(p, (&#[trigger] self.s@[k],), false),
            r is None ==> forall|k: int| 0 <= k < self.s@.len() ==> call_ensures(p, (&#[trigger] self.s@[k],), false)
    {
        let mut n: usize = 0;
        while n < self.s.len()
            invariant
                n <= self.s@.len(), forall|k: int| 0 <= k < self.s@.len() ==> call_requires(p, (&#[trigger] self.s@[k],)),
                forall|k: int| 0 <= k < n ==> call_ensures(p, (&#[trigger] self.s@[k],), false)
            decreases self.s@.len() - n
        {
            if p(&self.s[n]) { return Some(n); }
            n = n + 1;
        }
        None
    }
}
""",
    trusted=io_model.TRUSTED + [
        "reading a section through a window on a file leaves the contents of the file as they are",
    ],
)
