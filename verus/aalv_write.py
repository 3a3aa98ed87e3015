"""src/aalv/mod.rs: the bytes of a file and its sections"""
from . import io_model

WR = "impl < F : Write + Seek > AalvWriter < F >"
CW = "impl < R : Write > Write for CountedWriter < R >"
DROP = "impl < F : Write > Drop for AalvWriter < F >"

JOB = dict(
    search="objects",
    stand_in="the native search `objects`",
    at_least=15,
    sources=[
        dict(file="src/aalv/mod.rs", only=[r"const AALV_MAGIC", r"struct AalvWriter", r"struct CountedWriter", r"trait Section",
                                           r"impl < F : Write \+ Seek > AalvWriter < F >", r"impl < R : Write > Write for CountedWriter < R >",
                                           r"impl < F : Write > Drop for AalvWriter < F >", r"fn write_aalv_file(_with_offset)?"]),
    ],
    public=["struct AalvWriter", "struct CountedWriter"],
    rename=io_model.NEW_FILE_RENAME + [("io :: Result <", "io::Result<"), ("Result <", "io::Result<"), ("AALV_MAGIC . as_bytes ( )", "&AALV_MAGIC"),
            ("to_le_bytes", "le_bytes"), (". expect", ".expect_"), ("segment . write ( & mut w )", "write_counted_::<S, F>(segment, &mut w)"), ("S :: NAME . contains ( '\\0' )", "has_nul_(S::NAME)"), ("S :: NAME . len ( )", "str_len_(S::NAME)")],
    str_bytes={"AALV_MAGIC": "MAGIC_LEN"},
    headers={DROP: "impl<F: Write> Finish_ for AalvWriter<F>"},
    inside={
        "trait Section": io_model.SECTION_SPEC,
        DROP: io_model.FINISH_INSIDE,
        CW: """
    open spec fn out(&self) -> Seq<u8> { self.writer.out() }
    open spec fn at(&self) -> int { self.writer.at() }
    open spec fn fixed(&self) -> int { if self.writer.fixed() < 0 { -1 } else { self.writer.at() - self.length } }
    open spec fn sound(&self) -> bool { self.writer.sound() }
""",
    },
    contracts={
        "trait Section :: read": dict(ret="r", spec=io_model.SECTION_READ),
        "trait Section :: write": dict(ret="r", by_ref=["writer"], spec=io_model.SECTION_WRITE),
        CW + " :: flush": dict(ret="r"),
        CW + " :: write": dict(ret="r"),
        CW + " :: write_all": dict(ret="r"),
        WR + " :: new": dict(ret="r", spec="""
        requires 0 <= file.fixed(), file_offset <= file.out().len() <= io::MOST - 100
        ensures
            r matches Ok(a) ==> a.file.fixed() == file.fixed() && a.file.sound() == file.sound()
                && a.file.out() == io::over(file.out(), file_offset as int, AALV_MAGIC@) && a.file.at() == file_offset + AALV_MAGIC.len(),
            file.sound() ==> r is Ok"""),
        WR + " :: write_magic": dict(ret="r", spec="""
        requires writable(old(self).file, AALV_MAGIC@)
        ensures
            final(self).file.sound() == old(self).file.sound(),
            r is Ok ==> final(self).file.fixed() == old(self).file.fixed() && final(self).file.out() == io::over(old(self).file.out(), old(self).file.at(), AALV_MAGIC@)
                && final(self).file.at() == old(self).file.at() + AALV_MAGIC.len(),
            old(self).file.sound() ==> r is Ok"""),
        WR + " :: write_section": dict(ret="r", spec="""
        requires writable(old(self).file, section_bytes(S::NAME@, segment.enc())), !S::NAME@.contains('\\0')
        ensures
            final(self).file.sound() == old(self).file.sound(),
            r is Ok ==> segment.enc().len() < 0x1_0000 && 0 <= final(self).file.fixed()
                && final(self).file.out() == io::over(old(self).file.out(), old(self).file.at(), section_bytes(S::NAME@, segment.enc()))
                && final(self).file.at() == old(self).file.at() + section_bytes(S::NAME@, segment.enc()).len(),
            r is Ok ==> forall|b: Seq<u8>, l: List| #[trigger] done(old(self).file, b, l) ==> done(final(self).file, b, l.push((S::NAME@, segment.enc()))),
            old(self).file.sound() && segment.enc().len() < 0x1_0000 ==> r is Ok""",
            proof="""        broadcast use {io::over_len, io::over_over, io::over_none};
        let ghost (o, a, f_) = (self.file.out(), self.file.at(), self.file);
        proof {
            let e_ = (S::NAME@, segment.enc());
            assert forall|b: Seq<u8>, l: List| #[trigger] done(f_, b, l) implies ({
                let w = io::over(o, a, section_bytes(e_.0, e_.1));
                w == b + sections_bytes(l.push(e_)) && w.len() == a + section_bytes(e_.0, e_.1).len()
            }) by {
                sections_push(l, e_);
                io::over_at_end(o, section_bytes(e_.0, e_.1));
                assert(o + section_bytes(e_.0, e_.1) =~= b + sections_bytes(l.push(e_)));
            };
            let (n, b) = (encode_utf8(S::NAME@), segment.enc());
            reveal_strlit("\\0\\0\\0"); is_ascii_chars_encode_utf8("\\0\\0\\0"@); assert(encode_utf8("\\0\\0\\0"@) =~= seq![0u8, 0u8, 0u8]);
            let x = n + seq![0u8, 0u8, 0u8] + b;
            let l = le((b.len() % 0x1_0000) as u16);
            io::over_in(o, a, x, a + n.len() + 1, l);
            assert(x.take(n.len() + 1 as int) + l + x.skip(n.len() + 3 as int) =~= section_bytes(S::NAME@, b));
        }""",
            closures=[("| _ |", "-> (r: io::Error)", "|_e: core::num::TryFromIntError|")]),
        "fn write_aalv_file_with_offset": dict(ret="r", spec=io_model.NEW_FILE, proof="        broadcast use {io::over_len, io::over_end};"),
        "fn write_aalv_file": dict(ret="r", spec=io_model.NEW_FILE.replace("file_offset", "0")),
        DROP + " :: drop": dict(proof="        broadcast use {io::one};"),
    },
    prelude=io_model.PRELUDE + io_model.WRITABLE + io_model.WRITE_SEEK + io_model.LISTS + io_model.FILES + """
global size_of usize == 8;
#[verifier::external_body]
fn write_counted_<S: Section, F: Write>(segment: &S, w: &mut CountedWriter<&mut F>) -> (r: io::Result<()>)
    requires writable(*old(w), segment.enc())
    ensures
        section_written(*old(w), *final(w), segment.enc(), r),
        *final((*final(w)).writer) == *final((*old(w)).writer)
{ segment.write(w) }
pub open spec fn section_written<W: Write>(a: W, b: W, x: Seq<u8>, r: io::Result<()>) -> bool {
    &&& b.sound() == a.sound() && (a.sound() ==> r is Ok)
    &&& r is Ok ==> b.fixed() == a.fixed() && b.out() == io::over(a.out(), a.at(), x) && b.at() == a.at() + x.len()
}
""" + io_model.FINISH + io_model.FILE,
    trusted=io_model.TRUSTED + ["the string constants are shorter than 2^63 bytes", "writing a section through the counter leaves the counter on the file it counts for", "the contract of Drop of AalvWriter is proved of its body as an ordinary method"],
)
