"""src/aalv/obj.rs: an object to the sections of a file"""
from . import io_model, sections, aalv_write, object_parts, object_read

NAMES = object_read.NAMES
sec = sections.sec
WR, DROP = aalv_write.WR, aalv_write.DROP
TYPES = object_read.TYPES

MAP = """
impl<V> BTreeMap<SegmentType, V> {
    #[verifier::external_body]
    pub fn count_(&self) -> (r: usize) ensures r == self.order().len(), r <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn item_(&self, n: usize) -> (r: (&SegmentType, &V))
        requires n < self.order().len()
        ensures *r.0 == self.order()[n as int], *r.1 == self@[*r.0]
    { unimplemented!() }
}
pub trait Copied_: Sized {
    fn copied_(&self) -> Self;
}
impl Copied_ for Vec<u8> {
    #[verifier::external_body]
    fn copied_(&self) -> (r: Vec<u8>) ensures r@ == self@ { self.clone() }
}
"""

JOB = dict(
    search="objects",
    stand_in="the native search `objects`",
    at_least=5,
    copy=sections.JOB["copy"],
    public=["struct AalvWriter"],
    headers={DROP: "impl<F: Write> Finish_ for AalvWriter<F>"},
    sources=[
        dict(file="src/aalv/mod.rs", only=[r"const AALV_MAGIC", r"trait Section", r"struct AalvWriter", r"fn write_aalv_file_with_offset", r"impl < F : Write > Drop for AalvWriter < F >"], rename=[("Result <", "io::Result<")]),
        dict(file="src/aalv/mod.rs", only=[r"impl < F : Write \+ Seek > AalvWriter < F >"], methods=["write_section"], rename=[("Result <", "io::Result<")]),
        dict(file="src/aalv/obj.rs", only=[TYPES, r"impl Object"], methods=["write_to_file"], rename=[(". clone ( )", ".copied_()")]),
        dict(file="src/aalv/obj/sec_impl.rs"),
    ],
    str_bytes={"AALV_MAGIC": "MAGIC_LEN"},
    rename=io_model.NEW_FILE_RENAME,
    inside=dict(sections.JOB["inside"], **{DROP: io_model.FINISH_INSIDE}),
    contracts={
        "trait Section :: read": dict(ret="r", spec=io_model.SECTION_READ),
        "trait Section :: write": dict(ret="r", by_ref=["writer"], spec=io_model.SECTION_WRITE),
        **{sec(n) + " :: read": dict(ret="r", trusted=True) for n in NAMES},
        **{sec(n) + " :: write": dict(ret="r", trusted=True, by_ref=["writer"]) for n in NAMES},
        DROP + " :: drop": dict(trusted=True),
        WR + " :: write_section": dict(ret="r", spec=aalv_write.JOB["contracts"][WR + " :: write_section"]["spec"], trusted=True),
        "fn write_aalv_file_with_offset": dict(ret="r", spec=io_model.NEW_FILE, trusted=True),
        "impl Object :: write_to_file": dict(ret="r", spec="""
        requires small(*self)
        ensures path_sound(path) && fits(*self) ==> r is Ok""",
            attrs=["verifier::loop_isolation(false)"],
            proof="        hide(sections_bytes); hide(section_bytes); proof { sizes(*self); self.segs.ordered(); }",
            after=[("aalvur", "let ghost b = aalvur.file.out(); proof { assert(b + Seq::<u8>::empty() =~= b); assert(done(aalvur.file, b, Seq::empty())); }")],
            over_map=True,
            loops=["""
            invariant
                n_ <= it_.order().len(), it_ == self.segs,
                done(aalvur.file, b, add_segs(before_segs(*self), self.segs, n_ as int)),
                path_sound(path) ==> aalvur.file.sound()
            decreases self.segs.order().len() - n_"""],
            loop_starts=["proof { assert(seg_step(*self, n_ as int)); }"],
            at_exits="""
        if ret_.is_ok() {
            aalvur.drop();
            proof { store(b, *self); assert(stored(aalvur.file.out(), *self)); }
        }"""),
    },
    prelude=io_model.PRELUDE + io_model.WRITABLE + io_model.WRITE_SEEK + io_model.LISTS + io_model.FILES + io_model.FINISH + io_model.FILE
        + sections.SPECS + object_read.OBJECT + MAP + object_parts.PARTS + io_model.READ_BACK + object_parts.ROUND,
    trusted=io_model.TRUSTED + ["iterating a BTreeMap gives each entry once"],
)
