"""src/source/mod.rs: the operands of instructions, and their labels"""
from . import assemble, encode, labels

D = "impl DataOperand"
IT = "impl Iterator < Item = & 'a SourceOperand >"
KINDS = dict(parse_breg="ByteRegister", parse_wreg="WideRegister", parse_imm_byte="ImmediateByte", parse_imm_wide="ImmediateWide", parse_nothing="Nothing",
             parse_byte_imm="ByteImm", parse_wide_imm="WideImm", parse_three_byte="ThreeByte", parse_three_wide="ThreeWide",
             parse_wide_imm_byte="WideImmByte", parse_wide_imm_wide="WideImmWide", parse_two_wide_one_byte="TwoWideOneByte",
             parse_byte_wide_imm="ByteWideImm", parse_two_wide_imm="TwoWideImm", parse_byte_two_wide="ByteTwoWide",
             parse_four_byte="FourByte", parse_four_wide="FourWide")
LABELS = "parse_imm_wide parse_wide_imm parse_wide_imm_byte parse_wide_imm_wide parse_byte_wide_imm parse_two_wide_imm".split()


def contracts():
    out = {}
    for f, v in KINDS.items():
        out[D + " :: " + f] = dict(ret="r", spec="""
        requires old(sym).wf(), ops.n <= ops.s@.len()
        ensures
            final(sym).wf(), more(*final(sym), *old(sym)), r matches Some(d) ==> d is %s && assembled(ops.s@, d, *final(sym))""" % v
            if f in LABELS else """
        requires ops.n <= ops.s@.len()
        ensures r matches Some(d) ==> d is %s""" % v)
    return out


JOB = dict(
    search="assembles",
    stand_in="the native search `assembles`",
    at_least=20,
    public=["struct Symbols", "struct SourceLocation"],
    copy=["struct Address", "enum SymbolType", "enum SegmentType", "struct U4", "struct ByteRegister", "struct WideRegister", "enum Wide", "enum DataOperand"],
    sources=[
        dict(file="src/u4.rs", only=[r"struct U4"]),
        dict(file="src/blf4/register_type.rs", only=[r"struct \w+"]),
        dict(file="src/blf4/isa/mod.rs", only=[r"const \w+"]),
        dict(file="src/aalv/obj.rs", only=[r"enum SegmentType"]),
        dict(file="src/source/symbols.rs", only=[r"struct Address", r"enum SymbolType", r"struct Symbols", r"impl SymbolType", r"impl Symbols"],
             rename=[("into_iter", "it_")]),
        dict(file="src/source/mod.rs",
             only=[r"enum SourceOperand", r"enum Wide", r"enum DataOperand", r"struct SourceLocation", r"fn parse_ins", r"fn parse_binop", r"impl DataOperand"],
             methods=[r"parse_\w+", "byte", "wide", "imm_byte", "imm_wide"],
             rename=[(". clone ( )", ".copied_()"), (IT, "Ops_<'a>"), ("Iter < SourceOperand >", "Ops_<'_>"), ("ops . iter ( )", "ops_(&ops)"),
                     ("BReg", "ByteRegister"), ("WReg", "WideRegister"), ("unreachable ! ( )", "unreached()"), ("use self :: isa :: * ;", ""),
                     ("wr == R0", "is_r0_(wr)"), ("R0", "r0_()"), ("R1", "r1_()")]),
    ],
    rename=[("pub ( super )", "pub")],
    rewrite_items=dict(labels.JOB["rewrite_items"]),
    contracts=dict({k: c for k, c in dict(assemble.symbols(), **contracts()).items()}, **{
        D + " :: byte": dict(ret="r", spec="\n        ensures true"),
        D + " :: wide": dict(ret="r", spec="\n        ensures true"),
        D + " :: imm_byte": dict(ret="r", spec="\n        ensures true"),
        D + " :: imm_wide": dict(ret="r", spec="""
        requires old(sym).wf()
        ensures
            final(sym).wf(), more(*final(sym), *old(sym)),
            r matches Some(Wide::Label(i)) ==> i < final(sym).labels@.len() && (*op matches SourceOperand::Label(l) && l@ == final(sym).names()[i as int])"""),
        "fn parse_binop": dict(ret="r", spec="""
        requires ops.n <= ops.s@.len()
        ensures r matches Ok((_, d)) ==> imm_of(d) is No"""),
        "fn parse_ins": dict(ret="r", str_match=True, closures=[
            ("| _ |", "-> (r: DataOperand) ensures r is ImmediateByte", "|x_: DataOperand| "),
            ("|| ~ O", "-> (r: Option<DataOperand>) ensures r matches Some(d) ==> d is ImmediateByte")], spec=assemble.JOB["contracts"]["fn parse_ins"]["spec"]),
    }),
    prelude=labels.STAND_INS + labels.SPECS + encode.JOB["prelude"] + """
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(())
    ensures match o { Some(_) => r == o, None => f.ensures((), r) };
// the operands that are left
pub struct Ops_<'a> { pub s: &'a Vec<SourceOperand>, pub n: usize }
pub fn ops_<'a>(s: &'a Vec<SourceOperand>) -> (r: Ops_<'a>) ensures r.s == s, r.n == 0 { Ops_ { s, n: 0 } }
impl<'a> Ops_<'a> {
    pub fn copied_(&self) -> (r: Self) ensures r == *self { Ops_ { s: self.s, n: self.n } }
    pub fn next(&mut self) -> (r: Option<&'a SourceOperand>)
        requires old(self).n <= old(self).s@.len()
        ensures
            final(self).s == old(self).s, final(self).n <= final(self).s@.len(),
            match r { Some(o) => old(self).n < old(self).s@.len() && *o == old(self).s@[old(self).n as int], None => old(self).n == old(self).s@.len() }
    {
        if self.n < self.s.len() {
            let r = &self.s[self.n];
            self.n = self.n + 1;
            Some(r)
        } else { None }
    }
}
impl SourceLocation {
    #[verifier::external_body]
    pub fn copied_(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub fn r0_() -> (r: WideRegister) { unimplemented!() }
#[verifier::external_body]
pub fn r1_() -> (r: WideRegister) { unimplemented!() }
#[verifier::external_body]
pub fn is_r0_(r: WideRegister) -> bool { unimplemented!() }
""" + "".join(assemble.SPECS[assemble.SPECS.index(a):assemble.SPECS.index(b)] for a, b in (
        ("// perhaps more labels", "pub open spec fn seg_named"), ("// the label of the operands", "// segments are one after"))),
    trusted=[
        "Verus 0.2026.09.13 with its Z3, and vstd",
        "the methods of Symbols by their contracts (job labels)",
        "an iterator over the operands gives them in their order, as its stand-in does; Clone of it and of SourceLocation makes a copy",
        "which opcode and which registers an instruction is made of is not looked at here (C19)",
        "specification of Option::or_else as documented",
    ],
)
