"""src/source/mod.rs: operands in memory, after any number of bytes"""

JOB = dict(
    at_least=4,
    by_kani=("fn write_data_operand", "fn parse_wide", "impl DataOperand :: size"),
    kani=["asm::asm_encode"],
    stand_in="the proof asm::asm_encode (at most eight bytes before the operands)",
    copy=["struct U4", "struct ByteRegister", "struct WideRegister", "enum Wide", "enum DataOperand", "enum SegmentType"],
    sources=[
        dict(file="src/u4.rs", only=[r"struct U4", r"impl U4"], methods=["pair"]),
        dict(file="src/blf4/register_type.rs", only=[r"struct \w+"]),
        dict(file="src/aalv/obj.rs", only=[r"enum SegmentType"]),
        dict(file="src/source/symbols.rs", only=[r"struct LabelRead"]),
        dict(file="src/source/mod.rs", only=[r"fn parse_wide", r"fn write_data_operand", r"enum Wide", r"enum DataOperand",
                                             r"impl DataOperand"], methods=[r"size"]),
    ],
    rename=[("U4 :: ZERO", "u4_zero()"), ("to_le_bytes", "le_bytes"), ("BReg", "ByteRegister"), ("WReg", "WideRegister")],
    contracts={
        "impl U4 :: pair": dict(ret="r", trusted=True, spec="        ensures r == pr(self, other)"),
        "impl DataOperand :: size": dict(ret="r", spec="        ensures r == bytes(*self, 0).len()"),
        "fn parse_wide": dict(ret="r", spec="""
        requires w matches Wide::Label(l) ==> read_label.requires((l, LabelRead { segment, position }))
        ensures match w {
            Wide::Number(n) => r == n,
            Wide::Label(l) => read_label.ensures((l, LabelRead { segment, position }), r),
        }"""),
        "fn write_data_operand": dict(spec="""
        requires forall|l: usize, p: LabelRead| #[trigger] read_label.requires((l, p))
        ensures
            final(mem)@ =~= old(mem)@ + bytes(dat_op, val(final(mem)@, old(mem)@.len() + regs(dat_op).len())),
            // the value of the operand's label, used where it is written
            imm_of(dat_op) matches Imm::Wide(Wide::Label(l)) ==> read_label.ensures(
                (l, LabelRead { segment: st, position: #[verifier::truncate] ((old(mem)@.len() + regs(dat_op).len()) as u16) }),
                val(final(mem)@, old(mem)@.len() + regs(dat_op).len()))"""),
    },
    prelude="""
pub uninterp spec fn pr(a: U4, b: U4) -> u8;
pub uninterp spec fn zero() -> U4;
#[verifier::external_body]
pub fn u4_zero() -> (r: U4) ensures r == zero() { unimplemented!() }
pub trait LeBytes: Sized {
    spec fn is(self, r: [u8; 2]) -> bool;
    fn le_bytes(self) -> (r: [u8; 2]) ensures self.is(r);
}
impl LeBytes for u16 {
    open spec fn is(self, r: [u8; 2]) -> bool { r@ == le(self) && r[0] + 0x100 * r[1] == self }
    #[verifier::external_body]
    fn le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
pub open spec fn le(w: u16) -> Seq<u8> { seq![(w % 0x100) as u8, (w / 0x100) as u8] }

// README, "Instruction and operand encoding": the registers in order, the upper nibble first, then the immediate
pub enum Imm { No, Byte(u8), Wide(Wide) }
pub open spec fn one(a: U4) -> Seq<u8> { seq![pr(a, zero())] }
pub open spec fn two(a: U4, b: U4) -> Seq<u8> { seq![pr(a, b)] }
pub open spec fn three(a: U4, b: U4, c: U4) -> Seq<u8> { seq![pr(a, b), pr(c, zero())] }
pub open spec fn four(a: U4, b: U4, c: U4, d: U4) -> Seq<u8> { seq![pr(a, b), pr(c, d)] }
pub open spec fn regs(d: DataOperand) -> Seq<u8> {
    match d {
        DataOperand::Nothing | DataOperand::ImmediateByte(_) | DataOperand::ImmediateWide(_) => seq![],
        DataOperand::ByteRegister(r) => one(r.0),
        DataOperand::WideRegister(r) => one(r.0),
        DataOperand::ByteImm(r, _) => one(r.0),
        DataOperand::WideImm(r, _) => one(r.0),
        DataOperand::WideImmByte(r, _, s) => two(r.0, s.0),
        DataOperand::WideImmWide(r, _, s) => two(r.0, s.0),
        DataOperand::ByteWideImm(r, s, _) => two(r.0, s.0),
        DataOperand::TwoWideImm(r, s, _) => two(r.0, s.0),
        DataOperand::TwoWideOneByte(r, s, t) => three(r.0, s.0, t.0),
        DataOperand::ByteTwoWide(r, s, t) => three(r.0, s.0, t.0),
        DataOperand::ThreeByte(r, s, t) => three(r.0, s.0, t.0),
        DataOperand::ThreeWide(r, s, t) => three(r.0, s.0, t.0),
        DataOperand::FourByte(r, s, t, u) => four(r.0, s.0, t.0, u.0),
        DataOperand::FourWide(r, s, t, u) => four(r.0, s.0, t.0, u.0),
    }
}
pub open spec fn imm_of(d: DataOperand) -> Imm {
    match d {
        DataOperand::ImmediateByte(i) => Imm::Byte(i),
        DataOperand::ByteImm(_, i) => Imm::Byte(i),
        DataOperand::ImmediateWide(i) => Imm::Wide(i),
        DataOperand::WideImm(_, i) => Imm::Wide(i),
        DataOperand::WideImmByte(_, i, _) => Imm::Wide(i),
        DataOperand::WideImmWide(_, i, _) => Imm::Wide(i),
        DataOperand::ByteWideImm(_, _, i) => Imm::Wide(i),
        DataOperand::TwoWideImm(_, _, i) => Imm::Wide(i),
        _ => Imm::No,
    }
}
pub open spec fn val(s: Seq<u8>, at: nat) -> u16 { (s[at as int] + 0x100 * s[at as int + 1]) as u16 }
// v is what the label stands for
pub open spec fn bytes(d: DataOperand, v: u16) -> Seq<u8> {
    regs(d) + match imm_of(d) {
        Imm::No => seq![],
        Imm::Byte(i) => seq![i],
        Imm::Wide(Wide::Number(n)) => le(n),
        Imm::Wide(Wide::Label(_)) => le(v),
    }
}
""",
    trusted=[
        "Verus 0.2026.09.13 with its Z3, and vstd",
        "U4::pair and U4::ZERO uninterpreted (regs_nibbles proves what pair does)",
        "assumed specification of u16::to_le_bytes",
    ],
)
