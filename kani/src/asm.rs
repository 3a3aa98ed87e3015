//! The assembler: operands in memory, mnemonics, literals.

use telda2::aalv::obj::SegmentType;
use telda2::blf4::{ByteRegister, WideRegister};
use telda2::source::{verif, write_data_operand, DataOperand, LabelRead, SourceOperand, Wide};
use telda2::U4;

use crate::nd;
use crate::{assume, check, reach};

// ---------------------------------------------------------------- operands in memory

fn br() -> ByteRegister {
    ByteRegister(U4::new(nd::u8() & 15))
}
fn wr() -> WideRegister {
    WideRegister(U4::new(nd::u8() & 15))
}
fn any_wide() -> Wide {
    if nd::bool() {
        Wide::Number(nd::u16())
    } else {
        Wide::Label(nd::usize())
    }
}
fn b(r: ByteRegister) -> u8 {
    r.0.into()
}
fn w(r: WideRegister) -> u8 {
    r.0.into()
}
fn any_operand() -> DataOperand {
    use DataOperand::*;
    match nd::u8() % 17 {
        0 => Nothing,
        1 => ByteRegister(br()),
        2 => WideRegister(wr()),
        3 => ImmediateByte(nd::u8()),
        4 => ImmediateWide(any_wide()),
        5 => ByteImm(br(), nd::u8()),
        6 => WideImm(wr(), any_wide()),
        7 => WideImmByte(wr(), any_wide(), br()),
        8 => WideImmWide(wr(), any_wide(), wr()),
        9 => TwoWideOneByte(wr(), wr(), br()),
        10 => ByteWideImm(br(), wr(), any_wide()),
        11 => TwoWideImm(wr(), wr(), any_wide()),
        12 => ByteTwoWide(br(), wr(), wr()),
        13 => ThreeByte(br(), br(), br()),
        14 => ThreeWide(wr(), wr(), wr()),
        15 => FourByte(br(), br(), br(), br()),
        _ => FourWide(wr(), wr(), wr(), wr()),
    }
}
enum Imm {
    No,
    Byte(u8),
    Wide(Wide),
}
/// README, "Instruction and operand encoding": the registers in order, upper nibble first, then the immediate
fn parts(d: &DataOperand) -> ([u8; 4], usize, Imm) {
    use DataOperand::*;
    match *d {
        Nothing => ([0; 4], 0, Imm::No),
        ByteRegister(r) => ([b(r), 0, 0, 0], 1, Imm::No),
        WideRegister(r) => ([w(r), 0, 0, 0], 1, Imm::No),
        ImmediateByte(i) => ([0; 4], 0, Imm::Byte(i)),
        ImmediateWide(i) => ([0; 4], 0, Imm::Wide(i)),
        ByteImm(r, i) => ([b(r), 0, 0, 0], 1, Imm::Byte(i)),
        WideImm(r, i) => ([w(r), 0, 0, 0], 1, Imm::Wide(i)),
        WideImmByte(r, i, s) => ([w(r), b(s), 0, 0], 2, Imm::Wide(i)),
        WideImmWide(r, i, s) => ([w(r), w(s), 0, 0], 2, Imm::Wide(i)),
        TwoWideOneByte(r, s, t) => ([w(r), w(s), b(t), 0], 3, Imm::No),
        ByteWideImm(r, s, i) => ([b(r), w(s), 0, 0], 2, Imm::Wide(i)),
        TwoWideImm(r, s, i) => ([w(r), w(s), 0, 0], 2, Imm::Wide(i)),
        ByteTwoWide(r, s, t) => ([b(r), w(s), w(t), 0], 3, Imm::No),
        ThreeByte(r, s, t) => ([b(r), b(s), b(t), 0], 3, Imm::No),
        ThreeWide(r, s, t) => ([w(r), w(s), w(t), 0], 3, Imm::No),
        FourByte(r, s, t, u) => ([b(r), b(s), b(t), b(u)], 4, Imm::No),
        FourWide(r, s, t, u) => ([w(r), w(s), w(t), w(u)], 4, Imm::No),
    }
}
pub const BEFORE: usize = 8;

/// Memory of a segment with any number of bytes in it
fn any_memory(len: usize) -> Vec<u8> {
    #[cfg(kani)]
    unsafe {
        let mut v = Vec::with_capacity(BEFORE + 8);
        v.set_len(len);
        v
    }
    #[cfg(not(kani))]
    vec![0; len]
}
fn encode() {
    let d = any_operand();
    let len = nd::usize();
    assume!(len <= BEFORE);
    let at = nd::usize();
    assume!(at < len || len == 0 && at == 0);
    let kept = nd::u8();
    let mut mem = any_memory(len);
    if len > 0 {
        mem[at] = kept;
    }
    let val = nd::u16();
    let mut read: Option<(usize, LabelRead)> = None;
    let mut reads = 0;
    write_data_operand(SegmentType::Data, &mut mem, |l, p| {
        read = Some((l, p));
        reads += 1;
        val
    }, d);
    let (regs, n, imm) = parts(&d);
    let mut want = [0; 4];
    let mut k = 0;
    if n > 0 {
        want[0] = regs[0] << 4 | regs[1];
        k = 1;
    }
    if n > 2 {
        want[1] = regs[2] << 4 | regs[3];
        k = 2;
    }
    let mut label = None;
    match imm {
        Imm::No => (),
        Imm::Byte(i) => {
            want[k] = i;
            k += 1;
        }
        Imm::Wide(i) => {
            let v = match i {
                Wide::Number(n) => n,
                Wide::Label(l) => {
                    label = Some((l, k));
                    val
                }
            };
            want[k] = v as u8;
            want[k + 1] = (v >> 8) as u8;
            k += 2;
        }
    }
    check!(mem.len() == len + k, "an operand takes as many bytes as its registers and its immediate need");
    check!(verif::size(&d) as usize == k, "the size of an operand is the number of its bytes");
    let mut same = true;
    let mut i = 0;
    while i < 4 {
        same = same && (i >= k || mem[len + i] == want[i]);
        i += 1;
    }
    check!(same, "registers come first, two to a byte, upper nibble first, then the immediate, lower byte first");
    check!(len == 0 || mem[at] == kept, "what is in memory already stays");
    match label {
        Some((l, k)) => {
            check!(reads == 1, "a label is looked up once");
            if let Some((id, p)) = &read {
                check!(*id == l, "the label of the operand is looked up");
                check!(p.position == (len + k) as u16 && p.segment == SegmentType::Data, "a label is used where its value is written");
            }
        }
        None => {
            check!(reads == 0, "no label is looked up without need");
        }
    }
    core::mem::forget(mem);
    reach!(label.is_some() && k == 3, "label after registers");
    reach!(n == 4, "four registers");
    reach!(len == BEFORE, "full segment");
}

// ---------------------------------------------------------------- mnemonics

#[derive(Clone, Copy, PartialEq)]
enum Op {
    B(ByteRegister),
    W(WideRegister),
    Byte(u8),
    Wide(u16),
    Number(i32),
    Label,
}
use Op::{Byte as Ob, Label as Ol, Number as On, Wide as Ow, B, W};

fn any_op() -> Op {
    match nd::u8() % 6 {
        0 => B(br()),
        1 => W(wr()),
        2 => Ob(nd::u8()),
        3 => Ow(nd::u16()),
        4 => On(nd::i32()),
        _ => Ol,
    }
}
fn real(o: Op) -> SourceOperand {
    match o {
        B(r) => SourceOperand::ByteReg(r),
        W(r) => SourceOperand::WideReg(r),
        Ob(n) => SourceOperand::Byte(n),
        Ow(n) => SourceOperand::Wide(n),
        On(n) => SourceOperand::Number(n),
        Ol => SourceOperand::Label(String::new()),
    }
}
fn byte_imm(o: Op) -> Option<u8> {
    match o {
        On(n) => Some(n as u8),
        Ob(n) => Some(n),
        _ => None,
    }
}
fn wide_imm(o: Op, id: usize) -> Option<Wide> {
    match o {
        On(n) => Some(Wide::Number(n as u16)),
        Ow(n) => Some(Wide::Number(n)),
        Ol => Some(Wide::Label(id)),
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Form {
    None,
    Reg,
    Target,
    Ret,
    Store,
    Load,
    Three,
    Four,
    Ldi,
    Jmp,
}
/// README, table of instructions: the operands an instruction takes, `code` and the next ones its opcodes.
/// None: there is no such form. `l` is the id of the label.
fn spec(form: Form, code: u8, ops: &[Op; 5], n: usize, l: usize) -> Option<(u8, DataOperand)> {
    use DataOperand as D;
    let [a, b, c, d, _] = *ops;
    match form {
        Form::None => if n == 0 { Some((code, D::Nothing)) } else { None },
        Form::Reg => match (n, a) {
            (1, B(r)) => Some((code, D::ByteRegister(r))),
            (1, W(r)) => Some((code + 1, D::WideRegister(r))),
            _ => None,
        },
        Form::Target => if n == 1 { wide_imm(a, l).map(|i| (code, D::ImmediateWide(i))) } else { None },
        Form::Ret => match n {
            0 => Some((code, D::ImmediateByte(0))),
            1 => byte_imm(a).map(|i| (code, D::ImmediateByte(i))),
            _ => None,
        },
        Form::Store => {
            if n < 3 {
                return None;
            }
            match (a, wide_imm(b, l), c) {
                (W(r), Some(i), B(t)) => return Some((code, D::WideImmByte(r, i, t))),
                (W(r), Some(i), W(t)) => return Some((code + 1, D::WideImmWide(r, i, t))),
                _ => (),
            }
            match (a, b, c) {
                (W(r), W(s), B(t)) => Some((code + 2, D::TwoWideOneByte(r, s, t))),
                (W(r), W(s), W(t)) => Some((code + 3, D::ThreeWide(r, s, t))),
                _ => None,
            }
        }
        Form::Load => {
            if n < 3 {
                return None;
            }
            match (a, b, wide_imm(c, l)) {
                (B(r), W(s), Some(i)) => return Some((code, D::ByteWideImm(r, s, i))),
                (W(r), W(s), Some(i)) => return Some((code + 1, D::TwoWideImm(r, s, i))),
                _ => (),
            }
            match (a, b, c) {
                (B(r), W(s), W(t)) => Some((code + 2, D::ByteTwoWide(r, s, t))),
                (W(r), W(s), W(t)) => Some((code + 3, D::ThreeWide(r, s, t))),
                _ => None,
            }
        }
        Form::Three => match (a, b, c) {
            (B(r), B(s), B(t)) if n >= 3 => Some((code, D::ThreeByte(r, s, t))),
            (W(r), W(s), W(t)) if n >= 3 => Some((code + 1, D::ThreeWide(r, s, t))),
            _ => None,
        },
        Form::Four => match (a, b, c, d) {
            (B(r), B(s), B(t), B(u)) if n >= 4 => Some((code, D::FourByte(r, s, t, u))),
            (W(r), W(s), W(t), W(u)) if n >= 4 => Some((code + 1, D::FourWide(r, s, t, u))),
            _ => None,
        },
        Form::Ldi => {
            if n < 2 {
                return None;
            }
            match (a, byte_imm(b), wide_imm(b, l)) {
                (B(r), Some(i), _) => Some((code, D::ByteImm(r, i))),
                // an uneven number of registers is filled up with r0
                (W(r), _, Some(i)) => Some((code + 1, D::TwoWideImm(r, WideRegister(U4::new(0)), i))),
                _ => None,
            }
        }
        Form::Jmp => {
            if n != 1 {
                return None;
            }
            let (r0, r1) = (WideRegister(U4::new(0)), WideRegister(U4::new(1)));
            match (a, wide_imm(a, l)) {
                (_, Some(i)) => Some((code, D::TwoWideImm(r0, r1, i))),
                (W(r), _) if w(r) != 0 => Some((code, D::TwoWideImm(r, r1, Wide::Number(0)))),
                _ => None,
            }
        }
    }
}
fn with<const N: usize>(name: &str, form: Form, code: u8) {
    let mut ops = [Ol; 5];
    let mut real_ops = Vec::with_capacity(5);
    let mut i = 0;
    while i < N {
        ops[i] = any_op();
        real_ops.push(real(ops[i]));
        i += 1;
    }
    let mut syms = verif::Syms::new();
    // the id of the label
    #[cfg(kani)]
    let l = nd::usize();
    #[cfg(not(kani))]
    let l = 0;
    unsafe { verif::ID = l }
    let got = syms.ins(name, real_ops);
    let want = spec(form, code, &ops, N, l);
    match (&got, &want) {
        (Ok(Some((c, d))), Some((wc, wd))) => {
            check!(c == wc, "an instruction assembles to its opcode");
            check!(d == wd, "the operands are those of the source, in the order of its form");
        }
        (Ok(Some(_)), None) => {
            check!(false, "operands that fit no form of the instruction are refused");
        }
        (Err(_), Some(_)) => {
            check!(false, "operands that fit a form of the instruction are accepted");
        }
        (Ok(None), _) => {
            check!(false, "a documented instruction is known");
        }
        (Err(_), None) => (),
    }
    reach!(got.is_ok(), "assembled");
    reach!(got.is_err(), "refused");
    core::mem::forget(got);
    core::mem::forget(syms);
}
/// Any operands, up to those the form has and, where more are refused, one more. What is written after that is
/// ignored: neither allowed nor forbidden.
fn mnemonic(name: &str, form: Form, code: u8) {
    let most = match form {
        Form::None => 1,
        Form::Reg | Form::Target | Form::Ret | Form::Jmp | Form::Ldi => 2,
        Form::Store | Form::Load | Form::Three => 3,
        Form::Four => 4,
    };
    match nd::u8() {
        0 => with::<0>(name, form, code),
        1 => with::<1>(name, form, code),
        2 if most >= 2 => with::<2>(name, form, code),
        3 if most >= 3 => with::<3>(name, form, code),
        4 if most >= 4 => with::<4>(name, form, code),
        _ => (),
    }
}

const NAMES: [&[u8]; 46] = [b"usr", b"vmon", b"vmoff", b"pstore", b"pload", b"null", b"halt", b"ctf", b"syscall", b"reth", b"nop", b"push", b"pop", b"call", b"ret", b"store", b"str", b"load", b"jez", b"jlt", b"jle", b"jgt", b"jge", b"jnz", b"jne", b"jo", b"jno", b"ja", b"jae", b"jnc", b"jb", b"jc", b"jbe", b"ldi", b"jmp", b"jump", b"add", b"sub", b"and", b"or", b"xor", b"shl", b"asr", b"lsr", b"div", b"mul"];

/// Every string of N bytes
fn unknown<const N: usize>() {
    let bytes: [u8; N] = nd::u8s();
    let mut ascii = true;
    let mut i = 0;
    while i < N {
        ascii = ascii && bytes[i] < 128;
        i += 1;
    }
    assume!(ascii);
    let mut known = false;
    let mut k = 0;
    while k < NAMES.len() {
        let m = NAMES[k];
        if m.len() == N {
            let mut same = true;
            let mut i = 0;
            while i < N {
                same = same && bytes[i] == m[i];
                i += 1;
            }
            known = known || same;
        }
        k += 1;
    }
    assume!(!known);
    let name = unsafe { core::str::from_utf8_unchecked(&bytes) };
    let mut syms = verif::Syms::new();
    let got = syms.ins(name, Vec::new());
    check!(matches!(got, Ok(None)), "what is no documented instruction is unknown");
    reach!(N == 0 || bytes[0] == b'x', "other name");
    core::mem::forget(got);
    core::mem::forget(syms);
}

crate::proofs! {
    asm_encode, 6, [] {
        encode();
    }
    asm_ins_null, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("null", Form::None, 0x00);
    }
    asm_ins_halt, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("halt", Form::None, 0x0a);
    }
    asm_ins_ctf, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("ctf", Form::None, 0x0b);
    }
    asm_ins_syscall, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("syscall", Form::None, 0x0c);
    }
    asm_ins_reth, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("reth", Form::None, 0x0d);
    }
    asm_ins_nop, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("nop", Form::None, 0x20);
    }
    asm_ins_push, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("push", Form::Reg, 0x21);
    }
    asm_ins_pop, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("pop", Form::Reg, 0x23);
    }
    asm_ins_call, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("call", Form::Target, 0x25);
    }
    asm_ins_ret, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("ret", Form::Ret, 0x26);
    }
    asm_ins_store, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("store", Form::Store, 0x27);
    }
    asm_ins_str, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("str", Form::Store, 0x27);
    }
    asm_ins_load, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("load", Form::Load, 0x2b);
    }
    asm_ins_jez, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jez", Form::Target, 0x2f);
    }
    asm_ins_jlt, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jlt", Form::Target, 0x30);
    }
    asm_ins_jle, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jle", Form::Target, 0x31);
    }
    asm_ins_jgt, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jgt", Form::Target, 0x32);
    }
    asm_ins_jge, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jge", Form::Target, 0x33);
    }
    asm_ins_jnz, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jnz", Form::Target, 0x34);
    }
    asm_ins_jne, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jne", Form::Target, 0x34);
    }
    asm_ins_jo, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jo", Form::Target, 0x35);
    }
    asm_ins_jno, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jno", Form::Target, 0x36);
    }
    asm_ins_ja, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("ja", Form::Target, 0x37);
    }
    asm_ins_jae, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jae", Form::Target, 0x38);
    }
    asm_ins_jnc, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jnc", Form::Target, 0x38);
    }
    asm_ins_jb, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jb", Form::Target, 0x39);
    }
    asm_ins_jc, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jc", Form::Target, 0x39);
    }
    asm_ins_jbe, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jbe", Form::Target, 0x3a);
    }
    asm_ins_ldi, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("ldi", Form::Ldi, 0x3f);
    }
    asm_ins_jmp, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jmp", Form::Jmp, 0x40);
    }
    asm_ins_jump, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("jump", Form::Jmp, 0x40);
    }
    asm_ins_add, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("add", Form::Three, 0x41);
    }
    asm_ins_sub, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("sub", Form::Three, 0x43);
    }
    asm_ins_and, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("and", Form::Three, 0x45);
    }
    asm_ins_or, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("or", Form::Three, 0x47);
    }
    asm_ins_xor, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("xor", Form::Three, 0x49);
    }
    asm_ins_shl, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("shl", Form::Three, 0x4b);
    }
    asm_ins_asr, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("asr", Form::Three, 0x4d);
    }
    asm_ins_lsr, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("lsr", Form::Three, 0x4f);
    }
    asm_ins_div, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("div", Form::Four, 0x51);
    }
    asm_ins_mul, 16, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        mnemonic("mul", Form::Four, 0x53);
    }
    asm_unknown_0, 48, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        unknown::<0>();
    }
    asm_unknown_1, 48, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        unknown::<1>();
    }
    asm_unknown_2, 48, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        unknown::<2>();
    }
    asm_unknown_3, 48, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        unknown::<3>();
    }
    asm_unknown_4, 48, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        unknown::<4>();
    }
    asm_unknown_5, 48, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        unknown::<5>();
    }
    asm_unknown_6, 48, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        unknown::<6>();
    }
    asm_unknown_7, 48, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        unknown::<7>();
    }
    asm_unknown_8, 48, [telda2::source::symbols::Symbols::get_label => telda2::source::verif::any_label] {
        unknown::<8>();
    }
}
