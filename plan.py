"""Which proofs decide which property. Read by check.py and tools/gen.py."""


def P(module, names):
    return ["%s::%s" % (module, n) for n in names.split()]


def ins(names):
    return P("ins", " ".join("ins_" + n for n in names.split()))


TRUSTED = [
    "rustc (Kani's toolchain) and Kani's translation of MIR to goto programs",
    "CBMC 6.11.0 and CaDiCaL",
    "the written specifications in /verif/kani/src",
]
ASSUMPTIONS = [
    "Rust's standard library behaves as Kani's compiled copy of it does",
    "heap allocation does not fail",
]
# a proof over fewer cases than all: never counted as proved without its bound
BOUNDED = {
    "machine::machine_run": "at most three instructions before the trap that stops the machine",
    "machine::machine_run_kernel": "at most three instructions before the trap that stops the machine",
}

STUBS_INS = [
    "HandlerContext::fetch, ::read, ::write: contracts in cpu.rs (s_fetch, s_read, s_write); "
    "the bodies are proved against them by the proofs mmu_* of C06 and C07",
]
A_OP = [
    "proofs over one instruction fix the opcode (one proof per opcode, all opcodes) and let "
    "everything else vary",
]

ALU = "add_b add_w sub_b sub_w and_b and_w or_b or_w xor_b xor_w shl_b shl_w asr_b asr_w lsr_b lsr_w"
DIVW = "div_w_frame div_w_quot " + " ".join("div_w_%d" % i for i in range(16))
ALLG = "00 10 20 24 28 2c 30 40 44 48 4c 50 52 53 55".split()

MNEMONICS = ("null halt ctf syscall reth nop push pop call ret store str load jez jlt jle jgt jge jnz jne jo jno ja jae jnc "
             "jb jc jbe ldi jmp jump add sub and or xor shl asr lsr div mul")
LITERALS = ("lit_dec_1 lit_dec_2 lit_dec_5 lit_dec_neg_5 lit_dec_3b lit_dec_neg_3b lit_dec_5w lit_dec_neg_5w lit_hex_1 lit_hex_2 "
            "lit_hex_4 lit_hex_2b lit_hex_4w lit_bin_8 lit_bin_8b lit_oct_6 lit_oct_3b lit_oct_6w lit_label_1 lit_label_2 lit_label_3 "
            "lit_label_4 lit_quoted_3 lit_quoted_4 lit_quoted_6 lit_char_0 lit_char_1 lit_char_2 lit_char_3 lit_char_4 lit_char_5")
BOUNDED.update({"asm::asm_unknown_%d" % i: "words of %d characters" % i for i in range(9)})
BOUNDED["asm::asm_encode"] = "after at most eight bytes (unbounded: the Verus job encode)"
BOUNDED.update({"lit::" + n: "literals of exactly the number of digits or characters in its name"
                for n in LITERALS.split() + ["lit_hex_end_b_now"]})

BOUNDED["assembles"] = ("600 generated sources, for what the `tc` program does around `process` and `write_data_operand`: "
                        "the bytes, symbols, relocations and entry of the object it writes")

# Run natively, without their stubs, these proofs speak of other code: their counterexamples are only the verifier's
NATIVE_DIFFERS = set("""ins::ins_pload ins::ins_pstore kernel::kernel_map mem::mem_write_n trap::trap_entry_double
trap::trap_reth_fault trap::trap_round_trip_now""".split())

PROPS = {
    "C01": dict(
        proofs=P("regs", "regs_write_wide_super regs_write_wide_user regs_write_byte regs_read_wide "
                 "regs_flags regs_nibbles"),
    ),
    "C02": dict(proofs=ins(ALU), stubs=STUBS_INS, assumptions=A_OP),
    "C03": dict(proofs=ins("mul_b_now mul_w_now div_b " + DIVW), stubs=STUBS_INS, assumptions=A_OP),
    "C04": dict(
        proofs=ins("nop call ret ldi_b ldi_w jez jlt jle jgt jge jnz jo jno j37_now jae j39_now jbe"),
        stubs=STUBS_INS, assumptions=A_OP),
    "C05": dict(
        proofs=ins("push_b push_w pop_b pop_w store_bi store_wi store_br store_wr "
                   "load_bi load_wi load_br load_wr"),
        stubs=STUBS_INS, assumptions=A_OP),
    "C06": dict(
        proofs=P("mmu", "mmu_fetch mmu_read mmu_write mmu_fetch_direct mmu_read_direct mmu_write_direct")),
    "C07": dict(proofs=P("mmu", "mmu_fetch_fault mmu_read_fault mmu_write_fault")),
    "C08": dict(
        proofs=P("all", " ".join("all_user_" + g for g in ALLG))
        + P("regs", "regs_write_wide_user regs_read_wide") + ins("usr vmon vmoff pstore pload")
        + P("trap", "undef_0 undef_1 undef_2 undef_3"),
        stubs=STUBS_INS, assumptions=A_OP),
    "C09": dict(
        proofs=P("trap", "trap_entry_halt trap_entry_syscall trap_entry_invalid trap_entry_double "
                 "trap_round_trip_now trap_reth_refused trap_reth_fault trap_fetch_fault "
                 "trap_fetch_fault_stop") + ins("halt syscall ctf"),
        stubs=STUBS_INS, assumptions=A_OP),
    "C10": dict(
        proofs=P("all", " ".join("all_super_" + g for g in ALLG))
        + P("trap", "undef_0 undef_1 undef_2 undef_3"),
        stubs=STUBS_INS, assumptions=A_OP),
    "C11": dict(
        proofs=P("machine", "machine_once machine_once_kernel machine_run machine_run_kernel"), verus=["run"]),
    "C12": dict(proofs=P("mem", "mem_read_n mem_write_n"), verus=["mem"]),
    "C13": dict(proofs=P("alloc", "alloc_new alloc_bump alloc_reuse alloc_free"), verus=["alloc"]),
    "C14": dict(proofs=P("kernel", "kernel_map") + P("regs", "regs_align"), verus=["space", "load"]),
    "C15": dict(
        proofs=P("syscall", "syscall_handle syscall_new"),
        stubs=["HandlerContext::print_mmap: does nothing (what it prints is not specified)"]),
    "C16": dict(proofs=[], verus=["sections", "aalv_write", "object_write", "aalv_read", "object_read"]),
    "C17": dict(proofs=[], verus=["aalv_read", "sections", "object_read"]),
    "C18": dict(proofs=P("asm", "asm_encode") + P("regs", "regs_nibbles"), verus=["encode"]),
    "C19": dict(
        proofs=P("asm", " ".join("asm_ins_" + n for n in MNEMONICS.split())
                 + " " + " ".join("asm_unknown_%d" % i for i in range(9))),
        stubs=["Symbols::get_label: any id (source::verif::any_label)"]),
    "C20": dict(
        proofs=P("lit", LITERALS),
        stubs=["parse_bytechar: contract (lit.rs), proved by the proofs lit_char_*"],
        assumptions=["String::from_utf8_lossy keeps ASCII and replaces anything else by what is no hexadecimal digit"]),
    "C21": dict(proofs=[], verus=["labels", "operands", "assemble", "encode"], native=["assembles"]),
    "C22": dict(
        proofs=P("disasm", "dis_ordinary"),
        stubs=["HandlerContext::fetch: contract (disasm.rs), see mmu_* of C06 and C07",
               "core::fmt::write: writes nothing (the text is not specified)"]),
}
