"""The properties, their anchors and how they are decided."""

KANI = "contract-based deductive verification (Kani/CBMC)"
HOOKS = {
    "guard": "cfg(telda_verif)",
    "enable": "RUSTFLAGS=\"--cfg telda_verif\"",
    "source_commits": ["2792fb6df5e9d7ccaea28ebba1a04ad424e25cc6", "7403bcb211c24d9ecb8aec8080071d90f7c2636c"],
}

T1 = "The one existing test checks page alignment of 14 constants; nothing executes an instruction."

PROPERTIES = [
    dict(
        id="C01", title="Register file: named registers, byte halves, zero register, flags word",
        statement="A register write changes exactly the register it names: byte registers 1-10 are the halves "
        "of wide registers 1-5 (low half first), byte registers 11-15 are the low halves of wide registers 6-10 and clear the "
        "upper half when written, register 0 always reads zero and ignores writes, and the registers b-f are stack, link, frame, page "
        "table and trap handler. In user mode the page table and trap handler registers can be neither read nor written: the attempt reports "
        "an illegal operation and changes nothing. Splitting an operand byte into two register numbers (upper nibble first) and pairing them "
        "again are inverse, and so are packing the flags into a word and unpacking them.",
        over=["inputs", "histories"],
        text="every register state, every register number, every value, both modes; every flags word",
        why="It ranges over all register contents and numbers. " + T1,
        files=["src/blf4/mod.rs", "src/u4.rs", "src/blf4/register_type.rs"],
        mechanism=[("register accessors", "Blf4::read_br, write_br, read_wr, write_wr"),
                   ("flags word", "impl From<Blf4Flags> for u16, From<u16> for Blf4Flags"),
                   ("nibbles", "U4::paired, U4::pair")],
        observe=["Blf4::read_br", "Blf4::read_wr"],
        technique=KANI + ": register accessors against an abstract register file",
        note="All register states, numbers and values, no bound. Trusts Kani and CBMC.",
    ),
    dict(
        id="C02", title="Arithmetic, logic and shift instructions compute result and flags",
        statement="add, sub, and, or, xor, shl, asr and lsr on bytes and wides write the documented result modulo the operand width to the first "
        "register, with shift amounts taken modulo the width, and set zero and sign from the result, carry to the unsigned carry or borrow and "
        "overflow to the signed overflow (both clear for logic and shifts). Nothing else changes but the program counter, which advances past the three "
        "bytes of the instruction; the registers may be the same. A nonzero reserved operand nibble triggers the invalid instruction trap, and the destination is not written.",
        over=["inputs", "programs"],
        text="every register state, every operand byte, both modes, with and without a fault while the instruction is fetched",
        why="2^32 operand pairs per instruction and all aliasings of registers. " + T1,
        files=["src/blf4/isa/handlers.rs", "src/blf4/isa/mod.rs", "src/blf4/mod.rs"],
        mechanism=[("ALU handlers", "handlers.rs binop_b, binop_w, add_b ... lsr_w"), ("dispatch table", "handlers.rs OP_HANDLERS"),
                   ("operand decoding", "handlers.rs arg_pair")],
        observe=["Cpu::execute_instruction"],
        technique=KANI + ": one step of the processor against an executable specification of the instruction table",
        note="Every state and operand, no bound; fetch and memory accesses by their contracts, which C06 and C07 prove.",
    ),
    dict(
        id="C03", title="Multiplication and division: full result, remainder, division by zero",
        statement="mul writes the two halves of the full double-width product to its two destination registers, sets carry and overflow when the upper half is not "
        "zero, and zero and sign from the lower half; div writes the unsigned quotient to its first and the remainder to its second destination and leaves "
        "the flags alone. A divisor of zero triggers the division trap and writes no register. When both destinations are the same register the second write wins, and sources are "
        "read before any destination is written.",
        over=["inputs", "programs"],
        text="every register state, every operand byte, both modes",
        why="2^32 operand pairs per instruction and all aliasings of four registers. " + T1,
        files=["src/blf4/isa/handlers.rs"],
        mechanism=[("handlers", "handlers.rs mul_b, mul_w, div_b, div_w")],
        observe=["Cpu::execute_instruction"],
        technique=KANI + ": one step of the processor against an executable specification; wide division by its defining equation, split by divisor magnitude",
        note="Every state and operand, no bound; two listed findings (order of the halves of the product). fetch by contract (C06, C07).",
    ),
    dict(
        id="C04", title="Control flow: conditions, call and return, jumps, instruction length",
        statement="Each conditional jump goes to its wide operand exactly when the flags satisfy the documented condition of its mnemonic and otherwise continues after its three bytes. "
        "call sets the link register to the address after itself and jumps, ret jumps to the link register and adds its byte to the stack pointer, jmp goes to its register or, with register 0, to "
        "its wide operand, ldi loads its operand. The program counter wraps around at 16 bits, every instruction continues right after its own bytes unless it "
        "jumps, and no other register or flag changes.",
        over=["inputs", "programs"],
        text="every register and flag state, every operand, every program counter, both modes",
        why="All flag combinations, operands and wrap-around positions. " + T1,
        files=["src/blf4/isa/handlers.rs", "src/blf4/mod.rs"],
        mechanism=[("jumps", "handlers.rs jif and its callers, call, ret, ldi_b, ldi_w"), ("fetch", "HandlerContext::fetch")],
        observe=["Cpu::execute_instruction"],
        technique=KANI + ": one step of the processor against an executable specification of the instruction table",
        note="Every state and operand, no bound; two listed findings (opcode numbers of ja and jb). fetch by contract (C06, C07).",
    ),
    dict(
        id="C05", title="Load, store, push and pop access the right bytes in the right order",
        statement="store and load access exactly the byte at base plus offset modulo 2^16, or the two bytes from there in little endian order (wrapping around), and move exactly the "
        "named register; push moves the stack pointer down by the operand size and stores there, pop loads from the stack pointer and moves it up. No other memory is accessed and no other register "
        "or flag changes. When an access faults, the instruction triggers exactly that fault, accesses nothing after it and does not write its destination register.",
        over=["inputs", "programs", "fault_sequences"],
        text="every register state, operand and memory content, with a fault at any access",
        why="All addresses including wrap-around, all aliasings of base, offset and data register, every fault position. " + T1,
        files=["src/blf4/isa/handlers.rs", "src/blf4/mod.rs"],
        mechanism=[("handlers", "handlers.rs push_b ... load_wr"), ("stack", "HandlerContext::pushb, pushw, popb, popw"),
                   ("wide accesses", "HandlerContext::read_wide, write_wide")],
        observe=["Cpu::execute_instruction", "MainMemory"],
        technique=KANI + ": one step of the processor against an executable specification, memory accesses as a ghost trace",
        note="Every state and operand, no bound; read and write by their contracts, which C06 and C07 prove of their bodies.",
    ),
    dict(
        id="C06", title="Address translation reaches the mapped byte and sets dirty bits on writes",
        statement="With address translation on, an access the page tables allow (present, the permission of its kind, and user permission in user mode, at both levels) reaches exactly the physical byte "
        "the two-level table of 16 and 32 little endian entries maps it to; with translation off it reaches the byte with the number of its address and never faults. A write sets the dirty bit of both entries it used and changes no other bit and no other memory; reads and "
        "fetches change no memory. Every access touches its byte exactly once, at an address below 2^24, and changes no register but the program counter of a fetch.",
        over=["inputs", "configurations"],
        text="every memory content (every page table, also overlapping and self-referential ones), page table pointer, address, mode and access kind",
        why="All page tables and addresses, including entries that overlap with the data accessed. " + T1,
        files=["src/blf4/mod.rs", "src/mem.rs"],
        mechanism=[("translation", "HandlerContext::addr_resolve, read_entry, entry_addr"), ("accesses", "HandlerContext::fetch, read, write")],
        observe=["MainMemory", "HandlerContext::read, write, fetch"],
        technique=KANI + ": contracts of fetch, read and write on an arbitrary memory",
        note="Every memory content and address, no bound. The memory is a lazily chosen arbitrary function; a probe address stands for all others.",
    ),
    dict(
        id="C07", title="Forbidden accesses fault with the right trap and have no effect",
        statement="With address translation on, an access the page tables do not allow faults: a top-level entry that is not present gives the level 1 page fault, a low-level one "
        "the level 2 page fault, missing user permission in user mode an illegal operation, and missing permission for the access an illegal read, write or execute trap; what is wrong with the "
        "top-level entry is reported before the low-level entry is looked at. A faulting access reads and writes no byte but the page table entries it looks at, changes no memory (no dirty bit either) and no register.",
        over=["inputs", "configurations", "fault_sequences"],
        text="every memory content, page table pointer, address, mode and access kind",
        why="All combinations of permission bits at two levels, modes and access kinds. " + T1,
        files=["src/blf4/mod.rs"],
        mechanism=[("permission checks", "HandlerContext::read_entry"), ("level of the fault", "HandlerContext::addr_resolve")],
        observe=["HandlerContext::read, write, fetch"],
        technique=KANI + ": contracts of fetch, read and write on an arbitrary memory",
        note="Every memory content and address, no bound. Within one entry, either of two applicable permission traps is accepted.",
    ),
    dict(
        id="C08", title="User mode cannot gain supervisor powers",
        statement="No instruction executed in user mode, whatever its bytes, changes the page table pointer, the trap handler or the translation mode, accesses physical memory directly, or "
        "leaves user mode other than by a trap. The supervisor instructions (switching modes and physical loads and stores) in user mode trigger an illegal operation and do nothing; in "
        "supervisor mode they do what is documented. Supervisor registers can be neither read nor written by any instruction in user mode.",
        over=["inputs", "programs"],
        text="every opcode and operand, every register state, with a fault at any fetch or access",
        why="It is about every byte sequence a hostile program may execute. " + T1,
        files=["src/blf4/isa/handlers.rs", "src/blf4/mod.rs"],
        mechanism=[("register privilege", "Blf4::read_wr, write_wr"), ("privileged handlers", "handlers.rs usr, vmon, vmoff, pstore, pload, reth")],
        observe=["Cpu::execute_instruction"],
        technique=KANI + ": isolation postcondition of one step for every opcode",
        note="One step from every state, for every opcode, so it holds along every execution by induction; memory accesses by contract (C06, C07).",
    ),
    dict(
        id="C09", title="Traps enter the handler with a saved frame, reth restores it",
        statement="When an instruction or its fetch traps and no handler is installed, the machine stops with exactly that trap mode and pushes nothing; with a handler, the flags and registers "
        "are pushed onto the stack (in 32 bytes), control goes to the handler in supervisor mode with the trap flag set and the trap mode in register 1, and nothing else changes. If the frame cannot be pushed the "
        "machine stops with that fault. Returning with reth restores all registers and flags of the trapped program, clears the trap flag, and outside of a trap handler triggers the illegal handler return trap and changes nothing.",
        over=["inputs", "programs", "fault_sequences"],
        text="every register state, trap mode and handler address, any code run by the handler in between, a fault at any push or pop",
        why="All states and every fault position within the frame. " + T1,
        files=["src/blf4/mod.rs", "src/blf4/isa/handlers.rs"],
        mechanism=[("trap entry", "Blf4::execute_instruction"), ("frame", "HandlerContext::push_registers, pop_registers"), ("return", "handlers.rs reth")],
        observe=["Cpu::execute_instruction"],
        technique=KANI + ": contracts of trap entry and return, composed into a round trip over an arbitrary handler",
        note="Every state, no bound; one listed finding (program counter and user mode are not part of the frame). Memory by contract.",
    ),
    dict(
        id="C10", title="No guest program can crash the emulator; undefined opcodes trap",
        statement="Whatever bytes are executed in whatever state, one step of the processor ends: it does not panic, overflow or index out of bounds, reads at most four instruction bytes, and either succeeds or reports a "
        "trap with the trap flag set in supervisor mode. Every opcode that is not documented triggers the invalid instruction trap, accesses no data memory and changes no register.",
        over=["inputs", "programs", "fault_sequences"],
        text="all 256 opcodes with every operand, every register state, a fault at any fetch or access",
        why="It quantifies over all instruction bytes and states. " + T1,
        files=["src/blf4/isa/handlers.rs", "src/blf4/isa/mod.rs", "src/blf4/mod.rs", "src/u4.rs"],
        mechanism=[("dispatch", "handlers.rs OP_HANDLERS"), ("wrapping arithmetic", "HandlerContext, handlers.rs")],
        observe=["Cpu::execute_instruction"],
        technique=KANI + ": absence of panics and overflow in one step for every opcode",
        note="Every state and operand, no bound; memory by contract. Kani generates the obligations for panics, overflow, bounds and pointers.",
    ),
    dict(
        id="C11", title="The machine runs until a trap nobody handles and reports that trap",
        statement="One step of the machine executes one instruction on the machine's own memory; a trap is given once to the emulated kernel installed last, with its trap mode, the machine's processor and memory, and the kernel's answer "
        "decides whether the machine goes on; without a kernel the trap is reported. Running repeats steps until the first trap that is not handled and returns its mode, executing nothing after it.",
        over=["inputs", "histories"],
        text="every processor, kernel and sequence of traps",
        why="It holds for every kernel and processor behaviour, tests have neither. " + T1,
        files=["src/machine/mod.rs", "src/machine/ekernel.rs"],
        mechanism=[("step", "Machine::execute_once"), ("run", "Machine::run_until_abort"), ("kernel", "Machine::install_emulated_kernel")],
        observe=["Machine::execute_once", "Machine::run_until_abort"],
        technique=KANI + ": contracts of the machine over arbitrary processors and kernels",
        note="One step: every behaviour. The run loop: bounded to three instructions before the stop, labelled bounded.",
    ),
    dict(
        id="C12", title="Physical memory: ROM, I/O ports, and cells that keep what is written",
        statement="Reading a physical address from 0x8000 gives the byte last written there, or zero; addresses 0x80 to 0x7fff give the bytes of the ROM image (zero after its end, and without one) and ignore writes; "
        "addresses below 0x80 reach the I/O port of that number and nothing else, once per access. A write changes no other address. Images up to the size of the ROM are accepted. Accesses to several bytes go to "
        "consecutive addresses in ascending order.",
        over=["inputs", "histories"],
        text="every history of reads and writes, every address below 2^24, every ROM image",
        why="It holds over histories of accesses to 2^24 addresses behind a lazily allocated two-level table. " + T1,
        files=["src/mem.rs"],
        mechanism=[("memory", "LazyMain::new, with_rom, read, write"), ("several bytes", "read_n, write_n")],
        observe=["MainMemory::read", "MainMemory::write"],
        technique="contract-based deductive verification (Verus and Kani/CBMC): the memory refines a map of addresses, an invariant over all histories",
        note="LazyMain in Verus for all histories, on text extracted from the source on every run; read_n and write_n in Kani for lengths the system uses (4; up to 128).",
    ),
    dict(
        id="C13", title="Page allocation never hands out a page in use and clears reused pages",
        statement="Over every history of allocating and freeing pages, an allocated page is 128 byte aligned, lies above the ROM, is none of the pages in use, and if it was used before it is all zero. Allocating "
        "changes no memory outside of that page; freeing a page makes it available again and changes no memory outside of it.",
        over=["inputs", "histories"],
        text="every history of allocations and frees of pages in use, every memory content, within 24 bits of physical memory",
        why="It is an invariant over histories of any length of a free list kept inside the freed pages. " + T1,
        files=["src/blf4/std_kernel.rs"],
        mechanism=[("allocator", "EKernel::new, allocate_page, free_page")],
        observe=["EKernel::allocate_page"],
        hook="blf4::std_kernel::verif",
        technique="contract-based deductive verification (Verus and Kani/CBMC): ghost free list with an invariant over all histories",
        note="Unbounded in Verus on text extracted from the source on every run; each call also in Kani, bit-precise. Requires that the 24 bits of physical memory are not used up.",
    ),
    dict(
        id="C14", title="A loaded program finds its segments where and with the rights the object says",
        statement="After a program with any number of segments is loaded, each of its bytes is found at its virtual address, every other mapped byte is zero, and a page can be accessed by the user as its segment's type allows "
        "(text: execute, and read if the object says so; rodata: read; data and heap: read and write; others: everything), the heap beyond its initial data and the stack at the end of the address space can be read and written over "
        "the sizes the object or the defaults (0x400 and 0x180) give, and nothing else is mapped but within a page after the heap. Pages that segments share allow what either needs. Tables and pages are pages of physical memory of their own. "
        "The program starts in user mode with virtual memory at its entry, stack and frame at 0xffff.",
        over=["inputs", "histories"],
        text="every object: any set of segments of any type, place and size that fits into the address space, any heap size, stack size, flags and entry",
        why="It quantifies over all objects and all addresses, and sharing of pages and tables between segments is what goes wrong. " + T1,
        files=["src/blf4/std_kernel/load_user_binary.rs", "src/blf4/std_kernel.rs", "src/lib.rs"],
        mechanism=[("loader", "Machine::load_user_binary"), ("segments", "MmapBuilder::add_segment, map_wr_pages"), ("page tables", "MmapBuilder::map")],
        observe=["Machine::load_user_binary"],
        hook="blf4::std_kernel::verif",
        technique="contract-based deductive verification (Verus and Kani/CBMC): page tables as a ghost map, invariants over the segments loaded",
        note="Unbounded in Verus on text extracted from the source on every run; MmapBuilder::map itself bit-precisely in Kani. Segments lie within the 64 KiB of the address space.",
    ),
    dict(
        id="C15", title="System calls act on port 1 and the error handler only; others stop",
        statement="The emulated kernel answers a trap of a user program as follows. System call 0 shows the memory map, 3 reads a byte from port 1 into the low half of register 1, 4 writes the low half of register 2 to port 1, and 15 makes "
        "register 2 the address of the error handler. A trap that is neither a system call nor halt, while an error handler is set, continues at the handler with the trap mode in register 1. In these cases the program goes on in user mode with the trap "
        "flag clear. Halt, other system calls and faults without an error handler stop the program and report its trap. No other register, flag, memory or port changes, and a new kernel has no error handler.",
        over=["inputs", "histories"],
        text="every trap mode, register state, error handler and byte read",
        why="All traps, system call numbers and register contents. " + T1,
        files=["src/blf4/std_kernel.rs"],
        mechanism=[("traps", "impl EmulatedKernel for EKernel: handle_trap"), ("first state", "EKernel::new")],
        observe=["EmulatedKernel::handle_trap"],
        hook="blf4::std_kernel::verif",
        technique=KANI + ": contract of the kernel's trap handling",
        note="Every state and trap, no bound. What showing the memory map prints is not specified.",
    ),
    dict(
        id="C16", title="Object files keep everything that is written to them",
        statement="An object written to a file and read from it again is the same object: its entry, flags, stack size, heap size, every segment with its type, offset and bytes, every symbol with its name, visibility, segment and location, every relocation, all in their "
        "order, and where in the file it begins. What was in the file before that stays as it was, and the object is found when it does not hold the magic. This holds for every object whose sections are each smaller than 64 KiB, whose symbol "
        "names have no zero bytes and whose global names do not begin with a space; writing a section of 64 KiB or more is refused.",
        over=["inputs"],
        text="every object of any number of segments, symbols, relocations and bytes that the format can hold, at every offset",
        why="Every combination of sections of any size, not the one object a test writes. " + T1,
        files=["src/aalv/mod.rs", "src/aalv/obj.rs", "src/aalv/obj/sec_impl.rs"],
        mechanism=[("sections", "Section::read, Section::write"), ("file", "AalvReader, AalvWriter, ReadWindow, CountedWriter"), ("object", "Object::from_file, from_aalv_reader, write_to_file")],
        observe=["Object::write_to_file", "Object::from_file"],
        technique="contract-based deductive verification (Verus): contracts on every function from a section's bytes to Object::write_to_file and from_file, and lemmas that the one is the inverse of the other",
        note="Unbounded, on text extracted from the source on every run. Files and std::io are specified by contracts from their documentation, which are assumed; closing a buffered file is assumed to write it.",
    ),
    dict(
        id="C17", title="Malformed object files are refused, never crash the tools",
        statement="Reading any bytes as an object ends with an object or an error and does not panic. An object is only read where the magic is, from a complete list of sections, and only when every section whose name begins with an underscore is one the format has, no "
        "section but the segments is there twice, no two segments have the same type, and the sections hold complete values with known segment types; what is read then is what the bytes of the sections say.",
        over=["inputs"],
        text="every file",
        why="Every sequence of bytes. " + T1,
        files=["src/aalv/mod.rs", "src/aalv/obj.rs", "src/aalv/obj/sec_impl.rs"],
        mechanism=[("sections", "Section::read"), ("object", "Object::from_aalv_reader"), ("file", "AalvReader, ReadWindow")],
        observe=["Object::from_file"],
        technique="contract-based deductive verification (Verus): postconditions of the readers over any bytes, no panic and termination as obligations",
        note="Unbounded, on text extracted from the source on every run. Bytes after the value of a section of fixed length, and an incomplete last relocation, are ignored by the reader and not specified; std::io is specified by assumed contracts.",
    ),
    dict(
        id="C18", title="Operands are encoded registers first, two to a byte, then the immediate",
        statement="The assembler appends the operands of an instruction to its segment as the instruction set documents: the registers in their order, two to a byte with the first in the upper nibble and the last one of an odd number with a "
        "zero nibble, then the immediate, of a wide the lower byte first. What is in the segment already stays, whatever its length. A label is looked up once, at the position where its value is written and in this segment, and nothing else is looked up. The "
        "size reserved for operands before the labels are placed is the number of bytes they are encoded in.",
        over=["inputs"],
        text="every operand form, register, immediate and label value, after any content of the segment below 64 KiB",
        why="All operand forms, registers and values. " + T1,
        files=["src/source/mod.rs", "src/u4.rs"],
        mechanism=[("encoding", "write_data_operand, parse_wide"), ("size", "DataOperand::size"), ("nibbles", "U4::pair")],
        observe=["write_data_operand"],
        hook="source::verif",
        technique="contract-based deductive verification (Verus and Kani/CBMC): postcondition of the encoder over sequences of bytes",
        note="Unbounded in Verus on text extracted from the source on every run; also bit-precisely in Kani after at most eight bytes (bounded).",
    ),
    dict(
        id="C19", title="Mnemonics assemble to the opcode and operands they are documented for",
        statement="Every mnemonic the assembler knows (null, halt, ctf, syscall, reth, nop, push, pop, call, ret, store, str, load, the conditional jumps with their aliases, ldi, jmp, jump and the arithmetic instructions) with operands that fit one of "
        "its documented forms assembles to the opcode the processor executes as that instruction and form, with its operands in the order of the source; byte and wide forms are chosen by the registers, numbers become immediates of the form's width and labels wide "
        "immediates. Too few operands and operands that fit no form are refused. Any other word is not an instruction.",
        over=["inputs"],
        text="every mnemonic with every combination of operands of every kind and value; every other word of up to eight ASCII characters",
        why="All combinations of mnemonics, operand kinds and values. " + T1,
        files=["src/source/mod.rs", "src/blf4/isa/mod.rs"],
        mechanism=[("mnemonics", "parse_ins"), ("operand forms", "parse_breg_breg_breg, parse_wide_imm and others"), ("opcodes", "isa constants")],
        observe=["parse_ins"],
        hook="source::verif",
        technique=KANI + ": contract of the instruction parser for every mnemonic over arbitrary operands",
        note="Every operand, no bound; words that are no mnemonics up to 8 characters (bounded). Surplus operands where the assembler ignores them, and words of more instructions than it knows, are not specified.",
    ),
    dict(
        id="C20", title="Literals: numbers, characters and escapes have the value they denote",
        statement="A number of decimal digits, or of hexadecimal, octal or binary digits after 0x, 0o or 0b, denotes its value, negated after a minus sign; the suffix b makes it a byte and w a wide, when its value is in range, and without a suffix it is "
        "neither. A character in quotes denotes its byte, with the escapes r, t, n, 0, backslash, both quotes and x with two hexadecimal digits; unfinished and unknown escapes are refused, and so is more than one character in quotes. What does not begin like a "
        "number or a character is a label of exactly that name. No text panics.",
        over=["inputs"],
        text="every number of the lengths that fit a wide, every text of up to five bytes as a character, every ASCII word of up to four characters as a label",
        why="All digits, suffixes, signs and escapes. " + T1,
        files=["src/source/mod.rs"],
        mechanism=[("numbers", "parse_number"), ("characters", "parse_bytechar")],
        observe=["parse_number", "parse_bytechar"],
        hook="source::verif",
        technique=KANI + ": contracts of the literal parsers against the value of digits",
        note="Bounded in the number of digits and characters (a number: up to what fits a wide; a character: all lengths the code distinguishes). One listed finding.",
    ),
    dict(
        id="C21", title="Labels, relocations and the entry hold the addresses of what they name",
        statement="When the assembler accepts a source, every label it defines has the address of the byte that the first line after it gives (the start of its segment and the bytes of the lines before it in that segment), the entry point is the address where it was declared, "
        "and every use of a label, in an instruction or as a word, is the address of the label of exactly that name and has a relocation at the place of that word for it. The lines of each segment are kept in the order of the source, included files where they are included, "
        "and every line counts with the bytes it gives. Segments begin on a page, after the first, do not overlap and end before the end of the address space. A label declared global or reference is exported or left for the linker under its name. "
        "A label defined twice, a label used and neither defined nor declared, a second entry, an unknown directive, segment or instruction, and what does not fit a segment or the address space are refused; nothing is silently wrapped or lost.",
        over=["inputs", "programs"],
        text="every source: any lines in any order and number, any labels, segments and included files",
        why="All programs: the address of a label depends on all the lines before it and the reference on all names. " + T1,
        files=["src/source/mod.rs", "src/source/symbols.rs"],
        mechanism=[("symbols", "Symbols"), ("placement", "process"), ("lines", "inner_process_line"), ("operands", "parse_ins")],
        observe=["ProcessedSource", "SymbolTable", "RelocationTable"],
        technique="contract-based deductive verification (Verus): invariants over the lines of a source and postconditions of the assembler and its symbols",
        note="What `tc` does around these functions (collecting relocations and writing the object) is a closure that changes what it captures, which Verus does not accept: it is run on generated sources (bounded, not proved). How a line of text is divided into its parts is not specified here, only checked on those sources.",
    ),
    dict(
        id="C22", title="The disassembler steps over instructions as the processor does",
        statement="Disassembling at any program counter, of any bytes, reports that the next instruction is after as many bytes as the processor takes for this one (one byte for opcodes that are not instructions), that the instruction ends a block exactly when it does not "
        "continue after itself (halt, reth, ret, jmp and what is no instruction), and a nesting one deeper for call and one less for ret. A label is looked up exactly for a wide immediate, with its value. It fetches no byte after the instruction, writes no "
        "memory, leaves registers, flags and program counter as they are, and reports a fault exactly when one of the instruction's bytes cannot be fetched; it does not panic.",
        over=["inputs", "fault_sequences"],
        text="every instruction and operand at every program counter, register state and flags, with a fault at any byte",
        why="It ranges over all instructions and positions, including the wrap-around at the end of the address space. " + T1,
        files=["src/disassemble.rs", "src/blf4/isa/mod.rs", "src/blf4/isa/handlers.rs"],
        mechanism=[("disassembler", "disassemble_instruction, cjmp, binop, quadop"), ("operands", "arg_pair, arg_imm_byte, arg_imm_wide")],
        observe=["DisassembledInstruction"],
        technique=KANI + ": contract of the disassembler of one instruction, for every opcode",
        note="Every state and instruction, no bound; one listed finding (supervisor instructions). The text is not specified. fetch by contract (C06, C07).",
    ),
]
