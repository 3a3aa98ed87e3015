#![allow(static_mut_refs)]
#[macro_use]
pub mod nd;
pub mod cpu;

/// Declares the modules with proofs
macro_rules! modules {
    ($($m:ident),*) => {
        $(pub mod $m;)*
        /// All proofs, for the native replay of a counterexample
        pub fn all_proofs() -> Vec<(String, fn())> {
            let mut v = Vec::new();
            $(for (n, f) in $m::PROOFS {
                v.push((format!("{}::{}", stringify!($m), n), *f));
            })*
            v
        }
    };
}
modules!(ins, trap, all, mmu, regs, machine, mem, alloc, kernel, syscall, asm, lit, disasm);
