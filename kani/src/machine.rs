//! The machine: one instruction at a time, traps that nobody handles stop it.

use telda2::machine::{Cpu, EmulatedKernel, Machine};
use telda2::mem::MainMemory;

use crate::nd;
use crate::{check, reach};

struct Mem {
    tag: u8,
}
impl MainMemory for Mem {
    fn read(&mut self, _: u32) -> u8 {
        self.tag
    }
    fn write(&mut self, _: u32, _: u8) {
        self.tag = self.tag.wrapping_add(1);
    }
}

/// Any processor: what it answers is arbitrary, what it was called with is recorded
struct Any {
    runs: u32,
    /// (answered trap?, trap mode) per instruction
    trap: [bool; 4],
    mode: [u8; 4],
    saw: u8,
    touched: u32,
}
impl Cpu for Any {
    type TrapMode = u8;
    fn execute_instruction<M: MainMemory>(&mut self, m: &mut M) -> Result<(), u8> {
        let i = (self.runs as usize) & 3;
        self.runs += 1;
        self.saw = m.read(0);
        if self.trap[i] {
            Err(self.mode[i])
        } else {
            Ok(())
        }
    }
}
/// Any kernel
struct Kernel {
    fail: bool,
    mode: u8,
    tag: u8,
}
static mut CALLS: u32 = 0;
static mut GOT: u8 = 0;
static mut SEEN: u8 = 0;
static mut TAG: u8 = 0;
impl EmulatedKernel<Any> for Kernel {
    fn handle_trap(
        &mut self,
        tm: u8,
        cpu: &mut Any,
        mem: &mut dyn MainMemory,
    ) -> Result<(), u8> {
        unsafe {
            CALLS += 1;
            GOT = tm;
            SEEN = mem.read(0);
            TAG = self.tag;
        }
        cpu.touched += 1;
        mem.write(0, 0);
        if self.fail {
            Err(self.mode)
        } else {
            Ok(())
        }
    }
}
fn any_cpu() -> Any {
    Any {
        runs: 0,
        trap: [nd::bool(), nd::bool(), nd::bool(), nd::bool()],
        mode: nd::u8s::<4>(),
        saw: 0,
        touched: 0,
    }
}

fn once(kernel: bool) {
    unsafe { CALLS = 0 };
    let tag = nd::u8();
    let cpu = any_cpu();
    let (trap, mode) = (cpu.trap[0], cpu.mode[0]);
    let mut m = Machine::new(Mem { tag }, cpu);
    let k = Kernel {
        fail: nd::bool(),
        mode: nd::u8(),
        tag: nd::u8(),
    };
    let (kfail, kmode, ktag) = (k.fail, k.mode, k.tag);
    if kernel {
        if nd::bool() {
            // a kernel that is replaced is not asked any more
            let had = m.install_emulated_kernel(Kernel {
                fail: true,
                mode: 1,
                tag: !ktag,
            });
            check!(!had, "no kernel is installed at first");
            let had = m.install_emulated_kernel(k);
            check!(had, "installing a kernel says if it replaced one");
        } else {
            check!(!m.install_emulated_kernel(k), "no kernel is installed at first");
        }
    }
    let r = m.execute_once();
    let calls = unsafe { CALLS };
    check!(m.cpu.runs == 1, "one step executes one instruction");
    check!(m.cpu.saw == tag, "the processor works on the machine's memory");
    if !trap {
        check!(r.is_ok() && calls == 0, "an instruction that does not trap is not handled");
        check!(m.memory.tag == tag && m.cpu.touched == 0, "a step changes nothing itself");
        reach!(true, "no trap");
    } else if !kernel {
        match r {
            Ok(()) => {
                check!(false, "a trap nobody handles is reported");
            }
            Err(tm) => {
                check!(tm == mode, "a trap nobody handles is reported with its mode");
            }
        }
        check!(m.memory.tag == tag, "a step changes nothing itself");
        reach!(true, "unhandled");
    } else {
        check!(calls == 1, "the kernel handles a trap once");
        unsafe {
            check!(GOT == mode, "the kernel gets the trap mode");
            check!(TAG == ktag, "the kernel installed last handles the trap");
            check!(
                SEEN == tag && m.memory.tag == tag.wrapping_add(1) && m.cpu.touched == 1,
                "the kernel works on the machine's processor and memory"
            );
        }
        match r {
            Ok(()) => {
                check!(!kfail, "a trap the kernel does not handle is reported");
            }
            Err(tm) => {
                check!(kfail && tm == kmode, "the kernel decides if the machine goes on");
            }
        }
        reach!(kfail, "not handled");
        reach!(!kfail, "handled");
    }
}

/// Up to three instructions before the trap
fn run(kernel: bool) {
    unsafe { CALLS = 0 };
    let mut cpu = any_cpu();
    cpu.trap[3] = true;
    let (trap, mode) = (cpu.trap, cpu.mode);
    let mut m = Machine::new(Mem { tag: 0 }, cpu);
    let kmode = nd::u8();
    if kernel {
        m.install_emulated_kernel(Kernel {
            fail: true,
            mode: kmode,
            tag: 0,
        });
    }
    let r = m.run_until_abort();
    let mut first = 0;
    while !trap[first] {
        first += 1;
    }
    check!(m.cpu.runs as usize == first + 1, "the machine runs to the first trap nobody handles");
    check!(r == if kernel { kmode } else { mode[first] }, "and stops with the mode of that trap");
    reach!(first == 0, "at once");
    reach!(first == 3, "after three");
}

crate::proofs! {
    machine_once, 6, [] { once(false); }
    machine_once_kernel, 6, [] { once(true); }
    machine_run, 6, [] { run(false); }
    machine_run_kernel, 6, [] { run(true); }
}
