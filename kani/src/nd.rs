//! Nondeterminism and obligations, shared by the proofs (Kani) and by the native replay of a
//! counterexample. Under Kani every value is `kani::any()`; natively it is the next value of the
//! counterexample, in the same order.

#[cfg(kani)]
macro_rules! nd_prim {
    ($($n:ident),*) => { $(pub fn $n() -> $n { kani::any() })* };
}
#[cfg(not(kani))]
macro_rules! nd_prim {
    ($($n:ident),*) => { $(pub fn $n() -> $n { $n::from_le_bytes(tape::next()) })* };
}
nd_prim!(u8, u16, u32, u64, usize, i32);

#[cfg(kani)]
pub fn bool() -> bool {
    kani::any()
}
#[cfg(not(kani))]
pub fn bool() -> bool {
    tape::next::<1>()[0] & 1 != 0
}

pub fn u8s<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    let mut i = 0;
    while i < N {
        a[i] = u8();
        i += 1;
    }
    a
}
pub fn u16s<const N: usize>() -> [u16; N] {
    let mut a = [0; N];
    let mut i = 0;
    while i < N {
        a[i] = u16();
        i += 1;
    }
    a
}

#[cfg(not(kani))]
pub mod tape {
    use std::cell::RefCell;
    thread_local! {
        pub static TAPE: RefCell<(Vec<Vec<u8>>, usize)> = RefCell::new((Vec::new(), 0));
        pub static FAILS: RefCell<Vec<String>> = RefCell::new(Vec::new());
        pub static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new());
        /// The state of the generator of values, when they are not those of a counterexample
        pub static RANDOM: RefCell<Option<u64>> = RefCell::new(None);
    }
    fn random() -> Option<u64> {
        RANDOM.with(|r| {
            let r = &mut *r.borrow_mut();
            r.map(|x| {
                let y = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
                *r = Some(y);
                let z = (y ^ y >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                let z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
                z ^ z >> 31
            })
        })
    }
    /// Any value; small, large and round ones more often
    fn value(bytes: usize) -> Option<Vec<u8>> {
        let (r, how) = (random()?, random()?);
        let max = if bytes == 8 { u64::MAX } else { (1 << 8 * bytes) - 1 };
        let v = match how % 8 {
            0 => r % 3,
            1 => r % 16,
            2 => max - r % 3,
            3 => (1u64 << r % (8 * bytes as u64)).wrapping_sub(how >> 8 & 1),
            4 => r & 0xff,
            _ => r,
        } & max;
        Some(v.to_le_bytes()[..bytes].to_vec())
    }
    pub fn next<const N: usize>() -> [u8; N] {
        TAPE.with(|t| {
            let t = &mut *t.borrow_mut();
            let mut out = [0; N];
            if t.1 == t.0.len() {
                t.0.extend(value(N));
            }
            if let Some(v) = t.0.get(t.1) {
                for (o, b) in out.iter_mut().zip(v) {
                    *o = *b;
                }
            }
            t.1 += 1;
            out
        })
    }
    pub fn fail(msg: &str) {
        FAILS.with(|f| f.borrow_mut().push(msg.to_string()));
    }
    pub struct AssumptionNotMet;
}

/// An obligation: under Kani a named assertion, natively a recorded failure.
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        {
            kani::assert($c, concat!("OBL ", $m));
        }
        #[cfg(not(kani))]
        {
            if !$c {
                $crate::nd::tape::fail(concat!("OBL ", $m));
            }
        }
    }};
}
/// A precondition.
#[macro_export]
macro_rules! assume {
    ($c:expr) => {{
        #[cfg(kani)]
        {
            kani::assume($c);
        }
        #[cfg(not(kani))]
        {
            if !$c {
                std::panic::panic_any($crate::nd::tape::AssumptionNotMet);
            }
        }
    }};
}
/// A reachability obligation (the guard against vacuous proofs): it has to be satisfiable.
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        {
            kani::cover!($c, $m);
        }
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    }};
}

/// Declares proofs: `name, unwind, [stub => with, ...] { body }`
#[macro_export]
macro_rules! proofs {
    ($($name:ident, $unwind:literal, [$($from:path => $to:path),* $(,)?] $body:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            $(#[cfg_attr(kani, kani::stub($from, $to))])*
            pub fn $name() $body
        )*
        pub const PROOFS: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}
