//! The source of the universally quantified variables of an obligation.
//!
//! Under Kani every variable is symbolic (`kani::any`), so that a harness covers all of its values.
//! Natively the same obligation runs on concrete choices: to replay the verifier's counterexample
//! on the real code, and to look for a failing input when the verifier gives none.

pub trait Gen {
    /// Any value in `0..n`
    fn int(&mut self, n: u32) -> u32;
    /// Only inputs that satisfy `condition` are considered from here on (a precondition)
    fn assume(&mut self, condition: bool);
    /// A point that has to be reachable (guards against contradictory preconditions)
    fn reached(&mut self);

    fn flag(&mut self) -> bool {
        self.int(2) == 1
    }
    fn index(&mut self, n: usize) -> usize {
        self.int(n as u32) as usize
    }
}

#[cfg(kani)]
pub struct Symbolic;

#[cfg(kani)]
impl Gen for Symbolic {
    fn int(&mut self, n: u32) -> u32 {
        let x: u32 = kani::any();
        kani::assume(x < n);
        x
    }
    fn assume(&mut self, condition: bool) {
        kani::assume(condition);
    }
    fn reached(&mut self) {
        kani::cover!(true, "precondition is satisfiable");
    }
}

/// Payload of the panic of an input outside of a precondition
pub struct Discarded;

/// Concrete choices: a prefix that is given, and then `next`
pub struct Concrete {
    pub choices: Vec<u32>,
    pub bounds: Vec<u32>,
    pub position: usize,
    pub next: Next,
    pub reached: bool,
}

pub enum Next {
    Zero,
    Random(u64),
}

impl Concrete {
    pub fn new(choices: Vec<u32>, next: Next) -> Self {
        Self {
            choices,
            bounds: Vec::new(),
            position: 0,
            next,
            reached: false,
        }
    }
}

impl Gen for Concrete {
    fn int(&mut self, n: u32) -> u32 {
        let i = self.position;
        self.position += 1;
        self.bounds.push(n);
        if i >= self.choices.len() {
            let x = match &mut self.next {
                Next::Zero => 0,
                Next::Random(state) => {
                    // splitmix64
                    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                    let mut z = *state;
                    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                    ((z ^ (z >> 31)) >> 16) as u32 % n
                }
            };
            self.choices.push(x);
        }
        if self.choices[i] >= n {
            self.choices[i] %= n;
        }
        self.choices[i]
    }
    fn assume(&mut self, condition: bool) {
        if !condition {
            std::panic::panic_any(Discarded);
        }
    }
    fn reached(&mut self) {
        self.reached = true;
    }
}

/// An obligation, as run natively
pub struct Obligation {
    pub name: &'static str,
    pub run: fn(&mut Concrete),
}

/// Declares obligations: one Kani harness each, and an entry in the table of native replays.
#[macro_export]
macro_rules! obligations {
    ($(
        $(#[doc = $doc:literal])*
        #[unwind($unwind:literal)]
        $(#[stub($($stub:tt)*)])*
        fn $name:ident($g:ident) $body:block
    )*) => {
        $(
            $(#[doc = $doc])*
            pub fn $name<G: $crate::choice::Gen>($g: &mut G) $body
        )*

        #[cfg(kani)]
        mod harness {
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                $(#[cfg_attr(not(feature = "without_stubs"), kani::stub($($stub)*))])*
                fn $name() {
                    super::$name(&mut $crate::choice::Symbolic);
                    kani::cover!(true, "the end of the obligation is reachable");
                }
            )*
        }

        pub fn table() -> Vec<$crate::choice::Obligation> {
            vec![$($crate::choice::Obligation { name: stringify!($name), run: $name::<$crate::choice::Concrete> }),*]
        }
    };
}

/// Obligations that only run natively, on many inputs: bounded stand-ins, and the source of failing inputs
/// for what Verus rejects.
#[macro_export]
macro_rules! probes {
    ($(
        $(#[doc = $doc:literal])*
        fn $name:ident($g:ident) $body:block
    )*) => {
        $(
            $(#[doc = $doc])*
            pub fn $name<G: $crate::choice::Gen>($g: &mut G) $body
        )*

        pub fn probe_table() -> Vec<$crate::choice::Obligation> {
            vec![$($crate::choice::Obligation { name: stringify!($name), run: $name::<$crate::choice::Concrete> }),*]
        }
    };
}
