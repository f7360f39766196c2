// Shared by the hook files: where the inputs of a contract come from.
//
// A contract harness is a generic function over `Src`.  Under Kani every value is fully symbolic; natively the values are
// read from a stream of bytes (a seeded generator during a search, the recorded bytes during a replay), each little endian,
// in the order of the calls, which is also the order in which Kani prints the values of a counterexample.

#[allow(dead_code)]
pub(crate) trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn usize(&mut self) -> usize;
    fn assume(&mut self, b: bool);
    fn flag(&mut self) -> bool {
        let b = self.u8();
        b & 1 == 1
    }
    /// A number: below `small`, now and then any other.
    fn limit(&mut self, small: usize) -> usize {
        let k = self.u8();
        if k % 16 != 13 { return k as usize % small; }
        self.u32() as usize
    }
    /// A size: below `small`, now and then just around a power of two, or any other.
    fn size(&mut self, small: usize) -> usize {
        let k = self.u8();
        if k % 64 == 18 || k % 64 == 50 {
            let v = self.u16() as usize;
            return if v < 300 || v % 5000 < 600 && self.u8() % 16 == 0 { v % 5000 } else { v % 70 };
        }
        if k % 64 != 17 { return k as usize % small; }
        let k = self.u8();
        (1_usize << (4 + k % 6)) + (k as usize >> 4) % 5 - 2
    }
    fn words(&mut self) -> [u64; 4] {
        [self.u64(), self.u64(), self.u64(), self.u64()]
    }
}

#[cfg(kani)]
pub(crate) struct Sym;

#[cfg(kani)]
impl Src for Sym {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn usize(&mut self) -> usize { kani::any() }
    fn assume(&mut self, b: bool) { kani::assume(b) }
}

#[cfg(not(kani))]
pub(crate) struct Bytes<'a>(pub(crate) &'a mut dyn FnMut() -> u8);

#[cfg(not(kani))]
impl<'a> Src for Bytes<'a> {
    fn u8(&mut self) -> u8 { (self.0)() }
    fn u16(&mut self) -> u16 { let mut a = [0; 2]; for x in a.iter_mut() { *x = (self.0)(); } u16::from_le_bytes(a) }
    fn u32(&mut self) -> u32 { let mut a = [0; 4]; for x in a.iter_mut() { *x = (self.0)(); } u32::from_le_bytes(a) }
    fn u64(&mut self) -> u64 { let mut a = [0; 8]; for x in a.iter_mut() { *x = (self.0)(); } u64::from_le_bytes(a) }
    fn usize(&mut self) -> usize { self.u64() as usize }
    fn assume(&mut self, b: bool) { if !b { std::panic::panic_any("VERIF_SKIP") } }
}

/// Declares the contract harnesses of a hook: `contracts! { entry; name [unwind]; ... }` generates a Kani proof
/// per contract and one natively callable entry point that runs a contract by name (false: no such contract).
#[allow(unused_macros)]
macro_rules! contracts {
    ($entry:ident; $($name:ident [$unwind:literal];)*) => {
        #[cfg(kani)]
        pub(crate) mod proofs {
            use super::Sym;
            $( #[kani::proof] #[kani::unwind($unwind)] fn $name() { super::$name(&mut Sym) } )*
        }
        #[cfg(not(kani))]
        #[no_mangle]
        pub fn $entry(name: &str, next: &mut dyn FnMut() -> u8) -> bool {
            let mut s = Bytes(next);
            match name {
                $( stringify!($name) => $name(&mut s), )*
                _ => return false,
            }
            true
        }
    };
}
