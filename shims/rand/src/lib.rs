//! Model of `rand`: the generator returns arbitrary (symbolic) bits; shuffling yields an
//! arbitrary permutation, choosing an arbitrary element. Distributions that are not
//! overridden here are the real crate's, fed by the arbitrary bits.
pub use rand_real::{distributions, CryptoRng, Error, Rng, RngCore, SeedableRng};
pub mod rngs { pub use crate::ThreadRng; pub use rand_real::rngs::{OsRng, StdRng}; }
pub mod prelude { pub use crate::{random, thread_rng, ThreadRng, Rng, RngCore, seq::*}; pub use crate::distributions::Distribution; }

#[derive(Clone, Debug, Default)]
pub struct ThreadRng(());
#[cfg(kani)] fn any32() -> u32 { kani::any() }
#[cfg(kani)] fn any8() -> u8 { kani::any() }
#[cfg(not(kani))] fn any32() -> u32 { 0 }
#[cfg(not(kani))] fn any8() -> u8 { 0 }
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { any32() }
    fn next_u64(&mut self) -> u64 { ((any32() as u64) << 32) | any32() as u64 }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = any8(); } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for ThreadRng {}
pub fn thread_rng() -> ThreadRng { ThreadRng(()) }
pub fn random<T>() -> T where distributions::Standard: distributions::Distribution<T> { thread_rng().gen() }

fn below(n: usize) -> usize { if n <= 1 { 0 } else { any32() as usize % n } }
pub mod seq {
    use super::below;
    pub trait SliceRandom {
        type Item;
        fn choose<R: ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
        fn choose_mut<R: ?Sized>(&mut self, rng: &mut R) -> Option<&mut Self::Item>;
        fn shuffle<R: ?Sized>(&mut self, rng: &mut R);
        fn choose_multiple<R: ?Sized>(&self, rng: &mut R, amount: usize) -> std::vec::IntoIter<&Self::Item>;
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: ?Sized>(&self, _r: &mut R) -> Option<&T> { if self.is_empty() { None } else { Some(&self[below(self.len())]) } }
        fn choose_mut<R: ?Sized>(&mut self, _r: &mut R) -> Option<&mut T> { if self.is_empty() { None } else { let i = below(self.len()); Some(&mut self[i]) } }
        fn shuffle<R: ?Sized>(&mut self, _r: &mut R) {
            let mut i = self.len();
            while i > 1 { i -= 1; let j = below(i + 1); self.swap(i, j); }
        }
        fn choose_multiple<R: ?Sized>(&self, r: &mut R, amount: usize) -> std::vec::IntoIter<&T> {
            let mut v: Vec<&T> = self.iter().collect();
            v.shuffle(r);
            v.truncate(amount);
            v.into_iter()
        }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: ?Sized>(self, _r: &mut R) -> Option<Self::Item> {
            let mut v: Vec<Self::Item> = self.collect();
            if v.is_empty() { None } else { let i = below(v.len()); Some(v.swap_remove(i)) }
        }
        fn choose_multiple<R: ?Sized>(self, r: &mut R, amount: usize) -> Vec<Self::Item> {
            let mut v: Vec<Self::Item> = self.collect();
            v.shuffle(r);
            v.truncate(amount);
            v
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}
