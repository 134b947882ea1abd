//! Model of `openssl::sha`: SHA-1 is an uninterpreted function of the bytes it is given: equal
//! inputs give equal digests, an input not seen before gives an arbitrary digest that differs
//! from the digests of the other inputs seen so far (no collision is found at run time).
//! Inputs of up to BUF bytes, up to three different ones; more is reported as "vp-model".
pub mod sha {
    pub const BUF: usize = 64;
    #[repr(C, align(16))]
    #[derive(Clone, Copy)]
    struct Buf([u8; BUF]);
    #[derive(Clone)]
    pub struct Sha1 { buf: Buf, n: usize }
    impl Sha1 {
        pub fn new() -> Self { Sha1 { buf: Buf([0; BUF]), n: 0 } }
        pub fn update(&mut self, b: &[u8]) {
            if b.len() > BUF - self.n { panic!("vp-model: input of the hash model too long"); }
            unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), self.buf.0.as_mut_ptr().add(self.n), b.len()) }
            self.n += b.len();
        }
        pub fn finish(self) -> [u8; 20] { lookup(self) }
    }
    impl Default for Sha1 { fn default() -> Self { Self::new() } }
    pub fn sha1(data: &[u8]) -> [u8; 20] {
        let mut s = Sha1::new();
        s.update(data);
        s.finish()
    }

    struct Seen { magic: u128, n: usize, i: [Sha1; 3], d: [[u8; 20]; 3] }
    static mut SEEN: Seen = Seen { magic: 0x7670_5f73_6861_315f_7365_656e_0000_0001, n: 0, i: [const { Sha1 { buf: Buf([0; BUF]), n: 0 } }; 3], d: [[0; 20]; 3] };
    fn words(b: &Buf) -> [u128; 4] { unsafe { core::mem::transmute_copy(b) } }
    fn same(a: &Sha1, b: &Sha1) -> bool {
        let (x, y) = (words(&a.buf), words(&b.buf));
        a.n == b.n && x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3]
    }
    fn d3(d: &[u8; 20]) -> (u128, u32) {
        unsafe { (core::ptr::read_unaligned(d.as_ptr() as *const u128), core::ptr::read_unaligned(d.as_ptr().add(16) as *const u32)) }
    }
    #[allow(static_mut_refs)]
    fn lookup(s: Sha1) -> [u8; 20] {
        let t = unsafe { &mut SEEN };
        if t.n > 0 && same(&t.i[0], &s) { return t.d[0]; }
        if t.n > 1 && same(&t.i[1], &s) { return t.d[1]; }
        if t.n > 2 && same(&t.i[2], &s) { return t.d[2]; }
        if t.n > 2 { panic!("vp-model: more inputs than the hash model holds"); }
        let d = fresh();
        #[cfg(kani)]
        {
            if t.n > 0 { kani::assume(d3(&d) != d3(&t.d[0])); }
            if t.n > 1 { kani::assume(d3(&d) != d3(&t.d[1])); }
        }
        t.i[t.n] = s;
        t.d[t.n] = d;
        t.n += 1;
        d
    }
    #[cfg(kani)]
    fn fresh() -> [u8; 20] { kani::any() }
    #[cfg(not(kani))]
    fn fresh() -> [u8; 20] { let mut d = [0; 20]; d[0] = 1 + unsafe { SEEN.n } as u8; d }
}
