//! Concatenation in place of `format!` (tools/deasync.py: formats).
pub fn vp_string(n: usize) -> String { String::with_capacity(n) }
pub trait Show { fn vp_show(&self, s: &mut String); }
impl Show for str {
    fn vp_show(&self, s: &mut String) {
        let (n, m) = (s.len(), self.len());
        if m > s.capacity() - n { panic!("vp-model: string outgrew the capacity of the model"); }
        unsafe {
            let v = s.as_mut_vec();
            ::std::ptr::copy_nonoverlapping(self.as_ptr(), v.as_mut_ptr().add(n), m);
            v.set_len(n + m);
        }
    }
}
impl Show for String { fn vp_show(&self, s: &mut String) { self.as_str().vp_show(s) } }
impl<T: Show + ?Sized> Show for &T { fn vp_show(&self, s: &mut String) { (**self).vp_show(s) } }
macro_rules! ints { ($($t:ty)*) => { $( impl Show for $t {
    fn vp_show(&self, s: &mut String) { if *self >= 10 { (*self / 10).vp_show(s); } s.push((b'0' + (*self % 10) as u8) as char); }
} )* } }
ints! { u8 u16 u32 u64 usize }
