//! Model of `bendy`'s decoding: a decoder yields the objects of an abstract bencode tree that
//! the harness provides (`vp::Tree`) instead of tokens of a byte string; every well-formed
//! byte string has such a tree. Dictionaries yield their pairs in order, each once.
pub mod vp {
    /// A bencode object. One flat record: the model checker tracks fields better than variants.
    #[derive(Clone, Copy)]
    pub struct Tree { pub kind: u8, pub num: u64, pub bytes: *const u8, pub len: usize, pub keys: *const &'static [u8], pub items: *const Tree, pub count: usize }
    pub const INT: u8 = 0;
    pub const BYTES: u8 = 1;
    pub const LIST: u8 = 2;
    pub const DICT: u8 = 3;
    const NONE: Tree = Tree { kind: INT, num: 0, bytes: core::ptr::null(), len: 0, keys: core::ptr::null(), items: core::ptr::null(), count: 0 };
    pub fn int(num: u64) -> Tree { Tree { kind: INT, num, ..NONE } }
    pub fn bytes(b: &[u8]) -> Tree { Tree { kind: BYTES, bytes: b.as_ptr(), len: b.len(), ..NONE } }
    pub fn list(items: &[Tree]) -> Tree { Tree { kind: LIST, items: items.as_ptr(), count: items.len(), ..NONE } }
    /// `raw` stands for the bytes the dictionary was decoded from.
    pub fn dict(keys: &[&'static [u8]], items: &[Tree], raw: &[u8]) -> Tree {
        assert!(keys.len() == items.len());
        Tree { kind: DICT, keys: keys.as_ptr(), items: items.as_ptr(), count: items.len(), bytes: raw.as_ptr(), len: raw.len(), ..NONE }
    }
    /// What byte strings decode to (by address): set by the harness.
    pub struct Known { pub magic: u128, pub n: usize, pub raw: [*const u8; 4], pub tree: [*const Tree; 4] }
    pub static mut KNOWN: Known = Known { magic: 0x7670_5f62_656e_6479_0000_0000_0000_0001, n: 0, raw: [core::ptr::null(); 4], tree: [core::ptr::null(); 4] };
    #[allow(static_mut_refs)]
    pub fn register(raw: &[u8], tree: &Tree) { unsafe { let k = &mut KNOWN; k.raw[k.n] = raw.as_ptr(); k.tree[k.n] = tree; k.n += 1; } }
}
pub mod decoding {
    use crate::vp::{self, Tree};
    pub struct Error(());
    impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("bencode error") } }
    impl core::fmt::Display for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("bencode error") } }
    impl std::error::Error for Error {}
    impl Error {
        pub fn missing_field<D>(d: D) -> Error { core::mem::forget(d); Error(()) }
        pub fn unexpected_field<D>(d: D) -> Error { core::mem::forget(d); Error(()) }
        pub fn unexpected_token<A, B>(a: A, b: B) -> Error { core::mem::forget(a); core::mem::forget(b); Error(()) }
        pub fn malformed_content<E>(e: E) -> Error { core::mem::forget(e); Error(()) }
        pub fn context<D>(self, d: D) -> Error { core::mem::forget(d); self }
    }
    impl From<std::string::FromUtf8Error> for Error { fn from(e: std::string::FromUtf8Error) -> Self { core::mem::forget(e); Error(()) } }
    pub trait ResultExt { fn context<D>(self, d: D) -> Self; }
    impl<T> ResultExt for Result<T, Error> { fn context<D>(self, d: D) -> Self { core::mem::forget(d); self } }

    pub struct Decoder<'ser> { src: &'ser [u8], done: bool }
    impl<'ser> Decoder<'ser> {
        pub fn new(src: &'ser [u8]) -> Self { Decoder { src, done: false } }
        pub fn with_max_depth(self, _d: usize) -> Self { self }
        #[allow(static_mut_refs)]
        pub fn next_object<'obj>(&'obj mut self) -> Result<Option<Object<'obj, 'ser>>, Error> {
            if self.done || self.src.is_empty() { return Ok(None); }
            self.done = true;
            let k = unsafe { &vp::KNOWN };
            let mut i = 0;
            while i < k.n {
                if k.raw[i] == self.src.as_ptr() { return Ok(Some(Object::of(unsafe { &*k.tree[i] }))); }
                i += 1;
            }
            panic!("vp-model: a byte string the model has no tree for")
        }
    }
    pub enum Object<'obj, 'ser: 'obj> { List(ListDecoder<'obj, 'ser>), Dict(DictDecoder<'obj, 'ser>), Integer(&'ser str), Bytes(&'ser [u8]), Tree(&'ser Tree, core::marker::PhantomData<&'obj ()>) }
    impl<'obj, 'ser: 'obj> Object<'obj, 'ser> {
        pub fn of(t: &'ser Tree) -> Self { Object::Tree(t, core::marker::PhantomData) }
        fn tree(self) -> &'ser Tree { match self { Object::Tree(t, _) => t, _ => panic!("vp-model: object not made by the model") } }
        pub fn try_into_dictionary(self) -> Result<DictDecoder<'obj, 'ser>, Error> {
            let t = self.tree();
            if t.kind != vp::DICT { return Err(Error(())); }
            Ok(DictDecoder { t, at: 0, p: core::marker::PhantomData })
        }
        pub fn try_into_list(self) -> Result<ListDecoder<'obj, 'ser>, Error> {
            let t = self.tree();
            if t.kind != vp::LIST { return Err(Error(())); }
            Ok(ListDecoder { t, at: 0, p: core::marker::PhantomData })
        }
        pub fn try_into_bytes(self) -> Result<&'ser [u8], Error> {
            let t = self.tree();
            if t.kind != vp::BYTES { return Err(Error(())); }
            Ok(unsafe { core::slice::from_raw_parts(t.bytes, t.len) })
        }
        fn num(self) -> Result<u64, Error> {
            let t = self.tree();
            if t.kind != vp::INT { return Err(Error(())); }
            Ok(t.num)
        }
    }
    pub struct DictDecoder<'obj, 'ser: 'obj> { t: &'ser Tree, at: usize, p: core::marker::PhantomData<&'obj ()> }
    impl<'obj, 'ser: 'obj> DictDecoder<'obj, 'ser> {
        pub fn next_pair<'item>(&'item mut self) -> Result<Option<(&'ser [u8], Object<'item, 'ser>)>, Error> {
            if self.at == self.t.count { return Ok(None); }
            let i = self.at;
            self.at += 1;
            Ok(Some(unsafe { (*self.t.keys.add(i), Object::of(&*self.t.items.add(i))) }))
        }
        pub fn consume_all(&mut self) -> Result<(), Error> { self.at = self.t.count; Ok(()) }
        pub fn into_raw(self) -> Result<&'ser [u8], Error> { Ok(unsafe { core::slice::from_raw_parts(self.t.bytes, self.t.len) }) }
    }
    pub struct ListDecoder<'obj, 'ser: 'obj> { t: &'ser Tree, at: usize, p: core::marker::PhantomData<&'obj ()> }
    impl<'obj, 'ser: 'obj> ListDecoder<'obj, 'ser> {
        pub fn next_object<'item>(&'item mut self) -> Result<Option<Object<'item, 'ser>>, Error> {
            if self.at == self.t.count { return Ok(None); }
            let i = self.at;
            self.at += 1;
            Ok(Some(Object::of(unsafe { &*self.t.items.add(i) })))
        }
        pub fn consume_all(&mut self) -> Result<(), Error> { self.at = self.t.count; Ok(()) }
    }
    pub trait FromBencode: Sized {
        const EXPECTED_RECURSION_DEPTH: usize = 2048;
        fn from_bencode(bytes: &[u8]) -> Result<Self, Error> {
            let mut d = Decoder::new(bytes);
            match d.next_object()? { Some(o) => Self::decode_bencode_object(o), None => Err(Error(())) }
        }
        fn decode_bencode_object(object: Object) -> Result<Self, Error>;
    }
    macro_rules! ints { ($($t:ty)*) => { $( impl FromBencode for $t {
        fn decode_bencode_object(object: Object) -> Result<Self, Error> { <$t>::try_from(object.num()?).map_err(|_| Error(())) }
    } )* } }
    ints! { u8 u16 u32 u64 usize i64 }
    fn copy(b: &[u8]) -> Vec<u8> {
        // never dropped with a smaller capacity than it was made with
        let mut v = Vec::with_capacity(b.len());
        unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr(), b.len()); v.set_len(b.len()); }
        v
    }
    /// The harness makes sure that strings are UTF-8 (bendy refuses others).
    impl FromBencode for String {
        fn decode_bencode_object(object: Object) -> Result<Self, Error> { Ok(unsafe { String::from_utf8_unchecked(copy(object.try_into_bytes()?)) }) }
    }
    impl FromBencode for crate::encoding::AsString<Vec<u8>> {
        fn decode_bencode_object(object: Object) -> Result<Self, Error> { Ok(crate::encoding::AsString(copy(object.try_into_bytes()?))) }
    }
    impl<T: FromBencode> FromBencode for Vec<T> {
        fn decode_bencode_object(object: Object) -> Result<Self, Error> {
            let mut l = object.try_into_list()?;
            let mut v: Vec<T> = Vec::with_capacity(l.t.count);
            while let Some(o) = l.next_object()? {
                let x = T::decode_bencode_object(o)?;
                let n = v.len();
                if n == v.capacity() { panic!("vp-model: list outgrew the capacity of the model"); }
                unsafe { core::ptr::write(v.as_mut_ptr().add(n), x); v.set_len(n + 1); }
            }
            Ok(v)
        }
    }
}
pub mod encoding {
    pub struct AsString<I>(pub I);
}
pub mod serde {
    use crate::decoding::Error;
    pub fn to_bytes<T: serde::Serialize + ?Sized>(_v: &T) -> Result<Vec<u8>, Error> { panic!("vp-model: encoding is not modelled") }
    pub fn from_bytes<'de, T: serde::Deserialize<'de>>(_b: &'de [u8]) -> Result<T, Error> { panic!("vp-model: serde decoding is not modelled") }
}
