//! A tiny binary codec: carries reports from the simulated process to the checking process.
pub trait Codec: Sized {
    fn put(&self, o: &mut Vec<u8>);
    fn get(i: &mut &[u8]) -> Self;
}
macro_rules! num { ($($t:ty),*) => { $(impl Codec for $t {
    fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()); }
    fn get(i: &mut &[u8]) -> Self {
        let n = std::mem::size_of::<$t>();
        let (a, b) = i.split_at(n); *i = b;
        <$t>::from_le_bytes(a.try_into().unwrap())
    }
})* } }
num!(u8, u16, u32, u64, i32, i64, usize, f64);
impl Codec for bool {
    fn put(&self, o: &mut Vec<u8>) { o.push(*self as u8) }
    fn get(i: &mut &[u8]) -> Self { u8::get(i) != 0 }
}
impl Codec for String {
    fn put(&self, o: &mut Vec<u8>) { self.len().put(o); o.extend_from_slice(self.as_bytes()); }
    fn get(i: &mut &[u8]) -> Self {
        let n = usize::get(i);
        let (a, b) = i.split_at(n); *i = b;
        String::from_utf8_lossy(a).into_owned()
    }
}
impl<T: Codec> Codec for Vec<T> {
    fn put(&self, o: &mut Vec<u8>) { self.len().put(o); for x in self { x.put(o) } }
    fn get(i: &mut &[u8]) -> Self { let n = usize::get(i); (0..n).map(|_| T::get(i)).collect() }
}
impl<T: Codec> Codec for Option<T> {
    fn put(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(x) => { o.push(1); x.put(o) } } }
    fn get(i: &mut &[u8]) -> Self { if u8::get(i) == 0 { None } else { Some(T::get(i)) } }
}
impl<A: Codec, B: Codec> Codec for (A, B) {
    fn put(&self, o: &mut Vec<u8>) { self.0.put(o); self.1.put(o) }
    fn get(i: &mut &[u8]) -> Self { let a = A::get(i); let b = B::get(i); (a, b) }
}
#[macro_export]
macro_rules! codec_struct {
    ($t:ident { $($f:ident),* $(,)? }) => {
        impl $crate::codec::Codec for $t {
            fn put(&self, o: &mut Vec<u8>) { $( $crate::codec::Codec::put(&self.$f, o); )* }
            fn get(i: &mut &[u8]) -> Self { $( let $f = $crate::codec::Codec::get(i); )* $t { $($f),* } }
        }
    };
}
