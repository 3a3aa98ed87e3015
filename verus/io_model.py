"""Stand-ins for std::io and strings, shared by the jobs about object files. Everything here that is external_body
or assumed is listed under TRUSTED."""

PRELUDE = """
use vstd::utf8::*;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { UnexpectedEof, InvalidData, InvalidInput, Other }
pub mod io {
    use vstd::prelude::*;
    use vstd::utf8::*;
    pub use super::ErrorKind;
    pub struct Error { pub k: ErrorKind }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        pub fn new(k: ErrorKind, _m: &str) -> (r: Error) ensures r.k == k { Error { k } }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
    }
    pub open spec fn after(data: Seq<u8>, pos: int) -> Seq<u8> {
        if 0 <= pos <= data.len() { data.skip(pos) } else { seq![] }
    }
    // what is at pos of data is b
    pub open spec fn has(data: Seq<u8>, pos: int, b: Seq<u8>) -> bool {
        0 <= pos && pos + b.len() <= data.len() && data.subrange(pos, pos + b.len()) =~= b
    }
    // b written over data at pos
    pub closed spec fn over(data: Seq<u8>, pos: int, b: Seq<u8>) -> Seq<u8> {
        if pos + b.len() < data.len() { data.take(pos) + b + data.skip(pos + b.len()) } else { data.take(pos) + b }
    }
    pub trait Read: Sized {
        // everything there is to be read, and where reading goes on
        spec fn data(&self) -> Seq<u8>;
        spec fn pos(&self) -> int;
        // reading does not fail but at the end
        spec fn sound(&self) -> bool;
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            requires 0 <= (*old(self)).pos()
            ensures
                r is Ok ==> (*final(self)).data() == (*old(self)).data(), (*final(self)).sound() == (*old(self)).sound(), final(buf)@.len() == old(buf)@.len(),
                (*final(self)).pos() >= 0,
                r matches Ok(n) ==> n <= old(buf)@.len() && (*final(self)).pos() == (*old(self)).pos() + n
                    && has((*old(self)).data(), (*old(self)).pos(), final(buf)@.take(n as int))
                    && (n == 0 && old(buf)@.len() > 0 ==> (*old(self)).pos() >= (*old(self)).data().len()),
                (*old(self)).sound() ==> r is Ok;
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            requires 0 <= (*old(self)).pos()
            ensures
                r is Ok ==> (*final(self)).data() == (*old(self)).data(), (*final(self)).sound() == (*old(self)).sound(), final(buf)@.len() == old(buf)@.len(),
                (*final(self)).pos() >= 0,
                r is Ok ==> (*final(self)).pos() == (*old(self)).pos() + old(buf)@.len() && has((*old(self)).data(), (*old(self)).pos(), final(buf)@),
                r matches Err(e) ==> (e.k is UnexpectedEof ==> (*old(self)).pos() + old(buf)@.len() > (*old(self)).data().len()),
                (*old(self)).sound() ==> (r matches Err(e) ==> e.k is UnexpectedEof);
    }
    pub trait ReadAll: Read {
        fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize>)
            requires 0 <= (*old(self)).pos()
            ensures
                r is Ok ==> (*final(self)).data() == (*old(self)).data(), (*final(self)).sound() == (*old(self)).sound(),
                r is Ok ==> final(v)@ == old(v)@ + after((*old(self)).data(), (*old(self)).pos()),
                (*old(self)).sound() ==> r is Ok;
        fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize>)
            requires 0 <= (*old(self)).pos()
            ensures
                r is Ok ==> (*final(self)).data() == (*old(self)).data(), (*final(self)).sound() == (*old(self)).sound(),
                r is Ok ==> valid_utf8(after((*old(self)).data(), (*old(self)).pos()))
                    && final(s)@ == old(s)@ + decode_utf8(after((*old(self)).data(), (*old(self)).pos())),
                (*old(self)).sound() && valid_utf8(after((*old(self)).data(), (*old(self)).pos())) ==> r is Ok;
    }
    impl<R: Read> ReadAll for R {
        #[verifier::external_body]
        fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
    }
    impl<R: Read> Read for &mut R {
        open spec fn data(&self) -> Seq<u8> { (**self).data() }
        open spec fn pos(&self) -> int { (**self).pos() }
        open spec fn sound(&self) -> bool { (**self).sound() }
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { (**self).read(buf) }
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { (**self).read_exact(buf) }
    }
    // the bytes up to and with the first d at pos or later, or all there are
    pub open spec fn until(data: Seq<u8>, pos: int, d: u8) -> Seq<u8>
        decreases data.len() - pos
    {
        if pos < 0 || pos >= data.len() { seq![] }
        else if data[pos] == d { seq![d] }
        else { seq![data[pos]] + until(data, pos + 1, d) }
    }
    pub trait BufRead: Read {
        fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> (r: Result<usize>)
            requires 0 <= (*old(self)).pos()
            ensures
                r is Ok ==> (*final(self)).data() == (*old(self)).data(), (*final(self)).sound() == (*old(self)).sound(), (*final(self)).pos() >= 0,
                r matches Ok(n) ==> final(buf)@ == old(buf)@ + until((*old(self)).data(), (*old(self)).pos(), byte)
                    && n == until((*old(self)).data(), (*old(self)).pos(), byte).len()
                    && (*final(self)).pos() == (*old(self)).pos() + n,
                (*old(self)).sound() ==> r is Ok;
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(R)]
    pub struct BufReader<R> { _r: core::marker::PhantomData<R> }
    impl<R: Read> BufReader<R> {
        #[verifier::external_body]
        pub fn new(r: R) -> (b: BufReader<R>)
            ensures b.data() == r.data(), b.pos() == r.pos(), b.sound() == r.sound()
        { unimplemented!() }
    }
    impl<R: Read> Read for BufReader<R> {
        uninterp spec fn data(&self) -> Seq<u8>;
        uninterp spec fn pos(&self) -> int;
        uninterp spec fn sound(&self) -> bool;
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
    }
    impl<R: Read> BufRead for BufReader<R> {
        #[verifier::external_body]
        fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
    }
    pub spec const MOST: int = 0x3fff_ffff_ffff_ffff;
    pub trait Write: Sized {
        // everything there is, and where writing goes on
        spec fn out(&self) -> Seq<u8>;
        spec fn at(&self) -> int;
        // what writing leaves alone
        spec fn fixed(&self) -> int;
        // writing does not fail
        spec fn sound(&self) -> bool;
        fn flush(&mut self) -> (r: Result<()>)
            ensures (*final(self)).sound() == (*old(self)).sound(), (*old(self)).sound() ==> r is Ok, (*final(self)).out() == (*old(self)).out(), (*final(self)).at() == (*old(self)).at(), (*final(self)).fixed() == (*old(self)).fixed();
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            requires 0 <= (*old(self)).fixed(), 0 <= (*old(self)).at() <= (*old(self)).out().len(), (*old(self)).at() + buf@.len() <= MOST
            ensures
                (*final(self)).sound() == (*old(self)).sound(), (*old(self)).sound() ==> r is Ok,
                r is Ok ==> (*final(self)).fixed() == (*old(self)).fixed(),
                r matches Ok(n) ==> n <= buf@.len() && (*final(self)).out() == over((*old(self)).out(), (*old(self)).at(), buf@.take(n as int))
                    && (*final(self)).at() == (*old(self)).at() + n;
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            requires 0 <= (*old(self)).fixed(), 0 <= (*old(self)).at() <= (*old(self)).out().len(), (*old(self)).at() + buf@.len() <= MOST
            ensures
                (*final(self)).sound() == (*old(self)).sound(), (*old(self)).sound() ==> r is Ok,
                r is Ok ==> (*final(self)).fixed() == (*old(self)).fixed(),
                r is Ok ==> (*final(self)).out() == over((*old(self)).out(), (*old(self)).at(), buf@) && (*final(self)).at() == (*old(self)).at() + buf@.len();
    }
    pub broadcast proof fn over_len(d: Seq<u8>, p: int, b: Seq<u8>)
        requires 0 <= p <= d.len()
        ensures (#[trigger] over(d, p, b)).len() >= p + b.len(), over(d, p, b).len() >= d.len()
    {}
    pub broadcast proof fn over_over(d: Seq<u8>, p: int, a: Seq<u8>, q: int, b: Seq<u8>)
        requires 0 <= p <= d.len(), q == p + a.len()
        ensures #[trigger] over(over(d, p, a), q, b) == over(d, p, a + b)
    { assert(over(over(d, p, a), q, b) =~= over(d, p, a + b)); }
    pub proof fn over_at_end(d: Seq<u8>, b: Seq<u8>)
        ensures over(d, d.len() as int, b) == d + b
    { assert(over(d, d.len() as int, b) =~= d + b); }
    pub broadcast proof fn over_end(d: Seq<u8>, p: int, b: Seq<u8>)
        requires p == d.len()
        ensures (#[trigger] over(d, p, b)).len() == p + b.len(), has(over(d, p, b), p, b)
    { over_at_end(d, b); }
    // b written inside what was written before
    pub proof fn over_in(d: Seq<u8>, p: int, a: Seq<u8>, q: int, b: Seq<u8>)
        requires 0 <= p <= d.len(), p <= q, q + b.len() <= p + a.len()
        ensures over(over(d, p, a), q, b) == over(d, p, a.take(q - p) + b + a.skip(q - p + b.len()))
    { assert(over(over(d, p, a), q, b) =~= over(d, p, a.take(q - p) + b + a.skip(q - p + b.len()))); }
    impl<W: Write> Write for &mut W {
        open spec fn out(&self) -> Seq<u8> { (**self).out() }
        open spec fn at(&self) -> int { (**self).at() }
        open spec fn fixed(&self) -> int { (**self).fixed() }
        open spec fn sound(&self) -> bool { (**self).sound() }
        fn flush(&mut self) -> (r: Result<()>) { (**self).flush() }
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { (**self).write(buf) }
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { (**self).write_all(buf) }
    }
    pub broadcast proof fn one(a: [u8; 1])
        ensures #[trigger] a@ == seq![a[0]]
    { assert(a@ =~= seq![a[0]]); }
    pub broadcast proof fn over_none(d: Seq<u8>, p: int)
        requires 0 <= p <= d.len()
        ensures #[trigger] over(d, p, seq![]) == d
    { assert(over(d, p, seq![]) =~= d); }

}
pub use io::{Read, ReadAll, BufRead, BufReader, Write};

pub trait Le: Sized {
    spec fn le_is(self, r: [u8; 2]) -> bool;
    fn le_bytes(self) -> (r: [u8; 2]) ensures self.le_is(r);
}
impl Le for u16 {
    open spec fn le_is(self, r: [u8; 2]) -> bool { r@ =~= le(self) }
    #[verifier::external_body]
    fn le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn le16_(b: [u8; 2]) -> (r: u16) ensures r == b[0] + 0x100 * b[1], le(r) == b@ { u16::from_le_bytes(b) }
pub open spec fn le(w: u16) -> Seq<u8> { seq![(w % 0x100) as u8, (w / 0x100) as u8] }
pub proof fn le_injective(a: u16, b: u16)
    requires le(a) == le(b)
    ensures a == b
{ assert(le(a)[0] == le(b)[0] && le(a)[1] == le(b)[1]); }
#[verifier::external_body]
pub fn tail_<const N: usize, const M: usize>(a: &[u8; N], k: usize) -> (r: [u8; M])
    requires k + M == N
    ensures r@ == a@.skip(k as int)
{ core::array::from_fn(|i| a[k + i]) }

pub struct Lossy { pub s: Box<str> }
impl Lossy {
    pub fn into(self) -> (r: Box<str>) ensures r == self.s { self.s }
}
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub proof fn lossy_valid(b: Seq<u8>)
    ensures valid_utf8(b) ==> lossy(b) == decode_utf8(b)
{}
#[verifier::external_body]
pub fn lossy_(v: &[u8]) -> (r: Lossy)
    ensures r.s@ == lossy(v@), valid_utf8(v@) ==> r.s@ == decode_utf8(v@), r.s@.len() == 0 <==> v@.len() == 0
{ Lossy { s: String::from_utf8_lossy(v).into() } }

#[verifier::external_body]
pub fn chars_(s: &String) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }

pub trait Str_ {
    spec fn chars_(&self) -> Seq<char>;
    fn bytes_(&self) -> (r: Vec<u8>) ensures r@ == encode_utf8(self.chars_());
}
impl Str_ for str {
    open spec fn chars_(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn bytes_(&self) -> (r: Vec<u8>) { self.as_bytes().to_vec() }
}
pub fn str_<'a, S: Str_ + ?Sized>(s: &'a S) -> (r: &'a S) ensures r == s { s }
impl<T: Str_ + ?Sized> Str_ for &T {
    open spec fn chars_(&self) -> Seq<char> { (**self).chars_() }
    fn bytes_(&self) -> (r: Vec<u8>) { (**self).bytes_() }
}
impl<T: Str_ + ?Sized> Str_ for Box<T> {
    open spec fn chars_(&self) -> Seq<char> { (**self).chars_() }
    fn bytes_(&self) -> (r: Vec<u8>) { (**self).bytes_() }
}
// write!, as the pieces written one after the other
pub trait Put: Write {
    fn put1_<A: Str_>(&mut self, a: A) -> (r: io::Result<()>)
        requires 0 <= (*old(self)).fixed(), 0 <= (*old(self)).at() <= (*old(self)).out().len(),
            (*old(self)).at() + encode_utf8(a.chars_()).len() <= io::MOST
        ensures
            (*final(self)).sound() == (*old(self)).sound(), (*old(self)).sound() ==> r is Ok,
            r is Ok ==> (*final(self)).fixed() == (*old(self)).fixed(),
            r is Ok ==> (*final(self)).out() == io::over((*old(self)).out(), (*old(self)).at(), encode_utf8(a.chars_()))
                && (*final(self)).at() == (*old(self)).at() + encode_utf8(a.chars_()).len();
    fn put2_<A: Str_, B: Str_>(&mut self, a: A, b: B) -> (r: io::Result<()>)
        requires 0 <= (*old(self)).fixed(), 0 <= (*old(self)).at() <= (*old(self)).out().len(),
            (*old(self)).at() + encode_utf8(a.chars_()).len() + encode_utf8(b.chars_()).len() <= io::MOST
        ensures
            (*final(self)).sound() == (*old(self)).sound(), (*old(self)).sound() ==> r is Ok,
            r is Ok ==> (*final(self)).fixed() == (*old(self)).fixed(),
            r is Ok ==> (*final(self)).out() == io::over((*old(self)).out(), (*old(self)).at(), encode_utf8(a.chars_()) + encode_utf8(b.chars_()))
                && (*final(self)).at() == (*old(self)).at() + encode_utf8(a.chars_()).len() + encode_utf8(b.chars_()).len();
    fn put3_<A: Str_, B: Str_, C: Str_>(&mut self, a: A, b: B, c: C) -> (r: io::Result<()>)
        requires 0 <= (*old(self)).fixed(), 0 <= (*old(self)).at() <= (*old(self)).out().len(),
            (*old(self)).at() + encode_utf8(a.chars_()).len() + encode_utf8(b.chars_()).len() + encode_utf8(c.chars_()).len() <= io::MOST
        ensures
            (*final(self)).sound() == (*old(self)).sound(), (*old(self)).sound() ==> r is Ok,
            r is Ok ==> (*final(self)).fixed() == (*old(self)).fixed(),
            r is Ok ==> (*final(self)).out() == io::over((*old(self)).out(), (*old(self)).at(),
                    encode_utf8(a.chars_()) + encode_utf8(b.chars_()) + encode_utf8(c.chars_()))
                && (*final(self)).at() == (*old(self)).at() + encode_utf8(a.chars_()).len() + encode_utf8(b.chars_()).len() + encode_utf8(c.chars_()).len();
}
impl<W: Write> Put for W {
    fn put1_<A: Str_>(&mut self, a: A) -> (r: io::Result<()>) { self.write_all(a.bytes_().as_slice()) }
    fn put2_<A: Str_, B: Str_>(&mut self, a: A, b: B) -> (r: io::Result<()>) {
        broadcast use {io::over_len, io::over_over, io::over_none, io::one};
        self.write_all(a.bytes_().as_slice())?;
        self.write_all(b.bytes_().as_slice())
    }
    fn put3_<A: Str_, B: Str_, C: Str_>(&mut self, a: A, b: B, c: C) -> (r: io::Result<()>) {
        broadcast use {io::over_len, io::over_over, io::over_none, io::one};
        self.write_all(a.bytes_().as_slice())?;
        self.write_all(b.bytes_().as_slice())?;
        self.write_all(c.bytes_().as_slice())
    }
}
pub trait Items_<T> {
    spec fn all_(&self) -> Seq<T>;
    fn count_(&self) -> (r: usize) ensures r == self.all_().len();
    fn item_(&self, n: usize) -> (r: &T) requires n < self.all_().len() ensures *r == self.all_()[n as int];
}
impl<T> Items_<T> for Vec<T> {
    open spec fn all_(&self) -> Seq<T> { self@ }
    fn count_(&self) -> (r: usize) { self.len() }
    fn item_(&self, n: usize) -> (r: &T) { &self[n] }
}
"""

READ_SEEK = """
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait Seek: Read {
    fn stream_position(&mut self) -> (r: io::Result<u64>)
        ensures
            r is Ok ==> (*final(self)).data() == (*old(self)).data() && (*final(self)).pos() == (*old(self)).pos() && r->Ok_0 == (*old(self)).pos(),
            (*final(self)).sound() == (*old(self)).sound(),
            (*old(self)).sound() ==> r is Ok;
    fn seek(&mut self, to: SeekFrom) -> (r: io::Result<u64>)
        ensures
            r is Ok ==> (*final(self)).data() == (*old(self)).data() && (*final(self)).pos() == r->Ok_0,
            (*final(self)).sound() == (*old(self)).sound(),
            match to {
                SeekFrom::Start(n) => (r is Ok ==> r->Ok_0 == n) && ((*old(self)).sound() ==> r is Ok),
                SeekFrom::Current(n) => (r is Ok ==> r->Ok_0 == (*old(self)).pos() + n) && ((*old(self)).sound() && 0 <= (*old(self)).pos() + n ==> r is Ok),
                SeekFrom::End(n) => true,
            };
}
#[verifier::external_body]
pub fn str_len_(s: &str) -> (r: usize) ensures r == 0 <==> s@.len() == 0 { s.len() }
#[verifier::external_body]
pub fn str_eq_(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
"""

# std::fs::File, for reading
READ_FILE = """
pub uninterp spec fn path_sound<P>(p: P) -> bool;
pub uninterp spec fn path_data<P>(p: P) -> Seq<u8>;
#[verifier::external_body]
pub struct File { _f: core::marker::PhantomData<()> }
impl Read for File {
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>) { unimplemented!() }
}
impl File {
    #[verifier::external_body]
    pub fn open<P>(p: P) -> (r: io::Result<File>)
        ensures
            r matches Ok(f) ==> f.data() == path_data(p) && f.pos() == 0 && f.data().len() <= io::MOST && (path_sound(p) ==> f.sound()),
            path_sound(p) ==> r is Ok
    { unimplemented!() }
}
impl<R: Read> Seek for BufReader<R> {
    #[verifier::external_body]
    fn stream_position(&mut self) -> (r: io::Result<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: io::Result<u64>) { unimplemented!() }
}
"""

WRITE_SEEK = """
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait Seek: Write {
    fn seek(&mut self, to: SeekFrom) -> (r: io::Result<u64>)
        ensures
            r is Ok ==> (*final(self)).out() == (*old(self)).out() && (*final(self)).at() == r->Ok_0 && (*final(self)).fixed() == (*old(self)).fixed(),
            (*final(self)).sound() == (*old(self)).sound(),
            match to {
                SeekFrom::Start(n) => (r is Ok ==> r->Ok_0 == n) && ((*old(self)).sound() ==> r is Ok),
                SeekFrom::Current(n) => (r is Ok ==> r->Ok_0 == (*old(self)).at() + n) && ((*old(self)).sound() && 0 <= (*old(self)).at() + n ==> r is Ok),
                SeekFrom::End(n) => true,
            };
}
#[verifier::external_body]
pub fn str_len_(s: &str) -> (r: usize) ensures r == 0 <==> s@.len() == 0, !r != 0 { s.len() }
#[verifier::external_body]
pub fn has_nul_(s: &str) -> (r: bool) ensures r == s@.contains('\\0') { s.contains('\\0') }
pub trait Expect_<T> {
    fn expect_(self, m: &str) -> T;
}
impl<T> Expect_<T> for io::Result<T> {
    #[verifier::external_body]
    fn expect_(self, m: &str) -> (r: T) ensures self == Ok::<T, io::Error>(r) { unimplemented!() }
}
"""

TRUSTED = [
    "Verus 0.2026.09.13 with its Z3, and vstd (with its specification of UTF-8)",
    "contracts of std::io::Read, BufRead, Write and Seek as their documentation states them (verus/io_model.py), for any implementation",
    "BufReader and the provided methods read_to_end, read_until and write_fmt of those traits behave as documented",
    "String::from_utf8_lossy decodes valid UTF-8, and is empty only for no bytes",
    "files are smaller than 2^62 bytes",
]

# the sections of a file, as names and bytes
LISTS = """
pub struct Head { pub name: Seq<char>, pub pos: int, pub len: int }
pub open spec fn clip(d: Seq<u8>, n: int) -> Seq<u8> { if n < d.len() { d.take(n) } else { d } }
// the bytes of a section
pub open spec fn body(d: Seq<u8>, h: Head) -> Seq<u8> { io::after(clip(d, h.pos + h.len), h.pos) }
pub type List = Seq<(Seq<char>, Seq<u8>)>;
pub open spec fn listing(h: Seq<Head>, d: Seq<u8>) -> List { Seq::new(h.len(), |k: int| (h[k].name, body(d, h[k]))) }
// the bytes of the sections with this name
pub open spec fn finds(l: List, n: Seq<char>) -> Seq<Seq<u8>>
    decreases l.len()
{
    if l.len() == 0 { seq![] } else if l[0].0 == n { seq![l[0].1] + finds(l.skip(1), n) } else { finds(l.skip(1), n) }
}
"""
READ_LISTS = """
pub open spec fn section_read<S: Section>(r: io::Result<S>, b: Seq<u8>, sound: bool) -> bool {
    &&& r matches Ok(x) ==> x.means(b)
    &&& forall|x: S| x.fit() && #[trigger] x.enc() == b && sound ==> (r matches Ok(y) && y.same(&x))
}
pub open spec fn head(s: (Box<str>, u64, u16)) -> Head { Head { name: s.0@, pos: s.1 as int, len: s.2 as int } }
impl<F: BufRead + Seek> AalvReader<F> {
    pub open spec fn heads(&self) -> Seq<Head> { self.sections@.map_values(|s: (Box<str>, u64, u16)| head(s)) }
    pub open spec fn list(&self) -> List { listing(self.heads(), self.file.data()) }
    pub open spec fn ok(&self) -> bool {
        self.file.pos() >= 0 && self.file.data().len() <= io::MOST
        && forall|k: int| 0 <= k < self.sections@.len() ==> (#[trigger] self.sections@[k]).1 <= self.file.data().len()
    }
}
// the first section of this name is read and left out
pub open spec fn took<S: Section, F: BufRead + Seek>(a: AalvReader<F>, b: AalvReader<F>, r: Option<io::Result<S>>) -> bool {
    let f = finds(a.list(), S::NAME@);
    &&& b.file_offset == a.file_offset && b.file_end == a.file_end
    &&& f.len() == 0 ==> r is None && b == a
    &&& f.len() > 0 ==> r is Some && section_read(r->0, f[0], a.file.sound()) && (r->0 is Ok ==>
            b.ok() && b.file.data() == a.file.data() && b.file.sound() == a.file.sound() && finds(b.list(), S::NAME@) == f.skip(1)
            && forall|m: Seq<char>| m != S::NAME@ ==> #[trigger] finds(b.list(), m) == finds(a.list(), m))
}
"""
SECTION_SPEC = """
    // the bytes it is written as
    spec fn enc(&self) -> Seq<u8>;
    // the bytes say what it is
    spec fn fit(&self) -> bool;
    spec fn same(&self, x: &Self) -> bool;
    // what these bytes are read as
    spec fn means(&self, b: Seq<u8>) -> bool;
"""
SECTION_READ = """
        requires 0 <= reader.pos() <= reader.data().len()
        ensures
            // what is read is what is there
            r matches Ok(x) ==> x.means(io::after(reader.data(), reader.pos())),
            // what is written is read
            forall|x: Self| x.fit() && #[trigger] x.enc() == io::after(reader.data(), reader.pos()) && reader.sound() ==> (r matches Ok(y) && y.same(&x))"""
SECTION_WRITE = """
        requires writable(*old(writer), self.enc())
        ensures
            (*final(writer)).sound() == (*old(writer)).sound(), (*old(writer)).sound() ==> r is Ok,
            r is Ok ==> (*final(writer)).fixed() == (*old(writer)).fixed(),
            r is Ok ==> (*final(writer)).out() == io::over((*old(writer)).out(), (*old(writer)).at(), self.enc())
                && (*final(writer)).at() == (*old(writer)).at() + self.enc().len()"""
WRITABLE = """
pub open spec fn writable<W: Write>(w: W, b: Seq<u8>) -> bool {
    0 <= w.fixed() && 0 <= w.at() <= w.out().len() && w.at() + b.len() <= io::MOST
}
"""

# the bytes of a file with sections
FILES = """
// ---- what is written as sections is found as sections
pub open spec fn section_bytes(n: Seq<char>, b: Seq<u8>) -> Seq<u8> {
    encode_utf8(n) + seq![0u8] + le((b.len() % 0x1_0000) as u16) + b
}
pub open spec fn sections_bytes(l: List) -> Seq<u8>
    decreases l.len()
{
    if l.len() == 0 { seq![] } else { section_bytes(l[0].0, l[0].1) + sections_bytes(l.skip(1)) }
}
pub open spec fn proper(l: List) -> bool {
    forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).1.len() < 0x1_0000 && l[k].0.len() > 0 && !encode_utf8(l[k].0).contains(0)
}
// this is b and, from there to its end, the sections of l
pub open spec fn done<W: Write>(w: W, b: Seq<u8>, l: List) -> bool {
    0 <= w.fixed() && w.at() == w.out().len() && w.out() == b + sections_bytes(l)
}
pub proof fn sections_push(l: List, x: (Seq<char>, Seq<u8>))
    ensures sections_bytes(l.push(x)) == sections_bytes(l) + section_bytes(x.0, x.1)
    decreases l.len()
{
    let z = Seq::<u8>::empty();
    if l.len() == 0 {
        assert(l.push(x).skip(1) =~= seq![]);
        assert(sections_bytes(l.push(x).skip(1)) == z);
        assert(sections_bytes(l.push(x)) =~= z + section_bytes(x.0, x.1));
    } else {
        assert(l.push(x).skip(1) =~= l.skip(1).push(x));
        sections_push(l.skip(1), x);
        assert(sections_bytes(l.push(x)) =~= sections_bytes(l) + section_bytes(x.0, x.1));
    }
}
"""

UNTIL = """
proof fn until_is(d: Seq<u8>, q: int, b: Seq<u8>)
    requires io::has(d, q, b + seq![0u8]), !b.contains(0)
    ensures io::until(d, q, 0) == b + seq![0u8]
    decreases b.len()
{
    let w = b + seq![0u8];
    assert(d.subrange(q, q + w.len())[0] == w[0]);
    if b.len() == 0 {
        assert(io::until(d, q, 0) =~= b + seq![0u8]);
    } else {
        assert(b[0] != 0);
        let t = b.skip(1);
        assert(!t.contains(0)) by { if t.contains(0) { let i = t.index_of(0); assert(b[i + 1] == 0); } }
        assert(d.subrange(q + 1, q + 1 + t.len() + 1) =~= d.subrange(q, q + w.len()).skip(1));
        assert(w.skip(1) =~= t + seq![0u8]);
        until_is(d, q + 1, t);
        assert(io::until(d, q, 0) =~= b + seq![0u8]);
    }
}
"""

READ_BACK = """
pub open spec fn first_magic(d: Seq<u8>, p: int, o: int) -> bool {
    p <= o && io::has(d, o, AALV_MAGIC@) && forall|q: int| p <= q < o ==> !io::has(d, q, AALV_MAGIC@)
}
// the file that begins at o, the first that does after p, has these sections and ends at e
pub open spec fn is_file(d: Seq<u8>, p: int, o: int, h: Seq<Head>, e: int) -> bool {
    first_magic(d, p, o) && heads(d, o + AALV_MAGIC@.len()) == Some((h, e))
}
pub open spec fn heads(d: Seq<u8>, p: int) -> Option<(Seq<Head>, int)>
    decreases (if p < d.len() { d.len() - p } else { 0 })
{
    let u = io::until(d, p, 0);
    if p < 0 || u.len() == 0 || u.last() != 0 { None }
    else if u.len() == 1 { Some((seq![], p + 1)) }
    else if p + u.len() + 2 > d.len() { None }
    else {
        let q = p + u.len() + 2;
        let n = d[q - 2] + 0x100 * d[q - 1];
        match heads(d, q + n) {
            None => None,
            Some((t, e)) => Some((seq![Head { name: lossy(u.drop_last()), pos: q, len: n }] + t, e)),
        }
    }
}
pub proof fn file_read_back(d: Seq<u8>, p: int, l: List)
    requires io::has(d, p, sections_bytes(l) + seq![0u8]), proper(l)
    ensures
        heads(d, p) matches Some((h, e)) && listing(h, d) == l && e == p + sections_bytes(l).len() + 1,
        heads(d, p) matches Some((h, e)) ==> forall|k: int| 0 <= k < h.len() ==> p <= (#[trigger] h[k]).pos && h[k].pos + h[k].len < e
    decreases l.len()
{
    let all = sections_bytes(l) + seq![0u8];
    if l.len() == 0 {
        let z = Seq::<u8>::empty();
        assert(all =~= z + seq![0u8]);
        until_is(d, p, z);
        assert(listing(seq![], d) =~= l);
    } else {
        let (n, b) = (encode_utf8(l[0].0), l[0].1);
        let s = section_bytes(l[0].0, b);
        let t = l.skip(1);
        assert(proper(t)) by { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]) == l[k + 1] by {} }
        let r = sections_bytes(t) + seq![0u8];
        assert(all =~= s + r);
        assert(d.subrange(p, p + all.len()) == all);
        assert(d.subrange(p + s.len(), p + s.len() + r.len()) =~= all.skip(s.len() as int));
        assert(all.skip(s.len() as int) =~= r);
        file_read_back(d, p + s.len(), t);
        let w = n + seq![0u8];
        assert(d.subrange(p, p + w.len()) =~= all.take(w.len() as int));
        assert(all.take(w.len() as int) =~= w);
        until_is(d, p, n);
        let q = p + w.len() + 2;
        let c = le((b.len() % 0x1_0000) as u16);
        assert(d[q - 2] == all[w.len() as int] && d[q - 1] == all[w.len() + 1int]);
        assert(all[w.len() as int] == c[0] && all[w.len() + 1int] == c[1]);
        assert(c[0] + 0x100 * c[1] == b.len());
        assert(w.drop_last() =~= n);
        encode_utf8_valid_utf8(l[0].0); encode_utf8_decode_utf8(l[0].0); lossy_valid(n);
        if n.len() == 0 { encode_empty(l[0].0); }
        let (h, e) = heads(d, p + s.len())->0;
        let g = Head { name: l[0].0, pos: q, len: b.len() as int };
        assert(heads(d, p) == Some((seq![g] + h, e)));
        assert(body(d, g) =~= d.subrange(q, q + b.len()));
        assert(d.subrange(q, q + b.len()) =~= all.subrange(w.len() + 2int, w.len() + 2int + b.len()));
        assert(all.subrange(w.len() + 2int, w.len() + 2int + b.len()) =~= b);
        assert(listing(seq![g] + h, d) =~= l) by {
            assert forall|k: int| 0 <= k < l.len() implies listing(seq![g] + h, d)[k] == (#[trigger] l[k]) by {
                if k > 0 { assert(t[k - 1] == l[k]); assert(listing(h, d)[k - 1] == t[k - 1]); }
            }
            assert(listing(h, d).len() == t.len());
        }
    }
}
proof fn encode_empty(n: Seq<char>)
    requires encode_utf8(n).len() == 0
    ensures n.len() == 0
{
    encode_utf8_decode_utf8(n);
    assert(encode_utf8(n) =~= seq![]);
    reveal_strlit("");
    is_ascii_chars_encode_utf8(""@);
    assert(encode_utf8(""@) =~= seq![]);
    encode_utf8_decode_utf8(""@);
    assert(""@.len() == 0);
}
"""

# Drop of AalvWriter, as an ordinary method
FINISH = """
pub trait Finish_ {
    spec fn out_(&self) -> Seq<u8>;
    spec fn at_(&self) -> int;
    spec fn can_(&self) -> bool;
    fn drop(&mut self)
        requires (*old(self)).can_()
        ensures (*final(self)).out_() == io::over((*old(self)).out_(), (*old(self)).at_(), seq![0u8]);
}
"""
FINISH_INSIDE = """
    open spec fn out_(&self) -> Seq<u8> { self.file.out() }
    open spec fn at_(&self) -> int { self.file.at() }
    open spec fn can_(&self) -> bool { writable(self.file, seq![0u8]) }
"""

# std::fs::File, for writing
FILE = """
// the file at p can be created and written
pub uninterp spec fn path_sound<P>(p: P) -> bool;
#[verifier::external_body]
pub struct File { _f: core::marker::PhantomData<()> }
impl Write for File {
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn at(&self) -> int;
    uninterp spec fn fixed(&self) -> int;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
}
impl Seek for File {
    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: io::Result<u64>) { unimplemented!() }
}
pub struct Options_ { pub creates: bool, pub writes: bool, pub appends: bool }
impl Options_ {
    pub fn create(self, b: bool) -> (r: Self) ensures r == (Options_ { creates: b, ..self }) { Options_ { creates: b, ..self } }
    pub fn write(self, b: bool) -> (r: Self) ensures r == (Options_ { writes: b, ..self }) { Options_ { writes: b, ..self } }
    pub fn append(self, b: bool) -> (r: Self) ensures r == (Options_ { appends: b, ..self }) { Options_ { appends: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn open<P>(self, p: P) -> (r: io::Result<File>)
        ensures
            r is Ok && self.writes && !self.appends ==> r->Ok_0.at() == 0 && 0 <= r->Ok_0.fixed(),
            r is Ok && path_sound(p) ==> r->Ok_0.sound(),
            path_sound(p) && self.creates && self.writes ==> r is Ok
    { unimplemented!() }
}
impl File {
    pub fn options() -> (r: Options_) ensures !r.creates && !r.writes && !r.appends { Options_ { creates: false, writes: false, appends: false } }
    #[verifier::external_body]
    pub fn set_len(&mut self, n: u64) -> (r: io::Result<()>)
        ensures
            (*final(self)).sound() == (*old(self)).sound(), (*old(self)).sound() ==> r is Ok,
            r is Ok ==> (*final(self)).fixed() == (*old(self)).fixed() && (*final(self)).at() == (*old(self)).at() && (*final(self)).out().len() == n
                && (n <= (*old(self)).out().len() ==> (*final(self)).out() == (*old(self)).out().take(n as int))
    { unimplemented!() }
}
pub fn buffered_(f: File) -> (r: File) ensures r == f { f }
"""
# a new file that a writer is at the end of
NEW_FILE = """
        requires file_offset <= io::MOST - 100
        ensures
            r matches Ok(a) ==> 0 <= a.file.fixed() && a.file.at() == a.file.out().len() && a.file.out().len() == file_offset + AALV_MAGIC.len()
                && io::has(a.file.out(), file_offset as int, AALV_MAGIC@),
            r is Ok && path_sound(path) ==> r->Ok_0.file.sound(),
            path_sound(path) ==> r is Ok"""
NEW_FILE_RENAME = [("BufWriter < File >", "File"), ("BufWriter :: new", "buffered_"), ("let f =", "let mut f ="), ("P : AsRef < Path >", "P")]
