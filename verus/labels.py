"""src/source/symbols.rs, src/source/mod.rs: labels and their addresses"""
from . import encode

SYM = "impl Symbols"
ST = "impl ProcessState"

STAND_INS = """
use std::mem;
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T) ensures *final(d) == s, r == *old(d);
#[verifier::external_body]
pub fn message_() -> (r: Box<str>) { unimplemented!() }
pub trait Boxed_ { fn into_boxed_str(self) -> Box<str>; }
impl Boxed_ for Box<str> { fn into_boxed_str(self) -> (r: Box<str>) { self } }
#[verifier::external_body]
pub fn boxed_(s: &str) -> (r: Box<str>) ensures r@ == s@ { s.into() }
#[verifier::external_body]
pub fn str_eq_(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub struct IoError {}
pub struct Error {}
pub enum ErrorType { UnknownSegment(Box<str>), UnknownInstruction(Box<str>), DoubleEntry, IncorrectOperands(&'static str), Other(Box<str>) }
impl Error {
    #[verifier::external_body]
    pub fn new<S>(s: S, ln: u32, e: ErrorType) -> Error { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: Error) -> Error { unimplemented!() }
}
pub type LineNumber = u32;
pub type StdResult<T, E> = core::result::Result<T, E>;
pub type SourceResult<T> = core::result::Result<T, Error>;
pub struct Names_<'a> { pub s: &'a Vec<Box<str>> }
pub fn names_<'a>(s: &'a Vec<Box<str>>) -> (r: Names_<'a>) ensures r.s == s { Names_ { s } }
impl<'a> Names_<'a> {
    pub fn position<P: Fn(&Box<str>) -> bool>(&self, p: P) -> (r: Option<usize>)
        requires forall|k: int| 0 <= k < self.s@.len() ==> call_requires(p, (&#[trigger] self.s@[k],))
        ensures
            r matches Some(n) ==> n < self.s@.len() && call_ensures(p, (&self.s@[n as int],), true)
                && forall|k: int| 0 <= k < n ==> call_ensures(p, (&#[trigger] self.s@[k],), false),
            r is None ==> forall|k: int| 0 <= k < self.s@.len() ==> call_ensures(p, (&#[trigger] self.s@[k],), false)
    {
        let mut n: usize = 0;
        while n < self.s.len()
            invariant
                n <= self.s@.len(), forall|k: int| 0 <= k < self.s@.len() ==> call_requires(p, (&#[trigger] self.s@[k],)),
                forall|k: int| 0 <= k < n ==> call_ensures(p, (&#[trigger] self.s@[k],), false)
            decreases self.s@.len() - n
        {
            if p(&self.s[n]) { return Some(n); }
            n = n + 1;
        }
        None
    }
}
// an iterator: how many items it gives (without an end: None) and which
pub struct It_<T> { pub n: Ghost<Option<nat>>, pub f: Ghost<spec_fn(int) -> T> }
pub open spec fn below(i: int, n: Option<nat>) -> bool { 0 <= i && (n matches Some(m) ==> i < m) }
pub open spec fn less(a: Option<nat>, b: Option<nat>) -> Option<nat> {
    match (a, b) { (None, _) => b, (_, None) => a, (Some(x), Some(y)) => Some(if x < y { x } else { y }) }
}
impl<T> It_<T> {
    pub open spec fn at(self, i: int) -> T { (self.f@)(i) }
    pub open spec fn has(self, i: int) -> bool { below(i, self.n@) }
    #[verifier::external_body]
    pub fn zip<U, I: ToIt_<U>>(self, o: I) -> (r: It_<(T, U)>)
        ensures
            r.n@ == less(self.n@, o.many()),
            forall|i: int| #![trigger r.at(i)] #![trigger r.has(i)] r.has(i) ==> r.at(i) == (self.at(i), o.nth_(i))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<I: ToIt_<T>>(self, o: I) -> (r: It_<T>)
        ensures
            r.n@ == (match (self.n@, o.many()) { (Some(a), Some(b)) => Some((a + b) as nat), _ => None::<nat> }),
            forall|i: int| #![trigger r.at(i)] #![trigger r.has(i)] r.has(i) ==> r.at(i) == (if below(i, self.n@) { self.at(i) } else { o.nth_(i - self.n@->0) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It_<U>)
        requires forall|i: int| #[trigger] self.has(i) ==> call_requires(f, (self.at(i),))
        ensures r.n@ == self.n@, forall|i: int| #![trigger r.at(i)] #![trigger r.has(i)] r.has(i) ==> call_ensures(f, (self.at(i),), r.at(i))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reduce<F: Fn(T, T) -> T>(self, f: F) -> (r: Option<T>)
        requires forall|a: T, b: T| call_requires(f, (a, b))
        ensures r is Some <==> self.n@ != Some(0nat)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count_(&self) -> (r: usize) requires self.n@ is Some ensures r == self.n@->0 { unimplemented!() }
    // each item is taken once
    #[verifier::external_body]
    pub fn item_(&self, n: usize) -> (r: T) requires self.has(n as int) ensures r == self.at(n as int) { unimplemented!() }
}
pub trait ToIt_<T>: Sized {
    spec fn many(&self) -> Option<nat>;
    spec fn nth_(&self, i: int) -> T;
    fn it_(self) -> (r: It_<T>) ensures r.n@ == self.many(), forall|i: int| #[trigger] r.at(i) == self.nth_(i);
}
impl<T> ToIt_<T> for Vec<T> {
    open spec fn many(&self) -> Option<nat> { Some(self@.len()) }
    open spec fn nth_(&self, i: int) -> T { self@[i] }
    #[verifier::external_body]
    fn it_(self) -> (r: It_<T>) { unimplemented!() }
}
impl<T> ToIt_<T> for It_<T> {
    open spec fn many(&self) -> Option<nat> { self.n@ }
    open spec fn nth_(&self, i: int) -> T { self.at(i) }
    fn it_(self) -> (r: It_<T>) { self }
}
#[verifier::external_body]
pub fn repeat_<T>(x: T) -> (r: It_<T>) ensures r.n@ is None, forall|i: int| #[trigger] r.at(i) == x { unimplemented!() }
"""

SPECS = """
impl Symbols {
    pub open spec fn names(self) -> Seq<Seq<char>> { self.labels@.map_values(|b: Box<str>| b@) }
    pub open spec fn at(self, i: int) -> Option<Address> { match self.id_to_pos@[i] { Ok(a) => Some(a), Err(_) => None } }
    pub open spec fn kind(self, i: int) -> SymbolType { if i < self.symbol_types@.len() { self.symbol_types@[i] } else { SymbolType::Internal } }
    pub open spec fn unused(self, i: int) -> bool { self.id_to_pos@[i] matches Err(v) && v@.len() == 0 }
    // each label is there once
    pub open spec fn each(self) -> bool {
        &&& self.labels@.len() == self.id_to_pos@.len() && self.symbol_types@.len() <= self.labels@.len()
        &&& forall|i: int, j: int| #![trigger self.names()[i], self.names()[j]] #![trigger self.labels@[i], self.labels@[j]] 0 <= i < j < self.labels@.len() ==> self.names()[i] != self.names()[j]
    }
    // and each that has no address is used somewhere
    pub open spec fn wf(self) -> bool { self.each() && forall|i: int| #![trigger self.unused(i)] #![trigger self.id_to_pos@[i]] 0 <= i < self.labels@.len() ==> !self.unused(i) }
    // the labels of o, and then one more if l is not one of them
    pub open spec fn with(self, o: Symbols, l: Seq<char>) -> bool {
        self.names() =~= (if o.names().contains(l) { o.names() } else { o.names().push(l) })
    }
    // nothing but label k (if any) is placed or declared otherwise than in o
    pub open spec fn alike(self, o: Symbols, k: int) -> bool {
        forall|i: int| 0 <= i < o.labels@.len() && i != k ==> #[trigger] self.at(i) == o.at(i) && self.kind(i) == o.kind(i)
    }
    pub open spec fn index(self, l: Seq<char>) -> int { choose|i: int| 0 <= i < self.labels@.len() && #[trigger] self.names()[i] == l }
    pub open spec fn is_at(self, l: Seq<char>, i: int) -> bool { i == self.index(l) && 0 <= i < self.labels@.len() && self.names()[i] == l }
    pub open spec fn fresh(self, i: int) -> bool { self.at(i) is None && self.kind(i) is Internal }
}
"""

JOB = dict(
    search="assembles",
    stand_in="the native search `assembles`",
    at_least=10,
    messages=True,
    public=["struct Symbols", "struct LabelRead"],
    copy=["struct Address", "enum SymbolType", "enum SegmentType"],
    sources=[
        dict(file="src/aalv/obj.rs", only=[r"enum SegmentType"]),
        dict(file="src/source/symbols.rs", only=[r"struct Address", r"enum SymbolType", r"struct Symbols", r"impl SymbolType", r"impl Symbols"]),
        dict(file="src/source/mod.rs", only=[r"struct SourceLocation"]),
    ],
    rename=[("pub ( super )", "pub"), ("self . labels . iter ( )", "names_(&self.labels)"), ("& * * l == lbl", "str_eq_(&**l, lbl)"),
            ("lbl . to_owned ( ) . into_boxed_str ( )", "boxed_(lbl)"), (". into_iter ( )", ".it_()"), ("iter :: repeat", "repeat_")],
    rewrite_items={"enum SymbolType": [
        (r"(?s)(.*)#\[default\]\s*(\w+)(.*)", r"\1\2\3\nimpl SymbolType { pub fn default() -> (r: SymbolType) ensures r is \2 { SymbolType::\2 } }\n")]},
    contracts={
        "impl SymbolType :: set_global": dict(spec="""
        ensures *final(self) == (if *old(self) is Internal { SymbolType::Global } else { *old(self) })"""),
        "impl SymbolType :: set_reference": dict(spec="""
        ensures *final(self) is Reference"""),
        SYM + " :: new": dict(ret="r", spec="""
        ensures r.wf(), r.labels@.len() == 0"""),
        SYM + " :: find_id": dict(ret="r", spec="""
        requires old(self).each()
        ensures
            final(self).each(), r < final(self).labels@.len(), final(self).names()[r as int] == lbl@, final(self).with(*old(self), lbl@),
            final(self).alike(*old(self), -1), final(self).symbol_types@ == old(self).symbol_types@,
            forall|i: int| 0 <= i < old(self).labels@.len() ==> #[trigger] final(self).id_to_pos@[i] == old(self).id_to_pos@[i],
            old(self).names().contains(lbl@) ==> *final(self) == *old(self),
            !old(self).names().contains(lbl@) ==> r == old(self).labels@.len() && final(self).fresh(r as int)""",
            at_exits="""proof {
            let (o, l, n) = (old(self), lbl@, old(self).labels@.len() as int);
            assert(self.names()[ret_ as int] == l);
            if ret_ < n { assert(o.names().contains(l)); } else {
                assert forall|i: int| 0 <= i < n implies #[trigger] o.names()[i] != l by { assert(o.labels@[i]@ != l); }
                assert forall|i: int| 0 <= i < n implies #[trigger] self.names()[i] == o.names()[i] by {}
            }
        }""",
            closures=[("| l |", "-> (r: bool) ensures r == (l@ == lbl@)", "|l: &Box<str>| ")]),
        SYM + " :: set_label": dict(ret="r", spec="""
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).with(*old(self), lbl@),
            ({
                let i = final(self).index(lbl@);
                &&& final(self).is_at(lbl@, i) && final(self).at(i) == Some(addr) && final(self).kind(i) == old(self).kind(i) && final(self).alike(*old(self), i)
                &&& r is Ok <==> i >= old(self).labels@.len() || old(self).at(i) is None
            })""",
            after=[("id", "let ghost m = *self;")], at_exits="proof { assert(self.names() == m.names()); assert(self.names()[id as int] == lbl@); assert(self.index(lbl@) == id); assert(self.at(id as int) == Some(addr)); assert forall|i: int| 0 <= i < self.labels@.len() implies !#[trigger] self.unused(i) by { let n = old(self).labels@.len(); assert(m.names().len() <= n + 1); if i != id { assert(i < n); assert(!old(self).unused(i)); assert(self.id_to_pos@[i] == m.id_to_pos@[i]); } } }"),
        SYM + " :: get_label": dict(ret="r", spec="""
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).with(*old(self), lbl@), final(self).alike(*old(self), -1),
            r < final(self).labels@.len(), final(self).is_at(lbl@, r as int),
            r < old(self).labels@.len() || final(self).fresh(r as int)""",
            after=[("id", "let ghost m = *self;")], at_exits="proof { assert(self.names() == m.names()); assert(self.names()[id as int] == lbl@); assert forall|i: int| 0 <= i < self.labels@.len() implies !#[trigger] self.unused(i) by { let n = old(self).labels@.len(); assert(m.names().len() <= n + 1); if i != id { assert(i < n); assert(!old(self).unused(i)); assert(self.id_to_pos@[i] == m.id_to_pos@[i]); } } }"),
        SYM + " :: set_global": dict(spec="""
        requires old(self).wf(), id < old(self).labels@.len()
        ensures
            final(self).wf(), final(self).names() =~= old(self).names(), final(self).alike(*old(self), id as int),
            final(self).at(id as int) == old(self).at(id as int),
            final(self).kind(id as int) == (if old(self).kind(id as int) is Internal { SymbolType::Global } else { old(self).kind(id as int) })""",
            proof="        proof { assert(self.labels.len() == self.labels@.len()); }"),
        SYM + " :: set_reference": dict(spec="""
        requires old(self).wf(), id < old(self).labels@.len()
        ensures
            final(self).wf(), final(self).names() =~= old(self).names(), final(self).alike(*old(self), id as int),
            final(self).at(id as int) == old(self).at(id as int), final(self).kind(id as int) is Reference""",
            proof="        proof { assert(self.labels.len() == self.labels@.len()); }"),
        SYM + " :: size": dict(ret="r", spec="""
        ensures r == self.labels@.len()"""),
        SYM + " :: into_iter": dict(ret="r", ret_ty="It_<(Box<str>, SymbolType, Result<Address, Vec<SourceLocation>>)>", spec="""
        requires self.each()
        ensures
            r.n@ == Some(self.labels@.len()),
            forall|i: int| 0 <= i < self.labels@.len() ==> #[trigger] r.at(i) == (self.labels@[i], self.kind(i), self.id_to_pos@[i])""",
            closures=[("| ( a , ( b , c ) ) |", "-> (r: (Box<str>, SymbolType, Result<Address, Vec<SourceLocation>>)) ensures r == (x_.0, x_.1.0, x_.1.1)",
                       "|x_: (Box<str>, (SymbolType, Result<Address, Vec<SourceLocation>>))| ", True)]),
    },
    prelude=STAND_INS + SPECS,
    trusted=[
        "Verus 0.2026.09.13 with its Z3, and vstd",
        "specifications of core::mem::replace, str equality and iter().position as documented",
        "the iterator adapters zip, chain, map and repeat of Symbols::into_iter by stand-ins that give the items their documentation says",
        "Error, IoError and the texts of messages are not looked at",
    ],
)
