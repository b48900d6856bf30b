// Stubs for what the extracted code uses from std and its dependencies.
// Every `external_body` / `uninterp` / `axiom` item here is an assumption; the
// check lists them in its evidence.

// ---- strings ------------------------------------------------------------
pub trait VStr {
    spec fn sv(&self) -> Seq<char>;
    fn vstr_eq(&self, o: &str) -> (r: bool)
        ensures r == (self.sv() == o@);
    fn vchars<'a>(&'a self) -> (r: VChars<'a>)
        ensures r@ == self.sv();
    fn vtext(&self) -> String;
    fn vparse_f64(&self) -> (r: Result<f64, VParseError>)
        ensures
            num_text(self.sv()) ==> r is Ok,
            r is Ok ==> r->Ok_0 == f64_of(self.sv());
}

pub struct VParseError { pub dummy: u8 }

/// The f64 denoted by decimal text (what `str::parse::<f64>` returns).
pub uninterp spec fn f64_of(s: Seq<char>) -> f64;

pub open spec fn is_digit_char(c: char) -> bool { '0' <= c && c <= '9' }

pub open spec fn all_digits(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> is_digit_char(#[trigger] s[i])
}

/// digits, or digits "." digits, both parts non-empty
pub open spec fn num_text(s: Seq<char>) -> bool {
    (s.len() > 0 && all_digits(s))
    || exists|k: int| #![trigger s[k]] 0 < k < s.len() - 1 && s[k] == '.'
        && all_digits(s.subrange(0, k)) && all_digits(s.subrange(k + 1, s.len() as int))
}

impl VStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vstr_eq(&self, o: &str) -> (r: bool) { self == o }
    #[verifier::external_body]
    fn vchars<'a>(&'a self) -> (r: VChars<'a>) { VChars { p: self.chars() } }
    #[verifier::external_body]
    fn vparse_f64(&self) -> (r: Result<f64, VParseError>) { self.parse::<f64>().map_err(|_| VParseError { dummy: 0 }) }
    #[verifier::external_body]
    fn vtext(&self) -> String { self.to_string() }
}
impl VStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vstr_eq(&self, o: &str) -> (r: bool) { self == o }
    #[verifier::external_body]
    fn vchars<'a>(&'a self) -> (r: VChars<'a>) { VChars { p: self.chars() } }
    #[verifier::external_body]
    fn vparse_f64(&self) -> (r: Result<f64, VParseError>) { self.parse::<f64>().map_err(|_| VParseError { dummy: 0 }) }
    #[verifier::external_body]
    fn vtext(&self) -> String { self.to_string() }
}
impl<'x, T: VStr + ?Sized> VStr for &'x T {
    open spec fn sv(&self) -> Seq<char> { (**self).sv() }
    #[verifier::external_body]
    fn vstr_eq(&self, o: &str) -> (r: bool) { (**self).vstr_eq(o) }
    #[verifier::external_body]
    fn vchars<'a>(&'a self) -> (r: VChars<'a>) { (**self).vchars() }
    #[verifier::external_body]
    fn vparse_f64(&self) -> (r: Result<f64, VParseError>) { (**self).vparse_f64() }
    #[verifier::external_body]
    fn vtext(&self) -> String { (**self).vtext() }
}

#[verifier::external_body]
pub struct VChars<'a> { p: std::str::Chars<'a> }
impl<'a> VChars<'a> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { self.p.next() }
}

pub uninterp spec fn alphabetic(c: char) -> bool;
pub uninterp spec fn alphanumeric(c: char) -> bool;
pub trait VChar {
    fn v_is_alphabetic(self) -> bool;
    fn v_is_alphanumeric(self) -> bool;
}
impl VChar for char {
    #[verifier::external_body]
    fn v_is_alphabetic(self) -> (r: bool) ensures r == alphabetic(self) { self.is_alphabetic() }
    #[verifier::external_body]
    fn v_is_alphanumeric(self) -> (r: bool) ensures r == alphanumeric(self) { self.is_alphanumeric() }
}

#[verifier::external_body]
pub fn vformat() -> (r: String) { unimplemented!() }

#[verifier::external_body]
pub fn vtake<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty(),
{ std::mem::take(v) }

#[verifier::external_body]
pub fn vreplace<T>(v: &mut T, x: T) -> (r: T)
    ensures r == *old(v), *final(v) == x,
{ std::mem::replace(v, x) }

// ---- boxes (proved, not assumed) -------------------------------------------
pub trait VDeref {
    type T;
    spec fn dv(&self) -> Self::T;
    fn vderef(&self) -> (r: &Self::T)
        ensures *r == self.dv();
}
impl<T> VDeref for Box<T> {
    type T = T;
    open spec fn dv(&self) -> T { **self }
    fn vderef(&self) -> (r: &T) { &**self }
}

// ---- slices -------------------------------------------------------------
pub trait VContains<T> {
    fn vcontains(&self, x: &T) -> bool;
}

// ---- sequences that grow (proved, not assumed) -----------------------------
/// `b` extends `a`.
#[verifier::opaque]
pub open spec fn prefix<A>(a: Seq<A>, b: Seq<A>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
}
pub broadcast proof fn prefix_refl<A>(a: Seq<A>)
    ensures #[trigger] prefix(a, a),
{ reveal(prefix); }
pub broadcast proof fn prefix_trans<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    requires #[trigger] prefix(a, b), #[trigger] prefix(b, c),
    ensures prefix(a, c),
{
    reveal(prefix);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] by { assert(b[i] == a[i]); }
}
pub broadcast proof fn prefix_len<A>(a: Seq<A>, b: Seq<A>)
    requires #[trigger] prefix(a, b),
    ensures a.len() <= b.len(),
{ reveal(prefix); }
pub proof fn prefix_push<A>(a: Seq<A>, x: A)
    ensures prefix(a, a.push(x)),
{ reveal(prefix); }
pub broadcast group prefixes { prefix_refl, prefix_trans, prefix_len }
