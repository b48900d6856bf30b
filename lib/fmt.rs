// std::fmt, as far as Display impls use it.  Every external_body and uninterp
// here is an assumption.

#[verifier::external_body]
pub struct VFmtError { x: u8 }
#[verifier::external_body]
pub struct VFormatter { s: String }
pub uninterp spec fn digits(n: int) -> Seq<char>;
/// A text in quotes, with escapes (`{:?}`).
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;

impl VFormatter {
    #[cfg(vx_exec)]
    #[verifier::external]
    pub fn v_new() -> Self { VFormatter { s: String::new() } }
    #[cfg(vx_exec)]
    #[verifier::external]
    pub fn v_get(&self) -> &str { &self.s }
    /// What has been written.
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// Whether what it writes to refuses (a `String` never does).
    pub uninterp spec fn refuses(&self) -> bool;
    #[verifier::external_body]
    pub fn v_write_str(&mut self, s: &str) -> (r: Result<(), VFmtError>)
        ensures
            r is Err ==> old(self).refuses(),
            !old(self).refuses() ==> !final(self).refuses(),
            r is Ok ==> final(self).text() == old(self).text() + s@,
    { self.s.push_str(s); Ok(()) }
    #[verifier::external_body]
    pub fn v_write_char(&mut self, c: char) -> (r: Result<(), VFmtError>)
        ensures
            r is Err ==> old(self).refuses(),
            !old(self).refuses() ==> !final(self).refuses(),
            r is Ok ==> final(self).text() == old(self).text().push(c),
    { self.s.push(c); Ok(()) }
}
/// The std types which are displayed.
pub trait VShow {
    spec fn shown(&self) -> Seq<char>;
    spec fn debugged(&self) -> Seq<char>;
    fn v_fmt(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>)
        ensures
            r is Err ==> old(f).refuses(),
            !old(f).refuses() ==> !final(f).refuses(),
            r is Ok ==> final(f).text() == old(f).text() + self.shown();
    fn v_debug(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>)
        ensures
            r is Err ==> old(f).refuses(),
            !old(f).refuses() ==> !final(f).refuses(),
            r is Ok ==> final(f).text() == old(f).text() + self.debugged();
}
impl VShow for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    open spec fn debugged(&self) -> Seq<char> { quoted(self@) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{}", self)); Ok(()) }
    #[verifier::external_body]
    fn v_debug(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{:?}", self)); Ok(()) }
}
impl VShow for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    open spec fn debugged(&self) -> Seq<char> { quoted(self@) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{}", self)); Ok(()) }
    #[verifier::external_body]
    fn v_debug(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{:?}", self)); Ok(()) }
}
impl VShow for u8 {
    open spec fn shown(&self) -> Seq<char> { digits(*self as int) }
    open spec fn debugged(&self) -> Seq<char> { digits(*self as int) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{}", self)); Ok(()) }
    #[verifier::external_body]
    fn v_debug(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{:?}", self)); Ok(()) }
}
impl VShow for u16 {
    open spec fn shown(&self) -> Seq<char> { digits(*self as int) }
    open spec fn debugged(&self) -> Seq<char> { digits(*self as int) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{}", self)); Ok(()) }
    #[verifier::external_body]
    fn v_debug(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{:?}", self)); Ok(()) }
}
impl VShow for u32 {
    open spec fn shown(&self) -> Seq<char> { digits(*self as int) }
    open spec fn debugged(&self) -> Seq<char> { digits(*self as int) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{}", self)); Ok(()) }
    #[verifier::external_body]
    fn v_debug(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{:?}", self)); Ok(()) }
}
impl VShow for u64 {
    open spec fn shown(&self) -> Seq<char> { digits(*self as int) }
    open spec fn debugged(&self) -> Seq<char> { digits(*self as int) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{}", self)); Ok(()) }
    #[verifier::external_body]
    fn v_debug(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{:?}", self)); Ok(()) }
}
impl VShow for usize {
    open spec fn shown(&self) -> Seq<char> { digits(*self as int) }
    open spec fn debugged(&self) -> Seq<char> { digits(*self as int) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{}", self)); Ok(()) }
    #[verifier::external_body]
    fn v_debug(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{:?}", self)); Ok(()) }
}
impl VShow for i32 {
    open spec fn shown(&self) -> Seq<char> { digits(*self as int) }
    open spec fn debugged(&self) -> Seq<char> { digits(*self as int) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{}", self)); Ok(()) }
    #[verifier::external_body]
    fn v_debug(&self, f: &mut VFormatter) -> (r: Result<(), VFmtError>) { f.s.push_str(&format!("{:?}", self)); Ok(()) }
}
