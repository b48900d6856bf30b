// The world outside the program: what it is given and what it has written.
// Every external_body here is an assumption about std::io, std::fs, std::process.

pub enum Line {
    /// A line, its end included where it has one.
    Text(Seq<char>),
    /// A line which is not text, or which cannot be read.
    Bad(Seq<char>),
}

pub struct W {
    pub out: Seq<char>,
    pub err: Seq<char>,
    /// What is left of standard input.
    pub lines: Seq<Line>,
    /// All of standard input.
    pub given: Seq<Line>,
    /// The files, and the text of those which hold text.
    pub files: Map<Seq<char>, Option<Seq<char>>>,
    /// The argument of the command line, or the empty text.
    pub script: Seq<char>,
}

#[verifier::external_body]
pub struct World { x: () }

/// How a value is displayed (`{}`).
pub trait VDisplay {
    spec fn shown(&self) -> Seq<char>;
    fn vshown(&self) -> String;
}
impl VDisplay for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vshown(&self) -> String { self.to_string() }
}
impl VDisplay for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vshown(&self) -> String { self.to_string() }
}
impl<'x, T: VDisplay + ?Sized> VDisplay for &'x T {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
    fn vshown(&self) -> String { (**self).vshown() }
}
pub uninterp spec fn decimal(n: int) -> Seq<char>;
impl VDisplay for u8 {
    open spec fn shown(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body]
    fn vshown(&self) -> String { self.to_string() }
}
impl VDisplay for u16 {
    open spec fn shown(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body]
    fn vshown(&self) -> String { self.to_string() }
}
impl VDisplay for u32 {
    open spec fn shown(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body]
    fn vshown(&self) -> String { self.to_string() }
}
impl VDisplay for u64 {
    open spec fn shown(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body]
    fn vshown(&self) -> String { self.to_string() }
}
impl VDisplay for usize {
    open spec fn shown(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body]
    fn vshown(&self) -> String { self.to_string() }
}
impl VDisplay for i32 {
    open spec fn shown(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body]
    fn vshown(&self) -> String { self.to_string() }
}

/// What `{:?}` and `{:#?}` write of a value.
pub uninterp spec fn debug_text<T>(x: T, pretty: bool) -> Seq<char>;

#[verifier::external_body]
pub struct VIoError { e: std::io::Error }
impl std::fmt::Debug for VIoError {
    #[verifier::external_body]
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.e.fmt(f) }
}

impl World {
    pub uninterp spec fn st(&self) -> W;

    #[verifier::external_body]
    pub fn v_out_str(&mut self, s: &str)
        ensures final(self).st() == (W { out: old(self).st().out + s@, ..old(self).st() }),
    { print!("{}", s) }
    #[verifier::external_body]
    pub fn v_err_str(&mut self, s: &str)
        ensures final(self).st() == (W { err: old(self).st().err + s@, ..old(self).st() }),
    { eprint!("{}", s) }
    #[verifier::external_body]
    pub fn v_out_display<T: VDisplay>(&mut self, x: &T)
        ensures final(self).st() == (W { out: old(self).st().out + x.shown(), ..old(self).st() }),
    { print!("{}", x.vshown()) }
    #[verifier::external_body]
    pub fn v_err_display<T: VDisplay>(&mut self, x: &T)
        ensures final(self).st() == (W { err: old(self).st().err + x.shown(), ..old(self).st() }),
    { eprint!("{}", x.vshown()) }
    #[cfg(vx_exec)]
    #[verifier::external_body]
    pub fn v_out_debug<T: std::fmt::Debug>(&mut self, x: &T, pretty: bool)
    { if pretty { print!("{:#?}", x) } else { print!("{:?}", x) } }
    #[cfg(not(vx_exec))]
    #[verifier::external_body]
    pub fn v_out_debug<T>(&mut self, x: &T, pretty: bool)
        ensures final(self).st() == (W { out: old(self).st().out + debug_text(*x, pretty), ..old(self).st() }),
    { unimplemented!() }
    #[cfg(vx_exec)]
    #[verifier::external_body]
    pub fn v_err_debug<T: std::fmt::Debug>(&mut self, x: &T, pretty: bool)
    { if pretty { eprint!("{:#?}", x) } else { eprint!("{:?}", x) } }
    #[cfg(not(vx_exec))]
    #[verifier::external_body]
    pub fn v_err_debug<T>(&mut self, x: &T, pretty: bool)
        ensures final(self).st() == (W { err: old(self).st().err + debug_text(*x, pretty), ..old(self).st() }),
    { unimplemented!() }
    /// The argument parser: `x` is left as it is where there is no argument.
    #[verifier::external_body]
    pub fn v_args(&mut self, x: &mut String)
        ensures
            final(self).st() == old(self).st(),
            final(x)@ == (if old(self).st().script.len() == 0 { old(x)@ } else { old(self).st().script }),
    { if let Some(a) = std::env::args().nth(1) { *x = a; } }
}

pub struct VStdin { pub x: u8 }
pub struct VStdout { pub x: u8 }
pub fn vstdin() -> (r: VStdin) { VStdin { x: 0 } }
pub fn vstdout() -> (r: VStdout) { VStdout { x: 0 } }
impl VStdin {
    pub fn v_lock(&self) -> (r: VStdin) { VStdin { x: 0 } }
    #[verifier::external_body]
    pub fn v_read_line(&self, s: &mut String, w: &mut World) -> (r: Result<usize, VIoError>)
        ensures
            old(w).st().lines.len() == 0 ==> r is Ok && r->Ok_0 == 0 && final(w).st() == old(w).st() && final(s)@ == old(s)@,
            old(w).st().lines.len() > 0 ==> {
                &&& final(w).st() == (W { lines: old(w).st().lines.skip(1), ..old(w).st() })
                &&& match old(w).st().lines[0] {
                    Line::Text(t) => r is Ok && r->Ok_0 > 0 && final(s)@ == old(s)@ + t,
                    Line::Bad(d) => r is Err && debug_text(r->Err_0, false) == d,
                }
            },
    { std::io::stdin().read_line(s).map_err(|e| VIoError { e }) }
}
impl VStdout {
    pub fn v_lock(&self) -> (r: VStdout) { VStdout { x: 0 } }
    #[verifier::external_body]
    pub fn v_flush(&self, w: &mut World) -> (r: Result<(), VIoError>)
        ensures r is Ok, final(w).st() == old(w).st(),
    { std::io::Write::flush(&mut std::io::stdout()).map_err(|e| VIoError { e }) }
}

#[verifier::external_body]
pub struct VFile { f: std::fs::File }
impl VFile { pub uninterp spec fn name(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vopen<T: VDisplay>(name: T, w: &mut World) -> (r: Result<VFile, VIoError>)
    ensures
        final(w).st() == old(w).st(),
        r is Ok == old(w).st().files.contains_key(name.shown()),
        r is Ok ==> r->Ok_0.name() == name.shown(),
{ std::fs::File::open(name.vshown()).map(|f| VFile { f }).map_err(|e| VIoError { e }) }
impl VFile {
    #[verifier::external_body]
    pub fn v_read_to_string(&mut self, s: &mut String, w: &mut World) -> (r: Result<usize, VIoError>)
        requires old(w).st().files.contains_key(old(self).name()),
        ensures
            final(w).st() == old(w).st(),
            r is Ok == old(w).st().files[old(self).name()] is Some,
            r is Ok ==> final(s)@ == old(s)@ + old(w).st().files[old(self).name()]->0,
    { std::io::Read::read_to_string(&mut self.f, s).map_err(|e| VIoError { e }) }
}
#[verifier::external_body]
pub fn vread_file<T: VDisplay>(name: T, w: &mut World) -> (r: Result<String, VIoError>)
    ensures
        final(w).st() == old(w).st(),
        r is Ok == (old(w).st().files.contains_key(name.shown()) && old(w).st().files[name.shown()] is Some),
        r is Ok ==> r->Ok_0@ == old(w).st().files[name.shown()]->0,
{ std::fs::read_to_string(name.vshown()).map_err(|e| VIoError { e }) }
