// ---- source text as grapheme clusters (unicode-segmentation) --------------
/// The grapheme clusters of a source text, each with its byte offset.
pub uninterp spec fn cl(s: &str) -> Seq<(usize, &str)>;
/// Length in bytes.
pub open spec fn blen(s: &str) -> usize { s.spec_bytes().len() as usize }
/// Byte offset of cluster `p`, or the length for `p` past the last one.
pub open spec fn off(s: &str, p: int) -> usize {
    if 0 <= p < cl(s).len() { cl(s)[p].0 } else { blen(s) }
}
/// `b` is a byte offset at which the text can be sliced.
pub uninterp spec fn bdry(s: &str, b: usize) -> bool;
/// The text between two byte offsets.
pub uninterp spec fn piece(s: &str, a: usize, b: usize) -> Seq<char>;
/// Where a slice of the source starts and ends (attached by `vstr_slice`).
pub uninterp spec fn lo_of(x: &str) -> usize;
pub uninterp spec fn hi_of(x: &str) -> usize;

/// What unicode-segmentation guarantees of `grapheme_indices(true)`.
pub axiom fn ax_clusters(s: &str)
    ensures
        cl(s).len() <= blen(s),
        forall|p: int| 0 <= p <= cl(s).len() ==> bdry(s, #[trigger] off(s, p)),
        forall|p: int, q: int| 0 <= p < q <= cl(s).len() ==> #[trigger] off(s, p) < #[trigger] off(s, q),
        off(s, 0) == 0,
        off(s, cl(s).len() as int) == blen(s),
        forall|p: int| 0 <= p < cl(s).len() ==> (#[trigger] cl(s)[p]).1@.len() > 0;

/// The text of a run of clusters is the clusters' texts, in order.
pub open spec fn ctext(s: &str, p: int, q: int) -> Seq<char>
    decreases q - p,
{
    if p >= q || q > cl(s).len() || p < 0 { Seq::empty() } else { ctext(s, p, q - 1) + cl(s)[q - 1].1@ }
}
pub axiom fn ax_piece(s: &str, p: int, q: int)
    requires 0 <= p <= q <= cl(s).len(),
    ensures piece(s, off(s, p), off(s, q)) == ctext(s, p, q);

#[verifier::external_body]
pub fn vstr_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires
        a <= b,
        b <= blen(s),
        bdry(s, a),
        bdry(s, b),
    ensures
        lo_of(r) == a,
        hi_of(r) == b,
        r@ == piece(s, a, b),
{ &s[a..b] }

pub trait VSource {
    fn grapheme_indices<'a>(&'a self, extended: bool) -> GraphemeIndices<'a>;
}
impl VSource for str {
    #[verifier::external_body]
    fn grapheme_indices<'a>(&'a self, extended: bool) -> (r: GraphemeIndices<'a>)
        ensures extended ==> r@ == cl(self),
    { GraphemeIndices { p: vclusters(self, extended) } }
}
#[verifier::external_body]
pub struct GraphemeIndices<'a> { p: Vec<(usize, &'a str)> }
#[cfg(vx_exec)]
#[verifier::external]
fn vclusters<'a>(s: &'a str, extended: bool) -> Vec<(usize, &'a str)> {
    unicode_segmentation::UnicodeSegmentation::grapheme_indices(s, extended).collect()
}
#[cfg(not(vx_exec))]
#[verifier::external]
fn vclusters<'a>(s: &'a str, extended: bool) -> Vec<(usize, &'a str)> { unimplemented!() }
impl<'a> GraphemeIndices<'a> {
    pub uninterp spec fn view(&self) -> Seq<(usize, &'a str)>;
    #[verifier::external_body]
    pub fn peekable(self) -> (r: Peekable<GraphemeIndices<'a>>)
        ensures r@ == self@,
    { Peekable { p: self, at: 0 } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Peekable<I> { p: I, at: usize }
impl<'a> Peekable<GraphemeIndices<'a>> {
    pub uninterp spec fn view(&self) -> Seq<(usize, &'a str)>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&(usize, &'a str)>)
        ensures
            final(self)@ == old(self)@,
            match r {
                None => old(self)@.len() == 0,
                Some(x) => old(self)@.len() > 0 && *x == old(self)@[0],
            },
    { self.p.p.get(self.at) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a str)>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        },
    { let x = self.p.p.get(self.at).copied(); if x.is_some() { self.at += 1; } x }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { Peekable { p: GraphemeIndices { p: self.p.p.clone() }, at: self.at } }
}
