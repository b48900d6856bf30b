//#module source_loc
impl<'a> vstd::std_specs::convert::FromSpecImpl<&Token<'a>> for SourceLoc {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: &Token<'a>) -> SourceLoc { SourceLoc { line: t.line, column: t.column } }
}
//#module error
/// Errors added to `o` are located at `a` or `b`.
#[verifier::opaque]
pub open spec fn errs_at(o: Seq<ParseErrorCause>, t: Seq<ParseErrorCause>, a: SourceLoc, b: SourceLoc) -> bool {
    forall|i: int| o.len() <= i < t.len() ==> (#[trigger] t[i]).source_loc == a || t[i].source_loc == b
}
pub broadcast proof fn errs_refl(o: Seq<ParseErrorCause>, a: SourceLoc, b: SourceLoc)
    ensures #[trigger] errs_at(o, o, a, b),
{ reveal(errs_at); }
pub broadcast proof fn errs_trans(o: Seq<ParseErrorCause>, m: Seq<ParseErrorCause>, t: Seq<ParseErrorCause>, a: SourceLoc, b: SourceLoc)
    requires #[trigger] errs_at(o, m, a, b), #[trigger] errs_at(m, t, a, b), prefix(m, t),
    ensures errs_at(o, t, a, b),
{ reveal(errs_at); reveal(prefix); }
pub broadcast group error_seqs { errs_refl, errs_trans }
impl vstd::std_specs::convert::FromSpecImpl<ParseErrorCause> for ParseError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(t: ParseErrorCause) -> ParseError { arbitrary() }
}
//#module token
pub proof fn toks_lit(t: Seq<Token>, i: int)
    requires toks_ok(t), 0 <= i < t.len(),
    ensures lit_ok(t[i]),
{ reveal(toks_ok); }
/// What the scanner guarantees of a token list (proved in scan.ov).
#[verifier::opaque]
pub open spec fn toks_ok(t: Seq<Token>) -> bool {
    &&& t.len() > 0 && t.last().token_type == TokenType::Eof
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> (#[trigger] t[i]).token_type != TokenType::Eof
    &&& forall|i: int| 0 <= i < t.len() ==> lit_ok(#[trigger] t[i])
}
pub open spec fn lit_ok(t: Token) -> bool {
    (t.token_type == TokenType::String ==> t.string_literal is Some) && (t.token_type == TokenType::Number ==> t.float_literal is Some)
}
//#fn source_loc::SourceLoc::new
@ens r == (SourceLoc { line, column })
//#fn source_loc::SourceLoc::default
@ens r == (SourceLoc { line: 1, column: 1 })
//#fn error::ParseError::new
@ens r.causes@ == causes@
//#fn error::ParseError::from
@ens r.causes@ == seq![error]
//#fn error::ParseErrorCause::new
@ens r.source_loc == source_loc
@ens r.token is None && r.message@ == message@
//#fn error::ParseErrorCause::new_with_location
@ens r.source_loc == source_loc
@ens r.token is Some && r.token->0@ == token@ && r.message@ == message@
//#fn error::ParseErrorCause::new_with_location_string
@ens r.source_loc == source_loc
@ens r.token == Some(token) && r.message@ == message@
//#fn token::Token::new
@ens r.token_type == token_type && r.lexeme == lexeme && r.string_literal == string_literal && r.float_literal == float_literal && r.line == line && r.column == column

