//#module ast
use crate::error::ParseErrorCause;
/// With k, positions; tr: an expression may end the text without a terminator.
pub struct C { pub k: bool, pub tr: bool }
/// Where an error is, and the text it names.
pub struct EL { pub loc: SourceLoc, pub tok: Option<Seq<char>> }
pub open spec fn mkel(l: SourceLoc, s: Option<Seq<char>>, c: C) -> EL {
    if c.k { EL { loc: l, tok: s } } else { EL { loc: lk(l, false), tok: None } }
}
pub open spec fn el(e: ParseErrorCause, c: C) -> EL {
    mkel(e.source_loc, match e.token { Some(s) => Some(s@), None => None }, c)
}
pub open spec fn els(s: Seq<ParseErrorCause>, c: C) -> Seq<EL> { Seq::new(s.len(), |i: int| el(s[i], c)) }
pub broadcast proof fn els_push(s: Seq<ParseErrorCause>, x: ParseErrorCause, c: C)
    ensures #[trigger] els(s.push(x), c) == els(s, c).push(el(x, c)),
{ assert(els(s.push(x), c) =~= els(s, c).push(el(x, c))); }
pub broadcast proof fn els_none(c: C)
    ensures #[trigger] els(Seq::empty(), c) == Seq::<EL>::empty(),
{ assert(els(Seq::empty(), c) =~= Seq::empty()); }
//#module token
use crate::source_loc::SourceLoc;
pub open spec fn tloc(t: Token) -> SourceLoc { SourceLoc { line: t.line, column: t.column } }
//#module ast
use crate::token::*;
use crate::token::TokenType as K;
// ------------------------------------------------ the grammar
/// A derivation that ends before token `.1`, or an error noticed there.
pub enum Res<A> { Yes(A, int), No(EL, int) }
pub use Res::*;

pub open spec fn tk(t: Seq<Token>, i: int) -> K { if 0 <= i < t.len() { t[i].token_type } else { K::Eof } }
pub open spec fn tx(t: Seq<Token>, i: int) -> Seq<char> { t[i].lexeme@ }
pub open spec fn lc(t: Seq<Token>, i: int, c: C) -> SourceLoc { lk(tloc(t[i]), c.k) }
/// Not the case: a derivation from i ends after i.
pub open spec fn off_end(t: Seq<Token>, i: int, j: int) -> bool { j <= i || j > t.len() }
/// No next token after the end of the text.
pub open spec fn adv(t: Seq<Token>, i: int) -> int { if tk(t, i) == K::Eof { i } else { i + 1 } }
/// An error at token i.
pub open spec fn at(t: Seq<Token>, i: int, c: C) -> EL { mkel(tloc(t[i]), Some(tx(t, i)), c) }
/// An error at the last token consumed before i.
pub open spec fn last(t: Seq<Token>, i: int, c: C) -> EL {
    if i <= 0 { mkel(SourceLoc { line: 1, column: 1 }, None, c) } else { at(t, i - 1, c) }
}
/// An error at token i which names the text s.
pub open spec fn named(t: Seq<Token>, i: int, s: Seq<char>, c: C) -> EL { mkel(tloc(t[i]), Some(s), c) }
pub open spec fn paren(k: K) -> bool { k == K::LeftParen || k == K::LeftParenAbutting }
pub open spec fn keytok(k: K) -> bool { k == K::Identifier || k == K::String }
/// What may follow an expression as its argument, without parentheses.
pub open spec fn starts_arg(k: K) -> bool {
    k == K::False || k == K::True || k == K::Nil || k == K::Number || k == K::String || k == K::Identifier || k == K::Fun
    || k == K::LeftParen || k == K::LeftBrace || k == K::Super
}
/// The binary operators, loosest first.
pub open spec fn is_binop(k: K, l: int) -> bool {
    (l == 0 && k == K::Or) || (l == 1 && k == K::And) || (l == 2 && (k == K::BangEqual || k == K::EqualEqual))
    || (l == 3 && (k == K::Less || k == K::LessEqual || k == K::Greater || k == K::GreaterEqual))
    || (l == 4 && (k == K::Minus || k == K::Plus)) || (l == 5 && (k == K::Slash || k == K::Star))
}
pub open spec fn binop(k: K) -> BinaryOperator {
    match k {
        K::BangEqual => BinaryOperator::NotEqual, K::EqualEqual => BinaryOperator::Equal,
        K::Less => BinaryOperator::Less, K::LessEqual => BinaryOperator::LessEqual,
        K::Greater => BinaryOperator::Greater, K::GreaterEqual => BinaryOperator::GreaterEqual,
        K::Minus => BinaryOperator::Minus, K::Plus => BinaryOperator::Plus,
        K::Slash => BinaryOperator::Divide, _ => BinaryOperator::Multiply,
    }
}
pub open spec fn mkbin(k: K, x: SE, y: SE, l: SourceLoc) -> SE {
    if k == K::Or { SE::Logical(Box::new(x), LogicalOperator::Or, Box::new(y)) }
    else if k == K::And { SE::Logical(Box::new(x), LogicalOperator::And, Box::new(y)) }
    else { SE::Binary(Box::new(x), binop(k), Box::new(y), l) }
}

#[unfold]
pub open spec fn p_expr(t: Seq<Token>, i: int, c: C) -> Res<SE> decreases t.len() - i, 60int { p_assign(t, i, c) }

#[unfold]
pub open spec fn p_assign(t: Seq<Token>, i: int, c: C) -> Res<SE> decreases t.len() - i, 59int {
    match (if tk(t, i) == K::Indent {
        match p_lvl(t, i + 1, 0, c) {
            No(e, j) => No::<SE>(e, j),
            Yes(x, j0) => {
                let j = if tk(t, j0) == K::Terminator { j0 + 1 } else { j0 };
                if tk(t, j) == K::Outdent { Yes(x, j + 1) } else { No(at(t, j, c), j) }
            }
        }
    } else { p_lvl(t, i, 0, c) }) {
        No(e, j) => No(e, j),
        Yes(x, j) => if tk(t, j) == K::Equal && j >= i {
            match p_assign(t, j + 1, c) { No(e, j2) => No(e, j2), Yes(v, j2) => assign_to(t, x, v, j, j2, c) }
        } else { Yes(x, j) },
    }
}
/// `x = v` with the equals sign at j.
pub open spec fn assign_to(t: Seq<Token>, x: SE, v: SE, j: int, j2: int, c: C) -> Res<SE> {
    let bad = No(named(t, j, "="@, c), j2);
    match x {
        SE::Get(o, n, _) => Yes(SE::Set(o, n, Box::new(v), lc(t, j, c)), j2),
        SE::GetIndex(o, n, _) => Yes(SE::SetIndex(o, n, Box::new(v), lc(t, j, c)), j2),
        SE::Variable(n, _) => if n == "this"@ { bad } else { Yes(SE::Assign(n, Box::new(v), lc(t, j, c)), j2) },
        _ => bad,
    }
}
/// Operators of level l and tighter.
#[unfold]
pub open spec fn p_lvl(t: Seq<Token>, i: int, l: int, c: C) -> Res<SE> decreases t.len() - i, 40 - 2 * l {
    if l < 0 || l > 5 { arbitrary() } else {
        match (if l == 5 { p_unary(t, i, c) } else { p_lvl(t, i, l + 1, c) }) {
            No(e, j) => No(e, j),
            Yes(x, j) => if off_end(t, i - 1, j) { arbitrary() } else { p_rest(t, j, l, x, c) },
        }
    }
}
/// `x` has been read; more operands of level l may follow.
#[unfold]
pub open spec fn p_rest(t: Seq<Token>, j: int, l: int, x: SE, c: C) -> Res<SE> decreases t.len() - j, 39 - 2 * l {
    if 0 <= l < 6 && is_binop(tk(t, j), l) {
        match (if l == 5 { p_unary(t, j + 1, c) } else { p_lvl(t, j + 1, l + 1, c) }) {
            No(e, j2) => No(e, j2),
            Yes(y, j2) => if off_end(t, j, j2) { arbitrary() } else { p_rest(t, j2, l, mkbin(tk(t, j), x, y, lc(t, j, c)), c) },
        }
    } else { Yes(x, j) }
}
#[unfold]
pub open spec fn p_unary(t: Seq<Token>, i: int, c: C) -> Res<SE> decreases t.len() - i, 25int {
    if tk(t, i) == K::Bang || tk(t, i) == K::Minus {
        match p_unary(t, i + 1, c) {
            No(e, j) => No(e, j),
            Yes(x, j) => Yes(SE::Unary(if tk(t, i) == K::Bang { UnaryOperator::Not } else { UnaryOperator::Minus }, Box::new(x), lc(t, i, c)), j),
        }
    } else { p_call(t, i, c) }
}
#[unfold]
pub open spec fn p_call(t: Seq<Token>, i: int, c: C) -> Res<SE> decreases t.len() - i, 24int {
    match p_primary(t, i, c) { No(e, j) => No(e, j), Yes(x, j) => if off_end(t, i, j) { Yes(x, j) } else { p_calls(t, j, x, c) } }
}
/// `x` has been read; accesses and arguments may follow.
#[unfold]
pub open spec fn p_calls(t: Seq<Token>, j: int, x: SE, c: C) -> Res<SE> decreases t.len() - j, 70int {
    if tk(t, j) == K::Dot {
        if tk(t, j + 1) == K::Identifier { p_calls(t, j + 2, SE::Get(Box::new(x), tx(t, j + 1), lc(t, j, c)), c) } else { No(at(t, j + 1, c), j + 1) }
    } else if tk(t, j) == K::LeftParenAbutting {
        match p_args(t, j + 1, c) { No(e, j2) => No(e, j2), Yes(a, j2) => if off_end(t, j, j2) { arbitrary() } else { p_calls(t, j2, SE::Call(Box::new(x), a, lc(t, j, c)), c) } }
    } else if tk(t, j) == K::LeftBracket {
        match p_index(t, j + 1, c) { No(e, j2) => No(e, j2), Yes(y, j2) => if off_end(t, j, j2) { arbitrary() } else { p_calls(t, j2, SE::GetIndex(Box::new(x), Box::new(y), lc(t, j, c)), c) } }
    } else if starts_arg(tk(t, j)) {
        match p_list(t, j, seq![], c) { No(e, j2) => No(e, j2), Yes(a, j2) => if off_end(t, j, j2) { arbitrary() } else { p_calls(t, j2, SE::Call(Box::new(x), a, lc(t, j, c)), c) } }
    } else { Yes(x, j) }
}
#[unfold]
pub open spec fn p_index(t: Seq<Token>, i: int, c: C) -> Res<SE> decreases t.len() - i, 65int {
    match p_expr(t, i, c) { No(e, j) => No(e, j), Yes(x, j) => if tk(t, j) == K::RightBracket { Yes(x, j + 1) } else { No(at(t, j, c), j) } }
}
/// At least one expression, after those in acc.
#[unfold]
pub open spec fn p_list(t: Seq<Token>, i: int, acc: Seq<SE>, c: C) -> Res<Seq<SE>> decreases t.len() - i, 65int {
    if acc.len() >= 255 { No(at(t, i, c), i) } else {
        match p_expr(t, i, c) {
            No(e, j) => No(e, j),
            Yes(x, j) => if tk(t, j) == K::Comma && j >= i { p_list(t, j + 1, acc.push(x), c) } else { Yes(acc.push(x), j) },
        }
    }
}
#[unfold]
pub open spec fn p_args(t: Seq<Token>, i: int, c: C) -> Res<Seq<SE>> decreases t.len() - i, 66int {
    match (if tk(t, i) == K::RightParen { Yes(Seq::<SE>::empty(), i) } else { p_list(t, i, seq![], c) }) {
        No(e, j) => No(e, j),
        Yes(a, j) => if tk(t, j) == K::RightParen { Yes(a, j + 1) } else { No(at(t, j, c), j) },
    }
}
#[unfold]
pub open spec fn p_elems(t: Seq<Token>, i: int, acc: Seq<SE>, c: C) -> Res<Seq<SE>> decreases t.len() - i, 65int {
    match p_expr(t, i, c) {
        No(e, j) => No(e, j),
        Yes(x, j) => if tk(t, j) == K::Comma && j >= i {
            if tk(t, j + 1) == K::RightBracket { Yes(acc.push(x), j + 1) } else { p_elems(t, j + 1, acc.push(x), c) }
        } else { Yes(acc.push(x), j) },
    }
}
#[unfold]
pub open spec fn p_array(t: Seq<Token>, i: int, c: C) -> Res<Seq<SE>> decreases t.len() - i, 66int {
    match (if tk(t, i) == K::RightBracket { Yes(Seq::<SE>::empty(), i) } else { p_elems(t, i, seq![], c) }) {
        No(e, j) => No(e, j),
        Yes(a, j) => if tk(t, j) == K::RightBracket { Yes(a, j + 1) } else { No(at(t, j, c), j) },
    }
}
#[unfold]
pub open spec fn p_primary(t: Seq<Token>, i: int, c: C) -> Res<SE> decreases t.len() - i, 23int {
    let k = tk(t, i);
    if k == K::False { Yes(SE::Bool(false), i + 1) }
    else if k == K::True { Yes(SE::Bool(true), i + 1) }
    else if k == K::Nil { Yes(SE::Nil, i + 1) }
    else if k == K::Number { Yes(SE::Number(t[i].float_literal->0), i + 1) }
    else if k == K::String || k == K::Identifier || k == K::This {
        if tk(t, i + 1) == K::Colon {
            match p_map(t, i, seq![], c) { No(e, j) => No(e, j), Yes(m, j) => Yes(SE::Map(m), j) }
        } else if k == K::String { Yes(SE::Str(t[i].string_literal->0@), i + 1) }
        else { Yes(SE::Variable(tx(t, i), lc(t, i, c)), i + 1) }
    }
    else if k == K::Fun {
        if tk(t, i + 1) == K::Identifier { No(at(t, i + 1, c), i + 2) } else {
            match p_fun(t, i + 1, lc(t, i, c), c) { No(e, j) => No(e, j), Yes(f, j) => Yes(SE::Function(f), j) }
        }
    }
    else if paren(k) {
        match p_expr(t, i + 1, c) {
            No(e, j) => No(e, j),
            Yes(x, j) => if tk(t, j) == K::RightParen { Yes(SE::Grouping(Box::new(x)), j + 1) } else { No(at(t, j, c), j) },
        }
    }
    else if k == K::LeftBrace {
        match p_map(t, i + 1, seq![], c) {
            No(e, j) => No(e, j),
            Yes(m, j) => if tk(t, j) == K::RightBrace { Yes(SE::Map(m), j + 1) } else { No(at(t, j, c), j) },
        }
    }
    else if k == K::LeftBracket {
        match p_array(t, i + 1, c) { No(e, j) => No(e, j), Yes(a, j) => Yes(SE::Array(a), j) }
    }
    else if k == K::Super {
        if tk(t, i + 1) != K::Dot { No(at(t, i + 1, c), i + 1) }
        else if tk(t, i + 2) != K::Identifier { No(at(t, i + 2, c), i + 2) }
        else { Yes(SE::Super(tx(t, i + 2), lc(t, i, c)), i + 3) }
    }
    else { No(last(t, adv(t, i), c), adv(t, i)) }
}
pub open spec fn key(t: Token) -> Seq<char> { if t.token_type == K::Identifier { t.lexeme@ } else { t.string_literal->0@ } }
/// The entries of a map literal, after those in acc.
#[unfold]
pub open spec fn p_map(t: Seq<Token>, i: int, acc: Seq<(Seq<char>, SE)>, c: C) -> Res<Seq<(Seq<char>, SE)>> decreases t.len() - i, 20int {
    if keytok(tk(t, i)) && tk(t, i + 1) == K::Colon {
        match p_expr(t, i + 2, c) {
            No(e, j) => No(e, j),
            Yes(v, j) => if has_key(acc, key(t[i])) { No(named(t, i, key(t[i]), c), j) }
                else if j > i && (tk(t, j) == K::Comma
                    || tk(t, j) == K::Terminator && (keytok(tk(t, j + 1)) && tk(t, j + 2) == K::Colon || tk(t, j + 1) == K::RightBrace))
                { p_map(t, j + 1, acc.push((key(t[i]), v)), c) }
                else { Yes(acc.push((key(t[i]), v)), j) },
        }
    } else { Yes(acc, i) }
}
pub open spec fn p_params(t: Seq<Token>, i: int, acc: Seq<(Seq<char>, SourceLoc)>, c: C) -> Res<Seq<(Seq<char>, SourceLoc)>> decreases t.len() - i {
    if tk(t, i) != K::Identifier { No(at(t, i, c), i) }
    else if acc.len() >= 255 { No(at(t, i, c), i + 1) }
    else if tk(t, i + 1) == K::Comma { p_params(t, i + 2, acc.push((tx(t, i), lc(t, i, c))), c) }
    else { Yes(acc.push((tx(t, i), lc(t, i, c))), i + 1) }
}
pub open spec fn p_paramlist(t: Seq<Token>, i: int, c: C) -> Res<Seq<(Seq<char>, SourceLoc)>> {
    if !paren(tk(t, i)) { No(at(t, i, c), i) } else {
        match (if tk(t, i + 1) == K::RightParen { Yes(Seq::<(Seq<char>, SourceLoc)>::empty(), i + 1) } else { p_params(t, i + 1, seq![], c) }) {
            No(e, j) => No(e, j),
            Yes(a, j) => if tk(t, j) == K::RightParen { Yes(a, j + 1) } else { No(at(t, j, c), j) },
        }
    }
}
/// The start of a block: how it will end.
pub open spec fn p_begin(t: Seq<Token>, i: int, c: C) -> Res<K> {
    if tk(t, i) == K::Terminator { if tk(t, i + 1) == K::Indent { Yes(K::Outdent, i + 2) } else { No(at(t, i + 1, c), i + 1) } }
    else if tk(t, i) == K::LeftBrace { Yes(K::RightBrace, i + 1) }
    else { No(at(t, i, c), i) }
}
/// Parameters and body; no loop around the function extends into it.
#[unfold]
pub open spec fn p_fun(t: Seq<Token>, i: int, loc: SourceLoc, c: C) -> Res<SF> decreases t.len() - i, 64int {
    match p_paramlist(t, i, c) {
        No(e, j) => No(e, j),
        Yes(ps, j) => match p_begin(t, j, c) {
            No(e, j2) => No(e, j2),
            Yes(end, j2) => if off_end(t, i, j2) { arbitrary() } else {
                match p_block(t, j2, end, seq![], false, c) {
                    No(e, j3) => No(e, j3),
                    Yes(b, j3) => Yes(SF { params: ps, body: b, ft: FunctionType::PlainFunction, loc }, j3),
                }
            },
        },
    }
}
/// Statements up to and with the end of the block.
#[unfold]
pub open spec fn p_block(t: Seq<Token>, i: int, end: K, acc: Seq<SS>, lp: bool, c: C) -> Res<Seq<SS>> decreases t.len() - i, 90int {
    if tk(t, i) == end { Yes(acc, i + 1) }
    else if tk(t, i) == K::Eof { No(at(t, i, c), i) }
    else {
        match p_decl(t, i, lp, c) { No(e, j) => No(e, j), Yes(s, j) => if off_end(t, i, j) { arbitrary() } else { p_block(t, j, end, acc.push(s), lp, c) } }
    }
}
#[unfold]
pub open spec fn p_decl(t: Seq<Token>, i: int, lp: bool, c: C) -> Res<SS> decreases t.len() - i, 85int {
    if tk(t, i) == K::Class { p_class(t, i + 1, c) }
    else if tk(t, i) == K::Fun && tk(t, i + 1) == K::Identifier {
        match p_named(t, i + 1, c) { No(e, j) => No(e, j), Yes(f, j) => Yes(SS::Fun(f), j) }
    }
    else if tk(t, i) == K::Var { p_var(t, i + 1, false, c) }
    else { p_stmt(t, i, lp, c) }
}
#[unfold]
pub open spec fn p_named(t: Seq<Token>, i: int, c: C) -> Res<SN> decreases t.len() - i, 65int {
    if tk(t, i) != K::Identifier { No(at(t, i, c), i) } else {
        match p_fun(t, i + 1, lc(t, i, c), c) { No(e, j) => No(e, j), Yes(f, j) => Yes(SN { name: tx(t, i), f }, j) }
    }
}
#[unfold]
pub open spec fn p_class(t: Seq<Token>, i: int, c: C) -> Res<SS> decreases t.len() - i, 66int {
    if tk(t, i) != K::Identifier { No(at(t, i, c), i) }
    else if tk(t, i + 1) == K::Less && tk(t, i + 2) != K::Identifier { No(at(t, i + 2, c), i + 2) }
    else {
        let sup = if tk(t, i + 1) == K::Less { Some(SE::Variable(tx(t, i + 2), lc(t, i + 2, c))) } else { None };
        match p_begin(t, if tk(t, i + 1) == K::Less { i + 3 } else { i + 1 }, c) {
            No(e, j) => No(e, j),
            Yes(end, j) => if off_end(t, i, j) { arbitrary() } else {
                match p_methods(t, j, end, seq![], c) {
                    No(e, j2) => No(e, j2),
                    Yes(m, j2) => if tk(t, j2) == end { Yes(SS::Class(tx(t, i), sup, m, lc(t, i, c)), j2 + 1) } else { No(at(t, j2, c), j2) },
                }
            },
        }
    }
}
pub open spec fn with_ft(f: SN, cm: bool) -> SN {
    SN { name: f.name, f: SF { ft: if cm { FunctionType::ClassMethod } else if f.name == "init"@ { FunctionType::Initializer } else { FunctionType::Method }, ..f.f } }
}
#[unfold]
pub open spec fn p_methods(t: Seq<Token>, i: int, end: K, acc: Seq<SN>, c: C) -> Res<Seq<SN>> decreases t.len() - i, 67int {
    if tk(t, i) == end || tk(t, i) == K::Eof { Yes(acc, i) } else {
        match p_named(t, if tk(t, i) == K::Class { i + 1 } else { i }, c) {
            No(e, j) => No(e, j),
            Yes(f, j) => if off_end(t, i, j) { arbitrary() } else { p_methods(t, j, end, acc.push(with_ft(f, tk(t, i) == K::Class)), c) },
        }
    }
}
#[unfold]
pub open spec fn p_var(t: Seq<Token>, i: int, for_init: bool, c: C) -> Res<SS> decreases t.len() - i, 65int {
    if tk(t, i) != K::Identifier { No(at(t, i, c), i) } else {
        let j0 = if tk(t, i + 2) == K::Terminator { i + 3 } else { i + 2 };
        let bare = tk(t, i + 1) != K::Equal || tk(t, j0) != K::Indent && tk(t, j0) != K::LeftBrace;
        match (if tk(t, i + 1) == K::Equal { p_expr(t, j0, c) } else { Yes(SE::Nil, i + 1) }) {
            No(e, j) => No(e, j),
            Yes(x, j) => {
                let s = SS::Var(tx(t, i), x, lc(t, i, c));
                if for_init { if tk(t, j) == K::Semicolon { Yes(s, j + 1) } else { No(at(t, j, c), j) } }
                else if tk(t, j) == K::Terminator { Yes(s, j + 1) }
                else if bare { No(at(t, j, c), j) }
                else { Yes(s, j) }
            }
        }
    }
}
#[unfold]
pub open spec fn p_stmt(t: Seq<Token>, i: int, lp: bool, c: C) -> Res<SS> decreases t.len() - i, 84int {
    let k = tk(t, i);
    if k == K::Break || k == K::Continue { p_jump(t, i + 1, k == K::Break, lp, lc(t, i, c), c) }
    else if k == K::For { p_for(t, i + 1, c) }
    else if k == K::If { p_if(t, i + 1, lp, c) }
    else if k == K::LeftBrace { match p_block(t, i + 1, K::RightBrace, seq![], lp, c) { No(e, j) => No(e, j), Yes(b, j) => Yes(SS::Block(b), j) } }
    else if k == K::Print { match p_line(t, i + 1, c) { No(e, j) => No(e, j), Yes(x, j) => Yes(SS::Print(x), j) } }
    else if k == K::Return { p_return(t, i + 1, lc(t, i, c), c) }
    else if k == K::While { p_while(t, i + 1, c) }
    else { p_estmt(t, i, c) }
}
/// After break or continue, which stand only in a loop.
pub open spec fn p_jump(t: Seq<Token>, i: int, brk: bool, lp: bool, loc: SourceLoc, c: C) -> Res<SS> {
    if !lp { No(last(t, i, c), i) }
    else if tk(t, i) != K::Terminator { No(at(t, i, c), i) }
    else { Yes(if brk { SS::Break(loc) } else { SS::Continue(loc) }, i + 1) }
}
#[unfold]
pub open spec fn p_return(t: Seq<Token>, i: int, loc: SourceLoc, c: C) -> Res<SS> decreases t.len() - i, 62int {
    if tk(t, i) == K::Terminator { Yes(SS::Return(SE::Nil, loc), i + 1) }
    else { match p_line(t, i, c) { No(e, j) => No(e, j), Yes(x, j) => Yes(SS::Return(x, loc), j) } }
}
#[unfold]
pub open spec fn p_line(t: Seq<Token>, i: int, c: C) -> Res<SE> decreases t.len() - i, 61int {
    match p_expr(t, i, c) { No(e, j) => No(e, j), Yes(x, j) => if tk(t, j) == K::Terminator { Yes(x, j + 1) } else { No(at(t, j, c), j) } }
}
#[unfold]
pub open spec fn p_estmt(t: Seq<Token>, i: int, c: C) -> Res<SS> decreases t.len() - i, 61int {
    match p_expr(t, i, c) {
        No(e, j) => No(e, j),
        Yes(x, j) => if tk(t, j) == K::Terminator { Yes(SS::Expr(x), j + 1) }
            else if c.tr && tk(t, j) == K::Eof { Yes(SS::Expr(x), j) }
            else { No(at(t, j, c), j) },
    }
}
/// A block or a statement.
#[unfold]
pub open spec fn p_branch(t: Seq<Token>, i: int, lp: bool, c: C) -> Res<SS> decreases t.len() - i, 91int {
    if tk(t, i) == K::Terminator || tk(t, i) == K::LeftBrace {
        match p_begin(t, i, c) {
            No(e, j) => No(e, j),
            Yes(end, j) => if off_end(t, i, j) { arbitrary() } else {
                match p_block(t, j, end, seq![], lp, c) { No(e, j2) => No(e, j2), Yes(b, j2) => Yes(SS::Block(b), j2) }
            },
        }
    } else { p_stmt(t, i, lp, c) }
}
/// A parenthesised condition.
#[unfold]
pub open spec fn p_cond(t: Seq<Token>, i: int, c: C) -> Res<SE> decreases t.len() - i, 61int {
    if !paren(tk(t, i)) { No(at(t, i, c), i) } else {
        match p_expr(t, i + 1, c) { No(e, j) => No(e, j), Yes(x, j) => if tk(t, j) == K::RightParen { Yes(x, j + 1) } else { No(at(t, j, c), j) } }
    }
}
#[unfold]
pub open spec fn p_if(t: Seq<Token>, i: int, lp: bool, c: C) -> Res<SS> decreases t.len() - i, 66int {
    match p_cond(t, i, c) {
        No(e, j) => No(e, j),
        Yes(x, j) => if off_end(t, i, j) { arbitrary() } else {
            match p_branch(t, j, lp, c) {
                No(e, j2) => No(e, j2),
                Yes(a, j2) => if j2 > i && tk(t, j2) == K::Else {
                    match p_stmt(t, j2 + 1, lp, c) { No(e, j3) => No(e, j3), Yes(b, j3) => Yes(SS::If(x, Box::new(a), Some(Box::new(b))), j3) }
                } else { Yes(SS::If(x, Box::new(a), None), j2) },
            }
        },
    }
}
#[unfold]
pub open spec fn p_while(t: Seq<Token>, i: int, c: C) -> Res<SS> decreases t.len() - i, 66int {
    match p_cond(t, i, c) {
        No(e, j) => No(e, j),
        Yes(x, j) => if off_end(t, i, j) { arbitrary() } else {
            match p_branch(t, j, true, c) { No(e, j2) => No(e, j2), Yes(b, j2) => Yes(SS::While(x, Box::new(b)), j2) }
        },
    }
}
#[unfold]
pub open spec fn p_init(t: Seq<Token>, i: int, c: C) -> Res<Option<SS>> decreases t.len() - i, 66int {
    if tk(t, i) == K::Semicolon { Yes(None, i + 1) }
    else if tk(t, i) == K::Var { match p_var(t, i + 1, true, c) { No(e, j) => No(e, j), Yes(s, j) => Yes(Some(s), j) } }
    else { match p_expr(t, i, c) { No(e, j) => No(e, j), Yes(x, j) => if tk(t, j) == K::Semicolon { Yes(Some(SS::Expr(x)), j + 1) } else { No(at(t, j, c), j) } } }
}
#[unfold]
pub open spec fn p_test(t: Seq<Token>, i: int, c: C) -> Res<SE> decreases t.len() - i, 66int {
    match (if tk(t, i) == K::Semicolon { Yes(SE::Bool(true), i) } else { p_expr(t, i, c) }) {
        No(e, j) => No(e, j),
        Yes(x, j) => if tk(t, j) == K::Semicolon { Yes(x, j + 1) } else { No(at(t, j, c), j) },
    }
}
#[unfold]
pub open spec fn p_step(t: Seq<Token>, i: int, c: C) -> Res<Option<SE>> decreases t.len() - i, 66int {
    match (if tk(t, i) == K::RightParen { Yes(None::<SE>, i) } else { match p_expr(t, i, c) { No(e, j) => No(e, j), Yes(x, j) => Yes(Some(x), j) } }) {
        No(e, j) => No(e, j),
        Yes(x, j) => if tk(t, j) == K::RightParen { Yes(x, j + 1) } else { No(at(t, j, c), j) },
    }
}
pub open spec fn mkfor(init: Option<SS>, x: SE, step: Option<SE>, b: SS) -> SS {
    let w = match step { None => SS::While(x, Box::new(b)), Some(y) => SS::WhileInc(x, Box::new(b), y) };
    match init { None => w, Some(s) => SS::Block(seq![s, w]) }
}
#[unfold]
pub open spec fn p_for(t: Seq<Token>, i: int, c: C) -> Res<SS> decreases t.len() - i, 67int {
    if !paren(tk(t, i)) { No(at(t, i, c), i) } else {
        match p_init(t, i + 1, c) {
            No(e, j) => No(e, j),
            Yes(init, j) => if off_end(t, i, j) { arbitrary() } else { match p_test(t, j, c) {
                No(e, j2) => No(e, j2),
                Yes(x, j2) => if off_end(t, j, j2) { arbitrary() } else { match p_step(t, j2, c) {
                    No(e, j3) => No(e, j3),
                    Yes(step, j3) => if off_end(t, j2, j3) { arbitrary() } else {
                        match p_branch(t, j3, true, c) { No(e, j4) => No(e, j4), Yes(b, j4) => Yes(mkfor(init, x, step, b), j4) }
                    },
                } },
            } },
        }
    }
}
/// Where parsing goes on after an error noticed at i: behind the next token that
/// starts a statement.
pub open spec fn sync(t: Seq<Token>, i: int) -> int decreases t.len() - i {
    if tk(t, i) == K::Eof { i }
    else if i > 0 && ({
        let k = tk(t, i - 1);
        k == K::Class || k == K::Fun || k == K::Var || k == K::For || k == K::If || k == K::While || k == K::Print || k == K::Return
    }) { i }
    else { sync(t, i + 1) }
}
/// The statements of a program and its errors.
pub open spec fn p_prog(t: Seq<Token>, i: int, acc: Seq<SS>, errs: Seq<EL>, c: C) -> (Seq<SS>, Seq<EL>) decreases t.len() - i {
    if tk(t, i) == K::Eof { (acc, errs) } else {
        match p_decl(t, i, false, c) {
            Yes(s, j) => if off_end(t, i, j) { arbitrary() } else { p_prog(t, j, acc.push(s), errs, c) },
            No(e, j) => if off_end(t, i, sync(t, adv(t, j))) { arbitrary() } else { p_prog(t, sync(t, adv(t, j)), acc, errs.push(e), c) },
        }
    }
}
