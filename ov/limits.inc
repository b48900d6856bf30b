//#module ast
// ------------------------------------------------ P04 and P05 on trees
/// q: the limits; otherwise break and continue only in loops.
#[verifier::opaque]
pub open spec fn ok_e(x: SE, q: bool) -> bool decreases x {
    match x {
        SE::Assign(n, v, _) => (q ==> n != "this"@) && ok_e(*v, q),
        SE::Call(f, a, _) => ok_e(*f, q) && ok_es(a, q) && (q ==> a.len() <= 255),
        SE::Binary(a, _, b, _) => ok_e(*a, q) && ok_e(*b, q),
        SE::Function(f) => ok_f(f, q),
        SE::Get(o, _, _) => ok_e(*o, q),
        SE::GetIndex(o, i, _) => ok_e(*o, q) && ok_e(*i, q),
        SE::Grouping(x) => ok_e(*x, q),
        SE::Array(a) => ok_es(a, q),
        SE::Map(m) => ok_m(m, q) && (q ==> distinct(m)),
        SE::Logical(a, _, b) => ok_e(*a, q) && ok_e(*b, q),
        SE::Set(o, _, v, _) => ok_e(*o, q) && ok_e(*v, q),
        SE::SetIndex(o, i, v, _) => ok_e(*o, q) && ok_e(*i, q) && ok_e(*v, q),
        SE::Unary(_, x, _) => ok_e(*x, q),
        _ => true,
    }
}
pub open spec fn ok_es(s: Seq<SE>, q: bool) -> bool decreases s { forall|i: int| 0 <= i < s.len() ==> ok_e(#[trigger] s[i], q) }
pub open spec fn ok_m(s: Seq<(Seq<char>, SE)>, q: bool) -> bool decreases s { forall|i: int| 0 <= i < s.len() ==> ok_e((#[trigger] s[i]).1, q) }
pub open spec fn distinct(s: Seq<(Seq<char>, SE)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
pub open spec fn ok_f(f: SF, q: bool) -> bool decreases f { (q ==> f.params.len() <= 255) && ok_ss(f.body, false, q) }
pub open spec fn ok_ns(s: Seq<SN>, q: bool) -> bool decreases s { forall|i: int| 0 <= i < s.len() ==> ok_f((#[trigger] s[i]).f, q) }
#[verifier::opaque]
pub open spec fn ok_s(s: SS, lp: bool, q: bool) -> bool decreases s {
    match s {
        SS::Block(v) => ok_ss(v, lp, q),
        SS::Break(_) => q || lp,
        SS::Class(_, p, m, _) => ok_ns(m, q) && match p { Some(x) => ok_e(x, q), None => true },
        SS::Continue(_) => q || lp,
        SS::Expr(x) => ok_e(x, q),
        SS::Fun(f) => ok_f(f.f, q),
        SS::If(c, a, b) => ok_e(c, q) && ok_s(*a, lp, q) && match b { Some(x) => ok_s(*x, lp, q), None => true },
        SS::Print(x) => ok_e(x, q),
        SS::Return(x, _) => ok_e(x, q),
        SS::Var(_, x, _) => ok_e(x, q),
        SS::While(c, b) => ok_e(c, q) && ok_s(*b, true, q),
        SS::WhileInc(c, b, i) => ok_e(c, q) && ok_s(*b, true, q) && ok_e(i, q),
    }
}
pub open spec fn ok_ss(s: Seq<SS>, lp: bool, q: bool) -> bool decreases s { forall|i: int| 0 <= i < s.len() ==> ok_s(#[trigger] s[i], lp, q) }

pub broadcast proof fn oke_assign(n: Seq<char>, v: Box<SE>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::Assign(n, v, l), q) == ((q ==> n != "this"@) && ok_e(*v, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_call(f: Box<SE>, a: Seq<SE>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::Call(f, a, l), q) == (ok_e(*f, q) && ok_es(a, q) && (q ==> a.len() <= 255)),
{ reveal(ok_e); }
pub broadcast proof fn oke_binary(a: Box<SE>, o: BinaryOperator, b: Box<SE>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::Binary(a, o, b, l), q) == (ok_e(*a, q) && ok_e(*b, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_function(f: SF, q: bool)
    ensures #[trigger] ok_e(SE::Function(f), q) == (ok_f(f, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_get(o: Box<SE>, n: Seq<char>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::Get(o, n, l), q) == (ok_e(*o, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_getindex(o: Box<SE>, i: Box<SE>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::GetIndex(o, i, l), q) == (ok_e(*o, q) && ok_e(*i, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_grouping(x: Box<SE>, q: bool)
    ensures #[trigger] ok_e(SE::Grouping(x), q) == (ok_e(*x, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_array(a: Seq<SE>, q: bool)
    ensures #[trigger] ok_e(SE::Array(a), q) == (ok_es(a, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_bool(b: bool, q: bool)
    ensures #[trigger] ok_e(SE::Bool(b), q) == (true),
{ reveal(ok_e); }
pub broadcast proof fn oke_map(m: Seq<(Seq<char>, SE)>, q: bool)
    ensures #[trigger] ok_e(SE::Map(m), q) == (ok_m(m, q) && (q ==> distinct(m))),
{ reveal(ok_e); }
pub broadcast proof fn oke_number(x: f64, q: bool)
    ensures #[trigger] ok_e(SE::Number(x), q) == (true),
{ reveal(ok_e); }
pub broadcast proof fn oke_string(s: Seq<char>, q: bool)
    ensures #[trigger] ok_e(SE::Str(s), q) == (true),
{ reveal(ok_e); }
pub broadcast proof fn oke_logical(a: Box<SE>, o: LogicalOperator, b: Box<SE>, q: bool)
    ensures #[trigger] ok_e(SE::Logical(a, o, b), q) == (ok_e(*a, q) && ok_e(*b, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_set(o: Box<SE>, n: Seq<char>, v: Box<SE>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::Set(o, n, v, l), q) == (ok_e(*o, q) && ok_e(*v, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_setindex(o: Box<SE>, i: Box<SE>, v: Box<SE>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::SetIndex(o, i, v, l), q) == (ok_e(*o, q) && ok_e(*i, q) && ok_e(*v, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_super(n: Seq<char>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::Super(n, l), q) == (true),
{ reveal(ok_e); }
pub broadcast proof fn oke_variable(n: Seq<char>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::Variable(n, l), q) == (true),
{ reveal(ok_e); }
pub broadcast proof fn oke_unary(o: UnaryOperator, x: Box<SE>, l: SourceLoc, q: bool)
    ensures #[trigger] ok_e(SE::Unary(o, x, l), q) == (ok_e(*x, q)),
{ reveal(ok_e); }
pub broadcast proof fn oke_nil(q: bool)
    ensures #[trigger] ok_e(SE::Nil, q),
{ reveal(ok_e); }
pub broadcast proof fn oks_block(v: Seq<SS>, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::Block(v), lp, q) == (ok_ss(v, lp, q)),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_break(l: SourceLoc, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::Break(l), lp, q) == (q || lp),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_continue(l: SourceLoc, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::Continue(l), lp, q) == (q || lp),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_class(n: Seq<char>, p: Option<SE>, m: Seq<SN>, l: SourceLoc, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::Class(n, p, m, l), lp, q) == (ok_ns(m, q) && match p { Some(x) => ok_e(x, q), None => true }),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_expr(x: SE, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::Expr(x), lp, q) == (ok_e(x, q)),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_fun(f: SN, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::Fun(f), lp, q) == (ok_f(f.f, q)),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_if(c: SE, a: Box<SS>, b: Option<Box<SS>>, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::If(c, a, b), lp, q) == (ok_e(c, q) && ok_s(*a, lp, q) && match b { Some(x) => ok_s(*x, lp, q), None => true }),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_print(x: SE, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::Print(x), lp, q) == (ok_e(x, q)),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_return(x: SE, l: SourceLoc, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::Return(x, l), lp, q) == (ok_e(x, q)),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_var(n: Seq<char>, x: SE, l: SourceLoc, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::Var(n, x, l), lp, q) == (ok_e(x, q)),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_while(c: SE, b: Box<SS>, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::While(c, b), lp, q) == (ok_e(c, q) && ok_s(*b, true, q)),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast proof fn oks_whileinc(c: SE, b: Box<SS>, i: SE, lp: bool, q: bool)
    ensures #[trigger] ok_s(SS::WhileInc(c, b, i), lp, q) == (ok_e(c, q) && ok_s(*b, true, q) && ok_e(i, q)),
{ reveal(ok_e); reveal(ok_s); }
pub broadcast group oks { oke_assign, oke_call, oke_binary, oke_function, oke_get, oke_getindex, oke_grouping, oke_array, oke_bool, oke_map, oke_number, oke_string, oke_logical, oke_set, oke_setindex, oke_super, oke_variable, oke_unary, oke_nil, oks_block, oks_break, oks_continue, oks_class, oks_expr, oks_fun, oks_if, oks_print, oks_return, oks_var, oks_while, oks_whileinc }
