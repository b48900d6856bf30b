//#module environment
impl vstd::std_specs::convert::FromSpecImpl<SlotIndex> for VarLoc {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: SlotIndex) -> VarLoc { VarLoc { distance: 0, index: t.0 } }
}
impl vstd::std_specs::convert::FromSpecImpl<&VarLoc> for SlotIndex {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: &VarLoc) -> SlotIndex { SlotIndex(t.index) }
}
//#fn environment::SlotIndex::new
@ens r == SlotIndex(index)
//#fn environment::SlotIndex::placeholder
@ens r == SlotIndex(255)
//#fn environment::SlotIndex::index
@ens r == self.0
//#fn environment::VarLoc::placeholder
@ens r == (VarLoc { distance: 0, index: 0 })
//#fn environment::VarLoc::new, environment::VarLoc::new_global
@ens r == (VarLoc { distance, index })
//#fn environment::VarLoc::index
@ens r == self.index
//#module ast
broadcast use crate::vlib::ax_ents_decrease;
// ------------------------------------------------ the tree, as mathematics
pub enum SE {
    Assign(Seq<char>, Box<SE>, SourceLoc),
    Call(Box<SE>, Seq<SE>, SourceLoc),
    Binary(Box<SE>, BinaryOperator, Box<SE>, SourceLoc),
    Function(SF),
    Get(Box<SE>, Seq<char>, SourceLoc),
    GetIndex(Box<SE>, Box<SE>, SourceLoc),
    Grouping(Box<SE>),
    Array(Seq<SE>),
    Bool(bool),
    Map(Seq<(Seq<char>, SE)>),
    Number(f64),
    Nil,
    Str(Seq<char>),
    Logical(Box<SE>, LogicalOperator, Box<SE>),
    Set(Box<SE>, Seq<char>, Box<SE>, SourceLoc),
    SetIndex(Box<SE>, Box<SE>, Box<SE>, SourceLoc),
    Super(Seq<char>, SourceLoc),
    Variable(Seq<char>, SourceLoc),
    Unary(UnaryOperator, Box<SE>, SourceLoc),
}
pub struct SF { pub params: Seq<(Seq<char>, SourceLoc)>, pub body: Seq<SS>, pub ft: FunctionType, pub loc: SourceLoc }
pub struct SN { pub name: Seq<char>, pub f: SF }
pub enum SS {
    Block(Seq<SS>),
    Break(SourceLoc),
    Class(Seq<char>, Option<SE>, Seq<SN>, SourceLoc),
    Continue(SourceLoc),
    Expr(SE),
    Fun(SN),
    If(SE, Box<SS>, Option<Box<SS>>),
    Print(SE),
    Return(SE, SourceLoc),
    Var(Seq<char>, SE, SourceLoc),
    While(SE, Box<SS>),
    WhileInc(SE, Box<SS>, SE),
}
/// A location, or with k false none.
pub open spec fn lk(l: SourceLoc, k: bool) -> SourceLoc { if k { l } else { SourceLoc { line: 0, column: 0 } } }
/// The tree of an expression; without its locations if k is false.
#[verifier::opaque]
pub open spec fn ve(e: Expr, k: bool) -> SE decreases e {
    match e {
        Expr::Assign(n, _, v, l) => SE::Assign(n@, Box::new(ve(*v, k)), lk(l, k)),
        Expr::Call(f, a, l) => SE::Call(Box::new(ve(*f, k)), ves(a@, k), lk(l, k)),
        Expr::Binary(a, o, b, l) => SE::Binary(Box::new(ve(*a, k)), o, Box::new(ve(*b, k)), lk(l, k)),
        Expr::Function(f) => SE::Function(SF { params: vps((*f).parameters@, k), body: vss((*f).body@, k), ft: (*f).fun_type, loc: lk((*f).source_loc, k) }),
        Expr::Get(o, n, l) => SE::Get(Box::new(ve(*o, k)), n@, lk(l, k)),
        Expr::GetIndex(o, i, l) => SE::GetIndex(Box::new(ve(*o, k)), Box::new(ve(*i, k)), lk(l, k)),
        Expr::Grouping(x) => SE::Grouping(Box::new(ve(*x, k))),
        Expr::LiteralArray(a) => SE::Array(ves(a@, k)),
        Expr::LiteralBool(b) => SE::Bool(b),
        Expr::LiteralMap(m) => SE::Map(vents(m.map.ents(), k)),
        Expr::LiteralNumber(x) => SE::Number(x),
        Expr::LiteralNil => SE::Nil,
        Expr::LiteralString(s) => SE::Str(s@),
        Expr::Logical(a, o, b) => SE::Logical(Box::new(ve(*a, k)), o, Box::new(ve(*b, k))),
        Expr::Set(o, n, v, l) => SE::Set(Box::new(ve(*o, k)), n@, Box::new(ve(*v, k)), lk(l, k)),
        Expr::SetIndex(o, i, v, l) => SE::SetIndex(Box::new(ve(*o, k)), Box::new(ve(*i, k)), Box::new(ve(*v, k)), lk(l, k)),
        Expr::Super(_, n, l) => SE::Super(n@, lk(l, k)),
        Expr::Variable(n, _, l) => SE::Variable(n@, lk(l, k)),
        Expr::Unary(o, x, l) => SE::Unary(o, Box::new(ve(*x, k)), lk(l, k)),
    }
}
pub open spec fn ves(s: Seq<Expr>, k: bool) -> Seq<SE> decreases s {
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { ve(s[i], k) } else { arbitrary() })
}
pub open spec fn vm(m: Map<Expr>, k: bool) -> Seq<(Seq<char>, SE)> { vents(m.map.ents(), k) }
pub open spec fn vents(s: Seq<(Seq<char>, Expr)>, k: bool) -> Seq<(Seq<char>, SE)> decreases s {
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { (s[i].0, ve(s[i].1, k)) } else { arbitrary() })
}
pub open spec fn vp(p: Parameter, k: bool) -> (Seq<char>, SourceLoc) { (p.name@, lk(p.source_loc, k)) }
pub open spec fn vps(s: Seq<Parameter>, k: bool) -> Seq<(Seq<char>, SourceLoc)> { Seq::new(s.len(), |i: int| vp(s[i], k)) }
pub open spec fn vf(f: FunctionDefinition, k: bool) -> SF {
    SF { params: vps(f.parameters@, k), body: vss(f.body@, k), ft: f.fun_type, loc: lk(f.source_loc, k) }
}
pub open spec fn vn(f: NamedFunctionDefinition, k: bool) -> SN {
    SN { name: f.name@, f: SF { params: vps(f.fun_def.parameters@, k), body: vss(f.fun_def.body@, k), ft: f.fun_def.fun_type, loc: lk(f.fun_def.source_loc, k) } }
}
pub open spec fn vns(s: Seq<NamedFunctionDefinition>, k: bool) -> Seq<SN> decreases s {
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { SN { name: s[i].name@, f: SF { params: vps(s[i].fun_def.parameters@, k), body: vss(s[i].fun_def.body@, k), ft: s[i].fun_def.fun_type, loc: lk(s[i].fun_def.source_loc, k) } } } else { arbitrary() })
}
#[verifier::opaque]
pub open spec fn vs(s: Stmt, k: bool) -> SS decreases s {
    match s {
        Stmt::Block(v) => SS::Block(vss(v@, k)),
        Stmt::Break(l) => SS::Break(lk(l, k)),
        Stmt::Class(c) => SS::Class(c.name@, match c.superclass { Some(x) => Some(ve(*x, k)), None => None }, vns(c.methods@, k), lk(c.source_loc, k)),
        Stmt::Continue(l) => SS::Continue(lk(l, k)),
        Stmt::Expression(e) => SS::Expr(ve(e, k)),
        Stmt::Fun(f) => SS::Fun(SN { name: f.name@, f: SF { params: vps(f.fun_def.parameters@, k), body: vss(f.fun_def.body@, k), ft: f.fun_def.fun_type, loc: lk(f.fun_def.source_loc, k) } }),
        Stmt::If(c, a, b) => SS::If(ve(c, k), Box::new(vs(*a, k)), match b { Some(x) => Some(Box::new(vs(*x, k))), None => None }),
        Stmt::Print(e) => SS::Print(ve(e, k)),
        Stmt::Return(e, l) => SS::Return(ve(e, k), lk(l, k)),
        Stmt::Var(n, _, e, l) => SS::Var(n@, ve(*e, k), lk(l, k)),
        Stmt::While(c, b) => SS::While(ve(c, k), Box::new(vs(*b, k))),
        Stmt::WhileIncrement(c, b, i) => SS::WhileInc(ve(c, k), Box::new(vs(*b, k)), ve(*i, k)),
    }
}
pub open spec fn vss(s: Seq<Stmt>, k: bool) -> Seq<SS> decreases s {
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { vs(s[i], k) } else { arbitrary() })
}

// ------------------------------------------------ lists grow at the end
pub broadcast proof fn ves_push(s: Seq<Expr>, x: Expr, k: bool)
    ensures #[trigger] ves(s.push(x), k) == ves(s, k).push(ve(x, k)),
{ reveal(ve); reveal(vs); assert(ves(s.push(x), k) =~= ves(s, k).push(ve(x, k))); }
pub broadcast proof fn ves_none(k: bool)
    ensures #[trigger] ves(Seq::empty(), k) == Seq::<SE>::empty(),
{ reveal(ve); reveal(vs); assert(ves(Seq::empty(), k) =~= Seq::empty()); }
pub broadcast proof fn vss_push(s: Seq<Stmt>, x: Stmt, k: bool)
    ensures #[trigger] vss(s.push(x), k) == vss(s, k).push(vs(x, k)),
{ reveal(ve); reveal(vs); assert(vss(s.push(x), k) =~= vss(s, k).push(vs(x, k))); }
pub broadcast proof fn vss_none(k: bool)
    ensures #[trigger] vss(Seq::empty(), k) == Seq::<SS>::empty(),
{ reveal(ve); reveal(vs); assert(vss(Seq::empty(), k) =~= Seq::empty()); }
pub broadcast proof fn vns_push(s: Seq<NamedFunctionDefinition>, x: NamedFunctionDefinition, k: bool)
    ensures #[trigger] vns(s.push(x), k) == vns(s, k).push(vn(x, k)),
{ assert(vns(s.push(x), k) =~= vns(s, k).push(vn(x, k))); }
pub broadcast proof fn vns_none(k: bool)
    ensures #[trigger] vns(Seq::empty(), k) == Seq::<SN>::empty(),
{ assert(vns(Seq::empty(), k) =~= Seq::empty()); }
pub broadcast proof fn vps_push(s: Seq<Parameter>, x: Parameter, k: bool)
    ensures #[trigger] vps(s.push(x), k) == vps(s, k).push(vp(x, k)),
{ assert(vps(s.push(x), k) =~= vps(s, k).push(vp(x, k))); }
pub broadcast proof fn vps_none(k: bool)
    ensures #[trigger] vps(Seq::empty(), k) == Seq::<(Seq<char>, SourceLoc)>::empty(),
{ assert(vps(Seq::empty(), k) =~= Seq::empty()); }
pub broadcast proof fn vents_push(s: Seq<(Seq<char>, Expr)>, x: (Seq<char>, Expr), k: bool)
    ensures #[trigger] vents(s.push(x), k) == vents(s, k).push((x.0, ve(x.1, k))),
{ reveal(ve); reveal(vs); assert(vents(s.push(x), k) =~= vents(s, k).push((x.0, ve(x.1, k)))); }
pub broadcast proof fn vents_none(k: bool)
    ensures #[trigger] vents(Seq::empty(), k) == Seq::<(Seq<char>, SE)>::empty(),
{ reveal(ve); reveal(vs); assert(vents(Seq::empty(), k) =~= Seq::empty()); }
pub broadcast proof fn vss_two(s: Seq<Stmt>, k: bool)
    requires s.len() == 2,
    ensures #[trigger] vss(s, k) == seq![vs(s[0], k), vs(s[1], k)],
{ reveal(ve); reveal(vs); assert(vss(s, k) =~= seq![vs(s[0], k), vs(s[1], k)]); }
pub broadcast proof fn vents_key(s: Seq<(Seq<char>, Expr)>, n: Seq<char>, k: bool)
    ensures #[trigger] has_key(vents(s, k), n) == has_key(s, n),
{
    if has_key(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n; assert(vents(s, k)[i].0 == n); }
    if has_key(vents(s, k), n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] vents(s, k)[i]).0 == n; assert(s[i].0 == n); }
}
pub broadcast group views { ves_push, ves_none, vss_push, vss_none, vns_push, vns_none, vps_push, vps_none, vents_push, vents_none, vents_key }
// ------------------------------------------------ what each node shows
pub broadcast proof fn ve_assign(n: String, c: Cell<VarLoc>, v: Box<Expr>, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::Assign(n, c, v, l), k) == SE::Assign(n@, Box::new(ve(*v, k)), lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn ve_call(f: Box<Expr>, a: Vec<Expr>, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::Call(f, a, l), k) == SE::Call(Box::new(ve(*f, k)), ves(a@, k), lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn ve_binary(a: Box<Expr>, o: BinaryOperator, b: Box<Expr>, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::Binary(a, o, b, l), k) == SE::Binary(Box::new(ve(*a, k)), o, Box::new(ve(*b, k)), lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn ve_function(f: Box<FunctionDefinition>, k: bool)
    ensures #[trigger] ve(Expr::Function(f), k) == SE::Function(vf(*f, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn ve_get(o: Box<Expr>, n: String, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::Get(o, n, l), k) == SE::Get(Box::new(ve(*o, k)), n@, lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn ve_getindex(o: Box<Expr>, i: Box<Expr>, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::GetIndex(o, i, l), k) == SE::GetIndex(Box::new(ve(*o, k)), Box::new(ve(*i, k)), lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn ve_grouping(x: Box<Expr>, k: bool)
    ensures #[trigger] ve(Expr::Grouping(x), k) == SE::Grouping(Box::new(ve(*x, k))),
{ reveal(ve); }
pub broadcast proof fn ve_array(a: Vec<Expr>, k: bool)
    ensures #[trigger] ve(Expr::LiteralArray(a), k) == SE::Array(ves(a@, k)),
{ reveal(ve); }
pub broadcast proof fn ve_bool(b: bool, k: bool)
    ensures #[trigger] ve(Expr::LiteralBool(b), k) == SE::Bool(b),
{ reveal(ve); }
pub broadcast proof fn ve_map(m: Map<Expr>, k: bool)
    ensures #[trigger] ve(Expr::LiteralMap(m), k) == SE::Map(vm(m, k)),
{ reveal(ve); }
pub broadcast proof fn ve_number(x: f64, k: bool)
    ensures #[trigger] ve(Expr::LiteralNumber(x), k) == SE::Number(x),
{ reveal(ve); }
pub broadcast proof fn ve_string(s: String, k: bool)
    ensures #[trigger] ve(Expr::LiteralString(s), k) == SE::Str(s@),
{ reveal(ve); }
pub broadcast proof fn ve_logical(a: Box<Expr>, o: LogicalOperator, b: Box<Expr>, k: bool)
    ensures #[trigger] ve(Expr::Logical(a, o, b), k) == SE::Logical(Box::new(ve(*a, k)), o, Box::new(ve(*b, k))),
{ reveal(ve); }
pub broadcast proof fn ve_set(o: Box<Expr>, n: String, v: Box<Expr>, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::Set(o, n, v, l), k) == SE::Set(Box::new(ve(*o, k)), n@, Box::new(ve(*v, k)), lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn ve_setindex(o: Box<Expr>, i: Box<Expr>, v: Box<Expr>, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::SetIndex(o, i, v, l), k) == SE::SetIndex(Box::new(ve(*o, k)), Box::new(ve(*i, k)), Box::new(ve(*v, k)), lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn ve_super(c: Cell<VarLoc>, n: String, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::Super(c, n, l), k) == SE::Super(n@, lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn ve_variable(n: String, c: Cell<VarLoc>, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::Variable(n, c, l), k) == SE::Variable(n@, lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn ve_unary(o: UnaryOperator, x: Box<Expr>, l: SourceLoc, k: bool)
    ensures #[trigger] ve(Expr::Unary(o, x, l), k) == SE::Unary(o, Box::new(ve(*x, k)), lk(l, k)),
{ reveal(ve); }
pub broadcast proof fn vs_block(v: Vec<Stmt>, k: bool)
    ensures #[trigger] vs(Stmt::Block(v), k) == SS::Block(vss(v@, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_break(l: SourceLoc, k: bool)
    ensures #[trigger] vs(Stmt::Break(l), k) == SS::Break(lk(l, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_continue(l: SourceLoc, k: bool)
    ensures #[trigger] vs(Stmt::Continue(l), k) == SS::Continue(lk(l, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_class(c: ClassDefinition, k: bool)
    ensures #[trigger] vs(Stmt::Class(c), k) == SS::Class(c.name@, match c.superclass { Some(x) => Some(ve(*x, k)), None => None }, vns(c.methods@, k), lk(c.source_loc, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_expr(e: Expr, k: bool)
    ensures #[trigger] vs(Stmt::Expression(e), k) == SS::Expr(ve(e, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_fun(f: NamedFunctionDefinition, k: bool)
    ensures #[trigger] vs(Stmt::Fun(f), k) == SS::Fun(vn(f, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_if(c: Expr, a: Box<Stmt>, b: Option<Box<Stmt>>, k: bool)
    ensures #[trigger] vs(Stmt::If(c, a, b), k) == SS::If(ve(c, k), Box::new(vs(*a, k)), match b { Some(x) => Some(Box::new(vs(*x, k))), None => None }),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_print(e: Expr, k: bool)
    ensures #[trigger] vs(Stmt::Print(e), k) == SS::Print(ve(e, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_return(e: Expr, l: SourceLoc, k: bool)
    ensures #[trigger] vs(Stmt::Return(e, l), k) == SS::Return(ve(e, k), lk(l, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_var(n: String, c: Cell<SlotIndex>, e: Box<Expr>, l: SourceLoc, k: bool)
    ensures #[trigger] vs(Stmt::Var(n, c, e, l), k) == SS::Var(n@, ve(*e, k), lk(l, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_while(c: Expr, b: Box<Stmt>, k: bool)
    ensures #[trigger] vs(Stmt::While(c, b), k) == SS::While(ve(c, k), Box::new(vs(*b, k))),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn vs_whileinc(c: Expr, b: Box<Stmt>, i: Box<Expr>, k: bool)
    ensures #[trigger] vs(Stmt::WhileIncrement(c, b, i), k) == SS::WhileInc(ve(c, k), Box::new(vs(*b, k)), ve(*i, k)),
{ reveal(ve); reveal(vs); }
pub broadcast proof fn ve_nil(k: bool)
    ensures #[trigger] ve(Expr::LiteralNil, k) == SE::Nil,
{ reveal(ve); }
pub broadcast group nodes { ve_assign, ve_call, ve_binary, ve_function, ve_get, ve_getindex, ve_grouping, ve_array, ve_bool, ve_map, ve_number, ve_string, ve_logical, ve_set, ve_setindex, ve_super, ve_variable, ve_unary, vs_block, vs_break, vs_continue, vs_class, vs_expr, vs_fun, vs_if, vs_print, vs_return, vs_var, vs_while, vs_whileinc, ve_nil }
/// What may be assigned to.
pub broadcast proof fn ve_target(e: Expr, k: bool)
    ensures match e {
        Expr::Get(o, n, l) => #[trigger] ve(e, k) == SE::Get(Box::new(ve(*o, k)), n@, lk(l, k)),
        Expr::GetIndex(o, i, l) => ve(e, k) == SE::GetIndex(Box::new(ve(*o, k)), Box::new(ve(*i, k)), lk(l, k)),
        Expr::Variable(n, _, l) => ve(e, k) == SE::Variable(n@, lk(l, k)),
        _ => !(ve(e, k) is Get || ve(e, k) is GetIndex || ve(e, k) is Variable),
    },
{ reveal(ve); }
//#fn ast::FunctionDefinition::new
@ens r.parameters == parameters && r.body == body && r.fun_type == fun_type && r.source_loc == source_loc
//#fn ast::NamedFunctionDefinition::new
@ens r.name == name && r.fun_def == fun_def
//#fn ast::Parameter::new
@ens r.name == name && r.source_loc == source_loc
//#fn ast::Map::insert
@ens r is Some == has_key(old(self).map.ents(), key@)
@ens r is None ==> final(self).map.ents() == old(self).map.ents().push((key@, value))
//#fn ast::Map::default
@ens r.map.ents() == Seq::<(Seq<char>, V)>::empty()
//#fn ast::Map::len
@ens r == self.map.ents().len()
//#fn ast::Map::is_empty
@ens r == (self.map.ents().len() == 0)
//#fn ast::ResolvedCode::new
@ens r.statements == statements
//#fn ast::ClassDefinition::has_superclass
@ens r == self.superclass is Some
