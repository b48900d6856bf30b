//#module resolver
use vstd::map::Map;
broadcast use {crate::ast::nodes, crate::vlib::ax_ents_decrease};
// ------------------------------------------------ the state, as mathematics
/// The names of a scope.
pub type Sc = Map<Seq<char>, VarResolveState>;
/// The scopes, outermost first, and the kinds of function and class around.
pub struct St { pub sc: Seq<Sc>, pub ft: FunctionType, pub ct: ClassType }
pub open spec fn scs(v: Seq<HashMap<String, VarResolveState>>) -> Seq<Sc> { Seq::new(v.len(), |i: int| v[i]@) }
impl Resolver {
    pub open spec fn st(&self) -> St { St { sc: scs(self.scopes@), ft: self.function_type, ct: self.class_type } }
}
pub open spec fn none() -> Sc { Map::empty() }
/// A state in a new scope, and one out of its scope.
pub open spec fn push(s: St) -> St { St { sc: s.sc.push(none()), ft: s.ft, ct: s.ct } }
pub open spec fn pop(s: St) -> St { St { sc: s.sc.drop_last(), ft: s.ft, ct: s.ct } }
pub open spec fn first() -> St { St { sc: seq![none()], ft: FunctionType::NoFunction, ct: ClassType::NoClass } }
pub broadcast proof fn scs_push(v: Seq<HashMap<String, VarResolveState>>, m: HashMap<String, VarResolveState>)
    ensures #[trigger] scs(v.push(m)) == scs(v).push(m@),
{ assert(scs(v.push(m)) =~= scs(v).push(m@)); }
pub broadcast proof fn scs_pop(v: Seq<HashMap<String, VarResolveState>>)
    requires v.len() > 0,
    ensures #[trigger] scs(v.drop_last()) == scs(v).drop_last(),
{ assert(scs(v.drop_last()) =~= scs(v).drop_last()); }
pub broadcast proof fn scs_update(v: Seq<HashMap<String, VarResolveState>>, i: int, m: HashMap<String, VarResolveState>)
    requires 0 <= i < v.len(),
    ensures #[trigger] scs(v.update(i, m)) == scs(v).update(i, m@),
{ assert(scs(v.update(i, m)) =~= scs(v).update(i, m@)); }
pub broadcast proof fn scs_shorter(v: Seq<HashMap<String, VarResolveState>>, n: int)
    requires n == v.len() - 1, n >= 0,
    ensures #[trigger] scs(v.subrange(0, n)) == scs(v).drop_last(),
{ assert(scs(v.subrange(0, n)) =~= scs(v).drop_last()); }
pub broadcast proof fn same_update(s: Seq<Sc>, i: int, m: Sc)
    requires 0 <= i < s.len(), m == s[i],
    ensures #[trigger] s.update(i, m) == s,
{ assert(s.update(i, m) =~= s); }
pub broadcast proof fn same_insert(m: Sc, a: Seq<char>, v: VarResolveState)
    requires m.dom().contains(a), m[a] == v,
    ensures #[trigger] m.insert(a, v) == m,
{ assert(m.insert(a, v) =~= m); }
pub broadcast group scopes_views { scs_push, scs_pop, scs_update, scs_shorter, same_update, same_insert }

// ------------------------------------------------ what the scopes keep
/// Distinct names have distinct slots, the numbers below their count.
pub open spec fn sc_ok(m: Sc) -> bool {
    &&& m.dom().len() <= 255
    &&& forall|a: Seq<char>| #[trigger] m.dom().contains(a) ==> m[a].slot_index < m.dom().len()
    &&& forall|a: Seq<char>, b: Seq<char>| #[trigger] m.dom().contains(a) && #[trigger] m.dom().contains(b) && m[a].slot_index == m[b].slot_index ==> a == b
}
#[verifier::opaque]
pub open spec fn all_ok(s: Seq<Sc>) -> bool { forall|i: int| 0 <= i < s.len() ==> sc_ok(#[trigger] s[i]) }
/// No name is lost, and no slot changes.
#[verifier::opaque]
pub open spec fn grow(o: Seq<Sc>, n: Seq<Sc>) -> bool {
    o.len() == n.len() && forall|i: int, a: Seq<char>| 0 <= i < o.len() && #[trigger] o[i].dom().contains(a)
        ==> n[i].dom().contains(a) && n[i][a].slot_index == o[i][a].slot_index
}
/// No name becomes one that is being initialized.
#[verifier::opaque]
pub open spec fn calm(o: Seq<Sc>, n: Seq<Sc>) -> bool {
    o.len() == n.len() && forall|i: int, a: Seq<char>| 0 <= i < n.len() && #[trigger] n[i].dom().contains(a) && n[i][a].defined_state == DeclaredVar
        ==> o[i].dom().contains(a) && o[i][a].defined_state == DeclaredVar
}
/// No name is being initialized.
pub open spec fn settled(m: Sc) -> bool {
    forall|a: Seq<char>| #[trigger] m.dom().contains(a) ==> m[a].defined_state != DeclaredVar
}
pub broadcast proof fn grow_refl(o: Seq<Sc>)
    ensures #[trigger] grow(o, o),
{ reveal(grow); }
pub broadcast proof fn grow_trans(a: Seq<Sc>, b: Seq<Sc>, c: Seq<Sc>)
    requires #[trigger] grow(a, b), #[trigger] grow(b, c),
    ensures grow(a, c),
{
    reveal(grow);
    assert forall|i: int, x: Seq<char>| 0 <= i < a.len() && #[trigger] a[i].dom().contains(x)
        implies c[i].dom().contains(x) && c[i][x].slot_index == a[i][x].slot_index by { assert(b[i].dom().contains(x)); }
}
pub broadcast proof fn grow_pop(o: Seq<Sc>, n: Seq<Sc>)
    requires #[trigger] grow(o.push(none()), n),
    ensures grow(o, n.drop_last()),
{
    reveal(grow);
    assert forall|i: int, x: Seq<char>| 0 <= i < o.len() && #[trigger] o[i].dom().contains(x)
        implies n.drop_last()[i].dom().contains(x) && n.drop_last()[i][x].slot_index == o[i][x].slot_index by { assert(o.push(none())[i].dom().contains(x)); }
}
pub broadcast proof fn grow_len(o: Seq<Sc>, n: Seq<Sc>)
    requires #[trigger] grow(o, n),
    ensures o.len() == n.len(),
{ reveal(grow); }
pub broadcast proof fn calm_refl(o: Seq<Sc>)
    ensures #[trigger] calm(o, o),
{ reveal(calm); }
pub broadcast proof fn calm_trans(a: Seq<Sc>, b: Seq<Sc>, c: Seq<Sc>)
    requires #[trigger] calm(a, b), #[trigger] calm(b, c),
    ensures calm(a, c),
{
    reveal(calm);
    assert forall|i: int, x: Seq<char>| 0 <= i < c.len() && #[trigger] c[i].dom().contains(x) && c[i][x].defined_state == DeclaredVar
        implies a[i].dom().contains(x) && a[i][x].defined_state == DeclaredVar by { assert(b[i].dom().contains(x)); }
}
pub broadcast proof fn calm_pop(o: Seq<Sc>, n: Seq<Sc>)
    requires #[trigger] calm(o.push(none()), n),
    ensures calm(o, n.drop_last()),
{
    reveal(calm);
    assert forall|i: int, x: Seq<char>| 0 <= i < o.len() && #[trigger] n.drop_last()[i].dom().contains(x) && n.drop_last()[i][x].defined_state == DeclaredVar
        implies o[i].dom().contains(x) && o[i][x].defined_state == DeclaredVar by { assert(n[i].dom().contains(x)); assert(o.push(none())[i].dom().contains(x)); }
}
pub broadcast proof fn calm_len(o: Seq<Sc>, n: Seq<Sc>)
    requires #[trigger] calm(o, n),
    ensures o.len() == n.len(),
{ reveal(calm); }
pub broadcast proof fn ok_push(s: Seq<Sc>)
    requires all_ok(s),
    ensures #[trigger] all_ok(s.push(none())),
{ reveal(all_ok); assert forall|i: int| 0 <= i < s.push(none()).len() implies sc_ok(#[trigger] s.push(none())[i]) by { if i < s.len() { assert(sc_ok(s[i])); } } }
pub broadcast proof fn ok_pop(s: Seq<Sc>)
    requires all_ok(s), s.len() > 0,
    ensures #[trigger] all_ok(s.drop_last()),
{ reveal(all_ok); assert forall|i: int| 0 <= i < s.drop_last().len() implies sc_ok(#[trigger] s.drop_last()[i]) by { assert(sc_ok(s[i])); } }
/// No name but n, and that in the innermost scope, becomes one that is being initialized.
#[verifier::opaque]
pub open spec fn calm_but(o: Seq<Sc>, n: Seq<Sc>, x: Seq<char>) -> bool {
    o.len() == n.len() && forall|i: int, a: Seq<char>| 0 <= i < n.len() && #[trigger] n[i].dom().contains(a) && n[i][a].defined_state == DeclaredVar
        ==> i == n.len() - 1 && a == x || o[i].dom().contains(a) && o[i][a].defined_state == DeclaredVar
}
pub broadcast proof fn calm_but_refl(o: Seq<Sc>, x: Seq<char>)
    ensures #[trigger] calm_but(o, o, x),
{ reveal(calm_but); }
pub broadcast proof fn calm_but_then(a: Seq<Sc>, b: Seq<Sc>, c: Seq<Sc>, x: Seq<char>)
    requires #[trigger] calm_but(a, b, x), #[trigger] calm(b, c),
    ensures calm_but(a, c, x),
{
    reveal(calm); reveal(calm_but);
    assert forall|i: int, y: Seq<char>| 0 <= i < c.len() && #[trigger] c[i].dom().contains(y) && c[i][y].defined_state == DeclaredVar
        implies i == c.len() - 1 && y == x || a[i].dom().contains(y) && a[i][y].defined_state == DeclaredVar by { assert(b[i].dom().contains(y)); }
}
pub broadcast proof fn calm_but_not(a: Seq<Sc>, c: Seq<Sc>, x: Seq<char>)
    requires #[trigger] calm_but(a, c, x), c.len() > 0, c.last().dom().contains(x) ==> c.last()[x].defined_state != DeclaredVar,
    ensures calm(a, c),
{
    reveal(calm); reveal(calm_but);
    assert forall|i: int, y: Seq<char>| 0 <= i < c.len() && #[trigger] c[i].dom().contains(y) && c[i][y].defined_state == DeclaredVar
        implies a[i].dom().contains(y) && a[i][y].defined_state == DeclaredVar by { if i == c.len() - 1 && y == x { assert(c.last() == c[i]); } }
}
pub broadcast proof fn calm_settled(o: Seq<Sc>, n: Seq<Sc>)
    requires #[trigger] calm(o, n), o.len() > 0, settled(o[0]),
    ensures settled(n[0]),
{ reveal(calm); }
pub broadcast group keeps { calm_but_refl, calm_but_then, calm_but_not, calm_settled, one_name, grow_refl, grow_trans, grow_pop, grow_len, calm_refl, calm_trans, calm_pop, calm_len, ok_push, ok_pop }
/// Slot n is free: a new name may have it.
pub proof fn sc_ok_insert(m: Sc, a: Seq<char>, v: VarResolveState)
    requires sc_ok(m), m.dom().contains(a) ==> v.slot_index == m[a].slot_index, !m.dom().contains(a) ==> v.slot_index == m.dom().len() && m.dom().len() < 255,
    ensures sc_ok(m.insert(a, v)),
{
    let n = m.insert(a, v);
    assert(n.dom() =~= m.dom().insert(a));
    assert forall|x: Seq<char>| #[trigger] n.dom().contains(x) implies n[x].slot_index < n.dom().len() by { if x != a { assert(m.dom().contains(x)); } }
    assert forall|x: Seq<char>, y: Seq<char>| #[trigger] n.dom().contains(x) && #[trigger] n.dom().contains(y) && n[x].slot_index == n[y].slot_index implies x == y by {
        if x != a { assert(m.dom().contains(x)); }
        if y != a { assert(m.dom().contains(y)); }
    }
}
/// What a change of one name in scope i keeps.
pub broadcast proof fn one_name(s: Seq<Sc>, i: int, m: Sc, a: Seq<char>, v: VarResolveState)
    requires 0 <= i < s.len(), m == s[i], s[i].dom().contains(a) ==> v.slot_index == s[i][a].slot_index,
    ensures
        grow(s, #[trigger] s.update(i, m.insert(a, v))),
        v.defined_state != DeclaredVar ==> calm(s, s.update(i, m.insert(a, v))),
        i == s.len() - 1 ==> calm_but(s, s.update(i, m.insert(a, v)), a),
        all_ok(s) && (!s[i].dom().contains(a) ==> v.slot_index == s[i].dom().len() && s[i].dom().len() < 255) ==> all_ok(s.update(i, m.insert(a, v))),
{
    reveal(grow); reveal(calm); reveal(calm_but); reveal(all_ok);
    let n = s.update(i, s[i].insert(a, v));
    if all_ok(s) && (!s[i].dom().contains(a) ==> v.slot_index == s[i].dom().len() && s[i].dom().len() < 255) {
        assert(sc_ok(s[i]));
        sc_ok_insert(s[i], a, v);
        assert forall|j: int| 0 <= j < n.len() implies sc_ok(#[trigger] n[j]) by { if j != i { assert(sc_ok(s[j])); } }
    }
}

// ------------------------------------------------ names
/// The innermost of the first i scopes that has n, or -1.
pub open spec fn inner(sc: Seq<Sc>, n: Seq<char>, i: int) -> int decreases i {
    if i <= 0 { -1 } else if sc[i - 1].dom().contains(n) { i - 1 } else { inner(sc, n, i - 1) }
}
pub broadcast proof fn inner_is(sc: Seq<Sc>, n: Seq<char>, i: int)
    ensures
        -1 <= #[trigger] inner(sc, n, i),
        inner(sc, n, i) >= 0 ==> inner(sc, n, i) < i && sc[inner(sc, n, i)].dom().contains(n),
        inner(sc, n, i) < 0 && i >= 1 ==> !sc[0].dom().contains(n),
        forall|j: int| inner(sc, n, i) < j < i && 0 <= j ==> !(#[trigger] sc[j]).dom().contains(n),
    decreases i,
{ if i > 0 { inner_is(sc, n, i - 1); } }
/// Where an error is, and what it names.
pub struct Er { pub loc: SourceLoc, pub tok: Option<Seq<char>> }
pub open spec fn er(e: ParseErrorCause) -> Er { Er { loc: e.source_loc, tok: match e.token { Some(s) => Some(s@), None => None } } }
/// The state after a node, and the error that ended its resolution.
pub type R = (St, Option<Er>);
pub open spec fn bad(s: St, l: SourceLoc, n: Seq<char>) -> R { (s, Some(Er { loc: l, tok: Some(n) })) }
pub open spec fn good(s: St) -> R { (s, None) }
pub open spec fn then(o: R, p: R) -> R { if o.1 is Some { o } else { p } }
pub open spec fn set(s: St, i: int, n: Seq<char>, v: VarResolveState) -> St { St { sc: s.sc.update(i, s.sc[i].insert(n, v)), ft: s.ft, ct: s.ct } }
/// The slot n has in scope i, or would get as a new name.
pub open spec fn slot(s: St, i: int, n: Seq<char>) -> usize {
    if s.sc[i].dom().contains(n) { s.sc[i][n].slot_index } else { s.sc[i].dom().len() as usize }
}
pub open spec fn top(s: St) -> int { s.sc.len() - 1 }
/// No room for a new name n in scope i.
pub open spec fn full(s: St, i: int, n: Seq<char>) -> bool { !s.sc[i].dom().contains(n) && s.sc[i].dom().len() >= 255 }
/// A use of n: nothing changes, unless it is a global not yet declared.
#[verifier::opaque]
pub open spec fn used(s: St, n: Seq<char>, l: SourceLoc) -> R {
    if inner(s.sc, n, s.sc.len() as int) >= 0 { good(s) }
    else if full(s, 0, n) { bad(s, l, n) }
    else { good(set(s, 0, n, VarResolveState { slot_index: slot(s, 0, n), defined_state: UndefinedVar })) }
}
/// What that use of n is bound to.
#[verifier::opaque]
pub open spec fn bound(s: St, n: Seq<char>) -> VarLoc {
    let i = inner(s.sc, n, s.sc.len() as int);
    let j = if i >= 0 { i } else { 0 };
    VarLoc { distance: (s.sc.len() - 1 - j) as u16, index: slot(s, j, n) as u8 }
}
/// The numbers of a binding are exact: no cast loses anything.
pub proof fn bound_exact(s: St, n: Seq<char>)
    requires wf(s),
    ensures
        ({
            let i = inner(s.sc, n, s.sc.len() as int);
            let j = if i >= 0 { i } else { 0 };
            i < 0 && full(s, 0, n) || bound(s, n).distance == s.sc.len() - 1 - j && bound(s, n).index == slot(s, j, n) && slot(s, j, n) < 255
        }),
{
    reveal(all_ok); reveal(bound);
    inner_is(s.sc, n, s.sc.len() as int);
    let i = inner(s.sc, n, s.sc.len() as int);
    let j = if i >= 0 { i } else { 0 };
    assert(sc_ok(s.sc[j]));
}
/// n is declared, and about to be initialized.
#[verifier::opaque]
pub open spec fn declared(s: St, n: Seq<char>, l: SourceLoc) -> R {
    let m = s.sc[top(s)];
    if full(s, top(s), n) { bad(s, l, n) }
    else if m.dom().contains(n) && m[n].defined_state != UndefinedVar { if s.sc.len() == 1 { good(s) } else { bad(s, l, n) } }
    else { good(set(s, top(s), n, VarResolveState { slot_index: slot(s, top(s), n), defined_state: DeclaredVar })) }
}
/// n is defined.
#[verifier::opaque]
pub open spec fn defined(s: St, n: Seq<char>, l: SourceLoc) -> R {
    let m = s.sc[top(s)];
    if full(s, top(s), n) { bad(s, l, n) }
    else if m.dom().contains(n) && m[n].defined_state == DefinedVar { if s.sc.len() == 1 { good(s) } else { bad(s, l, n) } }
    else { good(set(s, top(s), n, VarResolveState { slot_index: slot(s, top(s), n), defined_state: DefinedVar })) }
}

// ------------------------------------------------ the rules
#[unfold]
pub open spec fn p_e(e: SE, s: St) -> R decreases e, 0int {
    match e {
        SE::Assign(n, x, l) => { let o = p_e(*x, s); then(o, used(o.0, n, l)) }
        SE::Call(f, a, _) => { let o = p_e(*f, s); then(o, r_es(a, 0, o.0)) }
        SE::Binary(a, _, b, _) => { let o = p_e(*a, s); then(o, p_e(*b, o.0)) }
        SE::Function(f) => p_f(f, FunctionType::Plain, s),
        SE::Get(x, _, _) => p_e(*x, s),
        SE::GetIndex(a, b, _) => { let o = p_e(*a, s); then(o, p_e(*b, o.0)) }
        SE::Grouping(x) => p_e(*x, s),
        SE::Array(a) => r_es(a, 0, s),
        SE::Map(a) => r_ens(a, 0, s),
        SE::Logical(a, _, b) => { let o = p_e(*a, s); then(o, p_e(*b, o.0)) }
        SE::Set(a, _, b, _) => { let o = p_e(*a, s); then(o, p_e(*b, o.0)) }
        SE::SetIndex(a, b, c, _) => { let o = p_e(*a, s); let p = p_e(*b, o.0); then(o, then(p, p_e(*c, p.0))) }
        SE::Super(_, l) => if s.ct == ClassType::Subclass { used(s, "super"@, l) } else { bad(s, l, "super"@) },
        SE::Variable(n, l) => {
            let m = s.sc[top(s)];
            if s.ct == ClassType::NoClass && n == "this"@ { bad(s, l, "this"@) }
            else if m.dom().contains(n) && m[n].defined_state == DeclaredVar { bad(s, l, n) }
            else { used(s, n, l) }
        }
        SE::Unary(_, x, _) => p_e(*x, s),
        _ => good(s),
    }
}
pub open spec fn r_es(v: Seq<SE>, i: int, s: St) -> R decreases v, v.len() - i {
    if i < 0 || i >= v.len() { good(s) } else { let o = p_e(v[i], s); then(o, r_es(v, i + 1, o.0)) }
}
pub open spec fn r_ens(v: Seq<(Seq<char>, SE)>, i: int, s: St) -> R decreases v, v.len() - i {
    if i < 0 || i >= v.len() { good(s) } else { let o = p_e(v[i].1, s); then(o, r_ens(v, i + 1, o.0)) }
}
pub open spec fn r_ps(v: Seq<(Seq<char>, SourceLoc)>, i: int, s: St) -> R decreases v.len() - i {
    if i < 0 || i >= v.len() { good(s) } else { let o = defined(s, v[i].0, v[i].1); then(o, r_ps(v, i + 1, o.0)) }
}
/// A function: its parameters and body in a new scope.
#[unfold]
pub open spec fn p_f(f: SF, t: FunctionType, s: St) -> R decreases f, 0int {
    let o = r_ps(f.params, 0, push(St { sc: s.sc, ft: t, ct: s.ct }));
    let p = then(o, r_ss(f.body, 0, o.0));
    (St { sc: p.0.sc.drop_last(), ft: s.ft, ct: p.0.ct }, p.1)
}
pub open spec fn r_ss(v: Seq<SS>, i: int, s: St) -> R decreases v, v.len() - i {
    if i < 0 || i >= v.len() { good(s) } else { let o = p_s(v[i], s); then(o, r_ss(v, i + 1, o.0)) }
}
pub open spec fn kind(n: Seq<char>) -> FunctionType { if n == "init"@ { FunctionType::Initializer } else { FunctionType::Method } }
pub open spec fn r_ms(v: Seq<SN>, i: int, s: St) -> R decreases v, v.len() - i {
    if i < 0 || i >= v.len() { good(s) } else { let o = p_f(v[i].f, kind(v[i].name), s); then(o, r_ms(v, i + 1, o.0)) }
}
pub open spec fn popped(o: R) -> R { (pop(o.0), o.1) }
/// The methods of a class, in the scope of `this`.
pub open spec fn methods(v: Seq<SN>, l: SourceLoc, s: St) -> R decreases v, v.len() + 1 {
    let o = defined(push(s), "this"@, l);
    popped(then(o, r_ms(v, 0, o.0)))
}
/// A class, but for the kind of class around.
#[unfold]
pub open spec fn p_c(c: SS, s: St) -> R decreases c, 0int {
    match c {
        SS::Class(n, x, v, l) => {
            let o = defined(s, n, l);
            if o.1 is Some { o } else {
                match x {
                    None => methods(v, l, o.0),
                    Some(e) => if e is Variable && e->Variable_0 == n { bad(o.0, e->Variable_1, n) } else {
                        let p = p_e(e, o.0);
                        if p.1 is Some { p } else {
                            let q = defined(push(p.0), "super"@, l);
                            popped(then(q, methods(v, l, q.0)))
                        }
                    }
                }
            }
        }
        _ => good(s),
    }
}
#[unfold]
pub open spec fn p_s(x: SS, s: St) -> R decreases x, 1int {
    match x {
        SS::Block(v) => popped(r_ss(v, 0, push(s))),
        SS::Class(n, e, v, l) => {
            let o = p_c(x, St { sc: s.sc, ft: s.ft, ct: if e is Some { ClassType::Subclass } else { ClassType::PlainClass } });
            (St { sc: o.0.sc, ft: o.0.ft, ct: s.ct }, o.1)
        }
        SS::Expr(e) => p_e(e, s),
        SS::Fun(f) => { let o = defined(s, f.name, f.f.loc); then(o, p_f(f.f, FunctionType::Plain, o.0)) }
        SS::If(c, a, b) => {
            let o = p_e(c, s);
            let p = p_s(*a, o.0);
            then(o, match b { None => p, Some(y) => then(p, p_s(*y, p.0)) })
        }
        SS::Print(e) => p_e(e, s),
        SS::Return(e, l) => if s.ft == FunctionType::NoFunction || (s.ft == FunctionType::Initializer && !(e is Nil)) { bad(s, l, "return"@) } else { p_e(e, s) },
        SS::Var(n, e, l) => {
            let o = declared(s, n, l);
            if o.1 is Some { o } else {
                let p = p_e(e, o.0);
                let q = defined(p.0, n, l);
                then(q, (q.0, p.1))
            }
        }
        SS::While(c, b) => { let o = p_e(c, s); then(o, p_s(*b, o.0)) }
        SS::WhileInc(c, b, i) => { let o = p_e(c, s); let p = p_s(*b, o.0); then(o, then(p, p_e(i, p.0))) }
        _ => good(s),
    }
}
/// Every statement is judged; the errors so far are es.
pub open spec fn r_prog(v: Seq<SS>, i: int, es: Seq<Er>, s: St) -> (St, Seq<Er>) decreases v.len() - i {
    if i < 0 || i >= v.len() { (s, es) } else { let o = p_s(v[i], s); r_prog(v, i + 1, match o.1 { Some(e) => es.push(e), None => es }, o.0) }
}
pub open spec fn ers(v: Seq<ParseErrorCause>) -> Seq<Er> { Seq::new(v.len(), |i: int| er(v[i])) }
pub broadcast proof fn ers_push(v: Seq<ParseErrorCause>, x: ParseErrorCause)
    ensures #[trigger] ers(v.push(x)) == ers(v).push(er(x)),
{ assert(ers(v.push(x)) =~= ers(v).push(er(x))); }
pub broadcast proof fn ers_none()
    ensures #[trigger] ers(Seq::empty()) == Seq::<Er>::empty(),
{ assert(ers(Seq::empty()) =~= Seq::empty()); }
pub broadcast group errors { ers_push, ers_none }
pub open spec fn is_r(r: Result<(), ParseErrorCause>, s: St, o: R) -> bool {
    s == o.0 && match r { Ok(_) => o.1 is None, Err(e) => o.1 == Some(er(e)) }
}

// ------------------------------------------------ the bindings
/// The bindings of a tree, with the shape of the tree.
pub enum BT { Leaf, Use(VarLoc, Seq<BT>), Decl(SlotIndex, BT0), Node(Seq<BT>) }
pub type BT0 = Box<BT>;
pub open spec fn bt2(a: BT, b: BT) -> BT { BT::Node(seq![a, b]) }
pub open spec fn bt3(a: BT, b: BT, c: BT) -> BT { BT::Node(seq![a, b, c]) }
/// The bindings that the rules give, if there is no error.
#[unfold]
pub open spec fn b_e(e: SE, s: St) -> BT decreases e, 0int {
    match e {
        SE::Assign(n, x, l) => BT::Use(bound(p_e(*x, s).0, n), seq![b_e(*x, s)]),
        SE::Call(f, a, _) => bt2(b_e(*f, s), BT::Node(b_es(a, 0, seq![], p_e(*f, s).0))),
        SE::Binary(a, _, b, _) => bt2(b_e(*a, s), b_e(*b, p_e(*a, s).0)),
        SE::Function(f) => b_f(f, FunctionType::Plain, s),
        SE::Get(x, _, _) => b_e(*x, s),
        SE::GetIndex(a, b, _) => bt2(b_e(*a, s), b_e(*b, p_e(*a, s).0)),
        SE::Grouping(x) => b_e(*x, s),
        SE::Array(a) => BT::Node(b_es(a, 0, seq![], s)),
        SE::Map(a) => BT::Node(b_ens(a, 0, seq![], s)),
        SE::Logical(a, _, b) => bt2(b_e(*a, s), b_e(*b, p_e(*a, s).0)),
        SE::Set(a, _, b, _) => bt2(b_e(*a, s), b_e(*b, p_e(*a, s).0)),
        SE::SetIndex(a, b, c, _) => bt3(b_e(*a, s), b_e(*b, p_e(*a, s).0), b_e(*c, p_e(*b, p_e(*a, s).0).0)),
        SE::Super(_, l) => BT::Use(bound(s, "super"@), seq![]),
        SE::Variable(n, l) => BT::Use(bound(s, n), seq![]),
        SE::Unary(_, x, _) => b_e(*x, s),
        _ => BT::Leaf,
    }
}
pub open spec fn b_es(v: Seq<SE>, i: int, acc: Seq<BT>, s: St) -> Seq<BT> decreases v, v.len() - i {
    if i < 0 || i >= v.len() { acc } else { b_es(v, i + 1, acc.push(b_e(v[i], s)), p_e(v[i], s).0) }
}
pub open spec fn b_ens(v: Seq<(Seq<char>, SE)>, i: int, acc: Seq<BT>, s: St) -> Seq<BT> decreases v, v.len() - i {
    if i < 0 || i >= v.len() { acc } else { b_ens(v, i + 1, acc.push(b_e(v[i].1, s)), p_e(v[i].1, s).0) }
}
#[unfold]
pub open spec fn b_f(f: SF, t: FunctionType, s: St) -> BT decreases f, 0int {
    BT::Node(b_ss(f.body, 0, seq![], r_ps(f.params, 0, push(St { sc: s.sc, ft: t, ct: s.ct })).0))
}
pub open spec fn b_ss(v: Seq<SS>, i: int, acc: Seq<BT>, s: St) -> Seq<BT> decreases v, v.len() - i {
    if i < 0 || i >= v.len() { acc } else { b_ss(v, i + 1, acc.push(b_s(v[i], s)), p_s(v[i], s).0) }
}
pub open spec fn b_ms(v: Seq<SN>, i: int, acc: Seq<BT>, s: St) -> Seq<BT> decreases v, v.len() - i {
    if i < 0 || i >= v.len() { acc } else { b_ms(v, i + 1, acc.push(b_f(v[i].f, kind(v[i].name), s)), p_f(v[i].f, kind(v[i].name), s).0) }
}
pub open spec fn b_methods(v: Seq<SN>, l: SourceLoc, s: St) -> BT decreases v, v.len() + 1 {
    BT::Node(b_ms(v, 0, seq![], defined(push(s), "this"@, l).0))
}
#[unfold]
pub open spec fn b_c(c: SS, s: St) -> BT decreases c, 0int {
    match c {
        SS::Class(n, x, v, l) => {
            let o = defined(s, n, l).0;
            match x {
                None => bt2(BT::Leaf, b_methods(v, l, o)),
                Some(e) => bt2(b_e(e, o), b_methods(v, l, defined(push(p_e(e, o).0), "super"@, l).0)),
            }
        }
        _ => BT::Leaf,
    }
}
#[unfold]
pub open spec fn b_s(x: SS, s: St) -> BT decreases x, 1int {
    match x {
        SS::Block(v) => BT::Node(b_ss(v, 0, seq![], push(s))),
        SS::Class(n, e, v, l) => b_c(x, St { sc: s.sc, ft: s.ft, ct: if e is Some { ClassType::Subclass } else { ClassType::PlainClass } }),
        SS::Expr(e) => b_e(e, s),
        SS::Fun(f) => b_f(f.f, FunctionType::Plain, defined(s, f.name, f.f.loc).0),
        SS::If(c, a, b) => {
            let o = p_e(c, s).0;
            bt3(b_e(c, s), b_s(*a, o), match b { None => BT::Leaf, Some(y) => b_s(*y, p_s(*a, o).0) })
        }
        SS::Print(e) => b_e(e, s),
        SS::Return(e, l) => b_e(e, s),
        SS::Var(n, e, l) => BT::Decl(SlotIndex(slot(s, top(s), n) as u8), Box::new(b_e(e, declared(s, n, l).0))),
        SS::While(c, b) => bt2(b_e(c, s), b_s(*b, p_e(c, s).0)),
        SS::WhileInc(c, b, i) => { let o = p_e(c, s).0; bt3(b_e(c, s), b_s(*b, o), b_e(i, p_s(*b, o).0)) }
        _ => BT::Leaf,
    }
}

// ------------------------------------------------ the bindings in the tree
#[unfold]
pub open spec fn p_be(e: Expr) -> BT decreases e {
    match e {
        Expr::Assign(_, c, x, _) => BT::Use(c.v, seq![p_be(*x)]),
        Expr::Call(f, a, _) => bt2(p_be(*f), BT::Node(bes(a@, a@.len() as int))),
        Expr::Binary(a, _, b, _) => bt2(p_be(*a), p_be(*b)),
        Expr::Function(f) => BT::Node(bss((*f).body@, (*f).body@.len() as int)),
        Expr::Get(x, _, _) => p_be(*x),
        Expr::GetIndex(a, b, _) => bt2(p_be(*a), p_be(*b)),
        Expr::Grouping(x) => p_be(*x),
        Expr::LiteralArray(a) => BT::Node(bes(a@, a@.len() as int)),
        Expr::LiteralMap(m) => BT::Node(bens(m.map.ents(), m.map.ents().len() as int)),
        Expr::Logical(a, _, b) => bt2(p_be(*a), p_be(*b)),
        Expr::Set(a, _, b, _) => bt2(p_be(*a), p_be(*b)),
        Expr::SetIndex(a, b, c, _) => bt3(p_be(*a), p_be(*b), p_be(*c)),
        Expr::Super(c, _, _) => BT::Use(c.v, seq![]),
        Expr::Variable(_, c, _) => BT::Use(c.v, seq![]),
        Expr::Unary(_, x, _) => p_be(*x),
        _ => BT::Leaf,
    }
}
/// Those of the first n.
pub open spec fn bes(v: Seq<Expr>, n: int) -> Seq<BT> decreases v {
    Seq::new(n as nat, |i: int| if 0 <= i < v.len() { p_be(v[i]) } else { BT::Leaf })
}
pub open spec fn bens(v: Seq<(Seq<char>, Expr)>, n: int) -> Seq<BT> decreases v {
    Seq::new(n as nat, |i: int| if 0 <= i < v.len() { p_be(v[i].1) } else { BT::Leaf })
}
pub open spec fn bf(f: FunctionDefinition) -> BT { BT::Node(bss(f.body@, f.body@.len() as int)) }
pub open spec fn bns(v: Seq<NamedFunctionDefinition>, n: int) -> Seq<BT> decreases v {
    Seq::new(n as nat, |i: int| if 0 <= i < v.len() { BT::Node(bss(v[i].fun_def.body@, v[i].fun_def.body@.len() as int)) } else { BT::Leaf })
}
pub open spec fn bc(c: ClassDefinition) -> BT { bt2(match c.superclass { Some(x) => p_be(*x), None => BT::Leaf }, BT::Node(bns(c.methods@, c.methods@.len() as int))) }
#[unfold]
pub open spec fn p_bs(x: Stmt) -> BT decreases x {
    match x {
        Stmt::Block(v) => BT::Node(bss(v@, v@.len() as int)),
        Stmt::Class(c) => bt2(match c.superclass { Some(x) => p_be(*x), None => BT::Leaf }, BT::Node(bns(c.methods@, c.methods@.len() as int))),
        Stmt::Expression(e) => p_be(e),
        Stmt::Fun(f) => BT::Node(bss(f.fun_def.body@, f.fun_def.body@.len() as int)),
        Stmt::If(c, a, b) => bt3(p_be(c), p_bs(*a), match b { None => BT::Leaf, Some(y) => p_bs(*y) }),
        Stmt::Print(e) => p_be(e),
        Stmt::Return(e, _) => p_be(e),
        Stmt::Var(_, c, e, _) => BT::Decl(c.v, Box::new(p_be(*e))),
        Stmt::While(c, b) => bt2(p_be(c), p_bs(*b)),
        Stmt::WhileIncrement(c, b, i) => bt3(p_be(c), p_bs(*b), p_be(*i)),
        _ => BT::Leaf,
    }
}
pub open spec fn bss(v: Seq<Stmt>, n: int) -> Seq<BT> decreases v {
    Seq::new(n as nat, |i: int| if 0 <= i < v.len() { p_bs(v[i]) } else { BT::Leaf })
}
pub broadcast proof fn bes_step(v: Seq<Expr>, i: int, x: Expr, n: int)
    requires 0 <= i < v.len(), n == i + 1,
    ensures #[trigger] bes(v.update(i, x), n) == bes(v, i).push(p_be(x)),
{ reveal(p_be); reveal(p_bs); assert(bes(v.update(i, x), n) =~= bes(v, i).push(p_be(x))); }
pub broadcast proof fn bens_step(v: Seq<(Seq<char>, Expr)>, i: int, x: (Seq<char>, Expr), n: int)
    requires 0 <= i < v.len(), n == i + 1,
    ensures #[trigger] bens(v.update(i, x), n) == bens(v, i).push(p_be(x.1)),
{ reveal(p_be); reveal(p_bs); assert(bens(v.update(i, x), n) =~= bens(v, i).push(p_be(x.1))); }
pub broadcast proof fn bss_step(v: Seq<Stmt>, i: int, x: Stmt, n: int)
    requires 0 <= i < v.len(), n == i + 1,
    ensures #[trigger] bss(v.update(i, x), n) == bss(v, i).push(p_bs(x)),
{ reveal(p_be); reveal(p_bs); assert(bss(v.update(i, x), n) =~= bss(v, i).push(p_bs(x))); }
pub broadcast proof fn bns_step(v: Seq<NamedFunctionDefinition>, i: int, x: NamedFunctionDefinition, n: int)
    requires 0 <= i < v.len(), n == i + 1,
    ensures #[trigger] bns(v.update(i, x), n) == bns(v, i).push(bf(x.fun_def)),
{ reveal(p_be); reveal(p_bs); assert(bns(v.update(i, x), n) =~= bns(v, i).push(bf(x.fun_def))); }
pub broadcast proof fn bes_none(v: Seq<Expr>)
    ensures #[trigger] bes(v, 0) == Seq::<BT>::empty(),
{ reveal(p_be); reveal(p_bs); assert(bes(v, 0) =~= Seq::<BT>::empty()); }
pub broadcast proof fn bens_none(v: Seq<(Seq<char>, Expr)>)
    ensures #[trigger] bens(v, 0) == Seq::<BT>::empty(),
{ reveal(p_be); reveal(p_bs); assert(bens(v, 0) =~= Seq::<BT>::empty()); }
pub broadcast proof fn bss_none(v: Seq<Stmt>)
    ensures #[trigger] bss(v, 0) == Seq::<BT>::empty(),
{ reveal(p_be); reveal(p_bs); assert(bss(v, 0) =~= Seq::<BT>::empty()); }
pub broadcast proof fn bns_none(v: Seq<NamedFunctionDefinition>)
    ensures #[trigger] bns(v, 0) == Seq::<BT>::empty(),
{ reveal(p_be); reveal(p_bs); assert(bns(v, 0) =~= Seq::<BT>::empty()); }
pub broadcast group steps { bes_step, bens_step, bss_step, bns_step, bes_none, bens_none, bss_none, bns_none }

// ------------------------------------------------ how deep scopes nest
/// There is room for r scopes inside, and this needs no more.
#[unfold]
pub open spec fn p_fit(e: SE, r: int) -> bool decreases e, 0int {
    match e {
        SE::Assign(n, x, l) => p_fit(*x, r),
        SE::Call(f, a, _) => p_fit(*f, r) && fits(a, r),
        SE::Binary(a, _, b, _) => p_fit(*a, r) && p_fit(*b, r),
        SE::Function(f) => p_fitf(f, r),
        SE::Get(x, _, _) => p_fit(*x, r),
        SE::GetIndex(a, b, _) => p_fit(*a, r) && p_fit(*b, r),
        SE::Grouping(x) => p_fit(*x, r),
        SE::Array(a) => fits(a, r),
        SE::Map(a) => fitens(a, r),
        SE::Logical(a, _, b) => p_fit(*a, r) && p_fit(*b, r),
        SE::Set(a, _, b, _) => p_fit(*a, r) && p_fit(*b, r),
        SE::SetIndex(a, b, c, _) => p_fit(*a, r) && p_fit(*b, r) && p_fit(*c, r),
        SE::Unary(_, x, _) => p_fit(*x, r),
        _ => true,
    }
}
pub open spec fn fits(v: Seq<SE>, r: int) -> bool decreases v { forall|i: int| 0 <= i < v.len() ==> p_fit(#[trigger] v[i], r) }
pub open spec fn fitens(v: Seq<(Seq<char>, SE)>, r: int) -> bool decreases v { forall|i: int| 0 <= i < v.len() ==> p_fit((#[trigger] v[i]).1, r) }
#[unfold]
pub open spec fn p_fitf(f: SF, r: int) -> bool decreases f, 0int { r >= 1 && fitss(f.body, r - 1) }
pub open spec fn fitss(v: Seq<SS>, r: int) -> bool decreases v { forall|i: int| 0 <= i < v.len() ==> p_fits(#[trigger] v[i], r) }
pub open spec fn fitns(v: Seq<SN>, r: int) -> bool decreases v { forall|i: int| 0 <= i < v.len() ==> p_fitf((#[trigger] v[i]).f, r) }
#[unfold]
pub open spec fn p_fits(x: SS, r: int) -> bool decreases x, 0int {
    match x {
        SS::Block(v) => r >= 1 && fitss(v, r - 1),
        SS::Class(_, e, v, _) => match e { None => r >= 1 && fitns(v, r - 1), Some(y) => p_fit(y, r) && r >= 2 && fitns(v, r - 2) },
        SS::Expr(e) => p_fit(e, r),
        SS::Fun(f) => p_fitf(f.f, r),
        SS::If(c, a, b) => p_fit(c, r) && p_fits(*a, r) && match b { None => true, Some(y) => p_fits(*y, r) },
        SS::Print(e) => p_fit(e, r),
        SS::Return(e, _) => p_fit(e, r),
        SS::Var(_, e, _) => p_fit(e, r),
        SS::While(c, b) => p_fit(c, r) && p_fits(*b, r),
        SS::WhileInc(c, b, i) => p_fit(c, r) && p_fits(*b, r) && p_fit(i, r),
        _ => true,
    }
}
pub open spec fn room(s: St) -> int { 65535 - s.sc.len() }
pub open spec fn wf(s: St) -> bool { 1 <= s.sc.len() <= 65535 && all_ok(s.sc) }
/// A session between two lines.
pub open spec fn idle(s: St) -> bool {
    s.sc.len() == 1 && s.ft == FunctionType::NoFunction && s.ct == ClassType::NoClass && settled(s.sc[0])
}
/// What a node leaves as it was.
pub open spec fn kept(o: St, n: St) -> bool { n.sc.len() == o.sc.len() && n.ft == o.ft && n.ct == o.ct }
// ------------------------------------------------ lists in the tree
pub broadcast proof fn ves_update(v: Seq<Expr>, i: int, x: Expr)
    requires 0 <= i < v.len(), ve(x, true) == ve(v[i], true),
    ensures #[trigger] ves(v.update(i, x), true) == ves(v, true),
{ reveal(ve); reveal(vs); assert(ves(v.update(i, x), true) =~= ves(v, true)); }
pub broadcast proof fn vents_update(v: Seq<(Seq<char>, Expr)>, i: int, x: (Seq<char>, Expr))
    requires 0 <= i < v.len(), x.0 == v[i].0, ve(x.1, true) == ve(v[i].1, true),
    ensures #[trigger] vents(v.update(i, x), true) == vents(v, true),
{ reveal(ve); reveal(vs); assert(vents(v.update(i, x), true) =~= vents(v, true)); }
pub broadcast proof fn vss_update(v: Seq<Stmt>, i: int, x: Stmt)
    requires 0 <= i < v.len(), vs(x, true) == vs(v[i], true),
    ensures #[trigger] vss(v.update(i, x), true) == vss(v, true),
{ reveal(ve); reveal(vs); assert(vss(v.update(i, x), true) =~= vss(v, true)); }
pub broadcast proof fn vns_update(v: Seq<NamedFunctionDefinition>, i: int, x: NamedFunctionDefinition)
    requires 0 <= i < v.len(), vn(x, true) == vn(v[i], true),
    ensures #[trigger] vns(v.update(i, x), true) == vns(v, true),
{ reveal(ve); reveal(vs); assert(vns(v.update(i, x), true) =~= vns(v, true)); }
pub broadcast group updates { ves_update, vents_update, vss_update, vns_update }
pub broadcast proof fn fits_at(v: Seq<Expr>, r: int)
    requires #[trigger] fits(ves(v, true), r),
    ensures forall|j: int| 0 <= j < v.len() ==> p_fit(ve(#[trigger] v[j], true), r),
{ reveal(ve); reveal(vs); reveal(p_fit); reveal(p_fitf); reveal(p_fits); assert forall|j: int| 0 <= j < v.len() implies p_fit(ve(#[trigger] v[j], true), r) by { assert(p_fit(ves(v, true)[j], r)); } }
pub broadcast proof fn fitens_at(v: Seq<(Seq<char>, Expr)>, r: int)
    requires #[trigger] fitens(vents(v, true), r),
    ensures forall|j: int| 0 <= j < v.len() ==> p_fit(ve((#[trigger] v[j]).1, true), r),
{ reveal(ve); reveal(vs); reveal(p_fit); reveal(p_fitf); reveal(p_fits); assert forall|j: int| 0 <= j < v.len() implies p_fit(ve((#[trigger] v[j]).1, true), r) by { assert(p_fit(vents(v, true)[j].1, r)); } }
pub broadcast proof fn fitss_at(v: Seq<Stmt>, r: int)
    requires #[trigger] fitss(vss(v, true), r),
    ensures forall|j: int| 0 <= j < v.len() ==> p_fits(vs(#[trigger] v[j], true), r),
{ reveal(ve); reveal(vs); reveal(p_fit); reveal(p_fitf); reveal(p_fits); assert forall|j: int| 0 <= j < v.len() implies p_fits(vs(#[trigger] v[j], true), r) by { assert(p_fits(vss(v, true)[j], r)); } }
pub broadcast proof fn fitns_at(v: Seq<NamedFunctionDefinition>, r: int)
    requires #[trigger] fitns(vns(v, true), r),
    ensures forall|j: int| 0 <= j < v.len() ==> p_fitf(vf((#[trigger] v[j]).fun_def, true), r),
{ reveal(ve); reveal(vs); reveal(p_fit); reveal(p_fitf); reveal(p_fits); assert forall|j: int| 0 <= j < v.len() implies p_fitf(vf((#[trigger] v[j]).fun_def, true), r) by { assert(p_fitf(vns(v, true)[j].f, r)); } }
pub broadcast group fitted { fits_at, fitens_at, fitss_at, fitns_at }
/// What a node shows.
pub proof fn see_e(e: Expr)
    ensures ve(e, true) == (match e {
        Expr::Assign(n, _, v, l) => SE::Assign(n@, Box::new(ve(*v, true)), lk(l, true)),
        Expr::Call(f, a, l) => SE::Call(Box::new(ve(*f, true)), ves(a@, true), lk(l, true)),
        Expr::Binary(a, o, b, l) => SE::Binary(Box::new(ve(*a, true)), o, Box::new(ve(*b, true)), lk(l, true)),
        Expr::Function(f) => SE::Function(vf(*f, true)),
        Expr::Get(o, n, l) => SE::Get(Box::new(ve(*o, true)), n@, lk(l, true)),
        Expr::GetIndex(o, i, l) => SE::GetIndex(Box::new(ve(*o, true)), Box::new(ve(*i, true)), lk(l, true)),
        Expr::Grouping(x) => SE::Grouping(Box::new(ve(*x, true))),
        Expr::LiteralArray(a) => SE::Array(ves(a@, true)),
        Expr::LiteralBool(b) => SE::Bool(b),
        Expr::LiteralMap(m) => SE::Map(vm(m, true)),
        Expr::LiteralNumber(x) => SE::Number(x),
        Expr::LiteralNil => SE::Nil,
        Expr::LiteralString(s) => SE::Str(s@),
        Expr::Logical(a, o, b) => SE::Logical(Box::new(ve(*a, true)), o, Box::new(ve(*b, true))),
        Expr::Set(o, n, v, l) => SE::Set(Box::new(ve(*o, true)), n@, Box::new(ve(*v, true)), lk(l, true)),
        Expr::SetIndex(o, i, v, l) => SE::SetIndex(Box::new(ve(*o, true)), Box::new(ve(*i, true)), Box::new(ve(*v, true)), lk(l, true)),
        Expr::Super(_, n, l) => SE::Super(n@, lk(l, true)),
        Expr::Variable(n, _, l) => SE::Variable(n@, lk(l, true)),
        Expr::Unary(o, x, l) => SE::Unary(o, Box::new(ve(*x, true)), lk(l, true)),
    }),
{ reveal(ve); reveal(vs); }
pub proof fn see_s(s: Stmt)
    ensures vs(s, true) == (match s {
        Stmt::Block(v) => SS::Block(vss(v@, true)),
        Stmt::Break(l) => SS::Break(lk(l, true)),
        Stmt::Class(c) => SS::Class(c.name@, match c.superclass { Some(x) => Some(ve(*x, true)), None => None }, vns(c.methods@, true), lk(c.source_loc, true)),
        Stmt::Continue(l) => SS::Continue(lk(l, true)),
        Stmt::Expression(e) => SS::Expr(ve(e, true)),
        Stmt::Fun(f) => SS::Fun(vn(f, true)),
        Stmt::If(c, a, b) => SS::If(ve(c, true), Box::new(vs(*a, true)), match b { Some(x) => Some(Box::new(vs(*x, true))), None => None }),
        Stmt::Print(e) => SS::Print(ve(e, true)),
        Stmt::Return(e, l) => SS::Return(ve(e, true), lk(l, true)),
        Stmt::Var(n, _, e, l) => SS::Var(n@, ve(*e, true), lk(l, true)),
        Stmt::While(c, b) => SS::While(ve(c, true), Box::new(vs(*b, true))),
        Stmt::WhileIncrement(c, b, i) => SS::WhileInc(ve(c, true), Box::new(vs(*b, true)), ve(*i, true)),
    }),
{ reveal(ve); reveal(vs); }
// ------------------------------------------------ the next of a list
pub proof fn next_es(v: Seq<Expr>, i: int, s: St)
    requires 0 <= i < v.len(),
    ensures
        r_es(ves(v, true), i, s) == then(p_e(ve(v[i], true), s), r_es(ves(v, true), i + 1, p_e(ve(v[i], true), s).0)),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(ves(v, true).len() == v.len()); }
pub broadcast proof fn last_es(v: Seq<Expr>, i: int, s: St)
    requires i >= v.len(),
    ensures #[trigger] r_es(ves(v, true), i, s) == good(s),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(ves(v, true).len() == v.len()); }
pub proof fn next_b_es(v: Seq<Expr>, i: int, acc: Seq<BT>, s: St)
    requires 0 <= i < v.len(),
    ensures
        b_es(ves(v, true), i, acc, s) == b_es(ves(v, true), i + 1, acc.push(b_e(ve(v[i], true), s)), p_e(ve(v[i], true), s).0),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(ves(v, true).len() == v.len()); }
pub broadcast proof fn last_b_es(v: Seq<Expr>, i: int, acc: Seq<BT>, s: St)
    requires i >= v.len(),
    ensures #[trigger] b_es(ves(v, true), i, acc, s) == acc,
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(ves(v, true).len() == v.len()); }
pub proof fn next_ens(v: Seq<(Seq<char>, Expr)>, i: int, s: St)
    requires 0 <= i < v.len(),
    ensures
        r_ens(vents(v, true), i, s) == then(p_e(ve(v[i].1, true), s), r_ens(vents(v, true), i + 1, p_e(ve(v[i].1, true), s).0)),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vents(v, true).len() == v.len()); }
pub broadcast proof fn last_ens(v: Seq<(Seq<char>, Expr)>, i: int, s: St)
    requires i >= v.len(),
    ensures #[trigger] r_ens(vents(v, true), i, s) == good(s),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vents(v, true).len() == v.len()); }
pub proof fn next_b_ens(v: Seq<(Seq<char>, Expr)>, i: int, acc: Seq<BT>, s: St)
    requires 0 <= i < v.len(),
    ensures
        b_ens(vents(v, true), i, acc, s) == b_ens(vents(v, true), i + 1, acc.push(b_e(ve(v[i].1, true), s)), p_e(ve(v[i].1, true), s).0),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vents(v, true).len() == v.len()); }
pub broadcast proof fn last_b_ens(v: Seq<(Seq<char>, Expr)>, i: int, acc: Seq<BT>, s: St)
    requires i >= v.len(),
    ensures #[trigger] b_ens(vents(v, true), i, acc, s) == acc,
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vents(v, true).len() == v.len()); }
pub proof fn next_ss(v: Seq<Stmt>, i: int, s: St)
    requires 0 <= i < v.len(),
    ensures
        r_ss(vss(v, true), i, s) == then(p_s(vs(v[i], true), s), r_ss(vss(v, true), i + 1, p_s(vs(v[i], true), s).0)),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vss(v, true).len() == v.len()); }
pub broadcast proof fn last_ss(v: Seq<Stmt>, i: int, s: St)
    requires i >= v.len(),
    ensures #[trigger] r_ss(vss(v, true), i, s) == good(s),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vss(v, true).len() == v.len()); }
pub proof fn next_b_ss(v: Seq<Stmt>, i: int, acc: Seq<BT>, s: St)
    requires 0 <= i < v.len(),
    ensures
        b_ss(vss(v, true), i, acc, s) == b_ss(vss(v, true), i + 1, acc.push(b_s(vs(v[i], true), s)), p_s(vs(v[i], true), s).0),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vss(v, true).len() == v.len()); }
pub broadcast proof fn last_b_ss(v: Seq<Stmt>, i: int, acc: Seq<BT>, s: St)
    requires i >= v.len(),
    ensures #[trigger] b_ss(vss(v, true), i, acc, s) == acc,
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vss(v, true).len() == v.len()); }
pub proof fn next_ms(v: Seq<NamedFunctionDefinition>, i: int, s: St)
    requires 0 <= i < v.len(),
    ensures
        r_ms(vns(v, true), i, s) == then(p_f(vf(v[i].fun_def, true), kind(v[i].name@), s), r_ms(vns(v, true), i + 1, p_f(vf(v[i].fun_def, true), kind(v[i].name@), s).0)),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vns(v, true).len() == v.len()); }
pub broadcast proof fn last_ms(v: Seq<NamedFunctionDefinition>, i: int, s: St)
    requires i >= v.len(),
    ensures #[trigger] r_ms(vns(v, true), i, s) == good(s),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vns(v, true).len() == v.len()); }
pub proof fn next_b_ms(v: Seq<NamedFunctionDefinition>, i: int, acc: Seq<BT>, s: St)
    requires 0 <= i < v.len(),
    ensures
        b_ms(vns(v, true), i, acc, s) == b_ms(vns(v, true), i + 1, acc.push(b_f(vf(v[i].fun_def, true), kind(v[i].name@), s)), p_f(vf(v[i].fun_def, true), kind(v[i].name@), s).0),
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vns(v, true).len() == v.len()); }
pub broadcast proof fn last_b_ms(v: Seq<NamedFunctionDefinition>, i: int, acc: Seq<BT>, s: St)
    requires i >= v.len(),
    ensures #[trigger] b_ms(vns(v, true), i, acc, s) == acc,
{ reveal(ve); reveal(vs); reveal(p_e); reveal(p_f); reveal(p_c); reveal(p_s); reveal(b_e); reveal(b_f); reveal(b_c); reveal(b_s); assert(vns(v, true).len() == v.len()); }
pub proof fn next_prog(v: Seq<Stmt>, i: int, es: Seq<Er>, s: St)
    requires 0 <= i < v.len(),
    ensures
        r_prog(vss(v, true), i, es, s) == (match p_s(vs(v[i], true), s).1 { Some(e) => r_prog(vss(v, true), i + 1, es.push(e), p_s(vs(v[i], true), s).0), None => r_prog(vss(v, true), i + 1, es, p_s(vs(v[i], true), s).0) }),
{ reveal(ve); reveal(vs); assert(vss(v, true).len() == v.len()); }
pub broadcast proof fn last_prog(v: Seq<Stmt>, i: int, es: Seq<Er>, s: St)
    requires i >= v.len(),
    ensures #[trigger] r_prog(vss(v, true), i, es, s) == (s, es),
{ reveal(ve); reveal(vs); assert(vss(v, true).len() == v.len()); }
pub proof fn next_ps(v: Seq<Parameter>, i: int, s: St)
    requires 0 <= i < v.len(),
    ensures r_ps(vps(v, true), i, s) == then(defined(s, v[i].name@, v[i].source_loc), r_ps(vps(v, true), i + 1, defined(s, v[i].name@, v[i].source_loc).0)),
{ assert(vps(v, true).len() == v.len()); }
pub broadcast proof fn last_ps(v: Seq<Parameter>, i: int, s: St)
    requires i >= v.len(),
    ensures #[trigger] r_ps(vps(v, true), i, s) == good(s),
{ assert(vps(v, true).len() == v.len()); }
pub broadcast group lasts { last_es, last_ens, last_ss, last_ms, last_b_es, last_b_ens, last_b_ss, last_b_ms, last_prog, last_ps }
/// Which nodes the rules tell apart.
pub broadcast proof fn ve_kind(e: Expr)
    ensures
        (#[trigger] ve(e, true)) is Nil == e is LiteralNil,
        ve(e, true) is Variable == e is Variable,
        e is Variable ==> ve(e, true) == SE::Variable(e->Variable_0@, e->Variable_2),
{ reveal(ve); }
/// The names of the innermost scope.
pub broadcast proof fn grow_last(o: Seq<Sc>, n: Seq<Sc>)
    requires #[trigger] grow(o, n), o.len() > 0,
    ensures forall|a: Seq<char>| #[trigger] o.last().dom().contains(a) ==> n.last().dom().contains(a) && n.last()[a].slot_index == o.last()[a].slot_index,
{
    reveal(grow);
    assert forall|a: Seq<char>| #[trigger] o.last().dom().contains(a) implies n.last().dom().contains(a) && n.last()[a].slot_index == o.last()[a].slot_index by { assert(o[o.len() - 1].dom().contains(a)); }
}
pub broadcast proof fn ok_last(s: Seq<Sc>)
    requires #[trigger] all_ok(s), s.len() > 0,
    ensures forall|a: Seq<char>| #[trigger] s.last().dom().contains(a) ==> s.last()[a].slot_index < 255,
{ reveal(all_ok); assert(sc_ok(s[s.len() - 1])); }
pub broadcast group innermost { grow_last, ok_last }
