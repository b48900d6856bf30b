// ---- indexmap: a map that keeps the order of insertion -----------------------
pub struct FnvBuildHasher { pub dummy: u8 }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(S)]
pub struct IndexMap<K, V, S> { m: Vec<(K, V)>, s: std::marker::PhantomData<S> }
pub open spec fn has_key<V>(m: Seq<(Seq<char>, V)>, k: Seq<char>) -> bool {
    exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k
}
impl<K: VStr, V, S> IndexMap<K, V, S> {
    /// The entries, in order.
    pub uninterp spec fn ents(&self) -> Seq<(Seq<char>, V)>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.ents().len(),
    { self.m.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.ents().len() == 0),
    { self.m.is_empty() }
    #[verifier::external_body]
    pub fn contains_key<Q: VStr + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == has_key(self.ents(), k.sv()),
    { self.m.iter().any(|e| e.0.vtext() == k.vtext()) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            r is Some == has_key(old(self).ents(), k.sv()),
            r is None ==> final(self).ents() == old(self).ents().push((k.sv(), v)),
    {
        match self.m.iter_mut().find(|e| e.0.vtext() == k.vtext()) {
            Some(e) => Some(std::mem::replace(&mut e.1, v)),
            None => { self.m.push((k, v)); None }
        }
    }
    #[verifier::external_body]
    pub fn vkey(&self, i: usize) -> (r: &K)
        requires i < self.ents().len(),
        ensures r.sv() == self.ents()[i as int].0,
    { &self.m[i].0 }
    #[verifier::external_body]
    pub fn vval(&self, i: usize) -> (r: &V)
        requires i < self.ents().len(),
        ensures *r == self.ents()[i as int].1,
    { &self.m[i].1 }
    #[verifier::external_body]
    pub fn vval_mut(&mut self, i: usize) -> (r: &mut V)
        requires i < old(self).ents().len(),
        ensures
            *r == old(self).ents()[i as int].1,
            final(self).ents() == old(self).ents().update(i as int, (old(self).ents()[i as int].0, *final(r))),
    { &mut self.m[i].1 }
}
pub broadcast axiom fn ax_ents_decrease<K: VStr, V, S>(m: IndexMap<K, V, S>)
    ensures #[trigger] (decreases_to!(m => m.ents()));

impl<K: VStr, V, S> Default for IndexMap<K, V, S> {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r.ents() == Seq::<(Seq<char>, V)>::empty(),
    { IndexMap { m: Vec::new(), s: std::marker::PhantomData } }
}

#[verifier::external]
impl<K: std::fmt::Debug, V: std::fmt::Debug, S> std::fmt::Debug for IndexMap<K, V, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_map().entries(self.m.iter().map(|e| (&e.0, &e.1))).finish() }
}
