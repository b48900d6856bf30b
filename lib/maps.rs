#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V> { m: std::collections::HashMap<String, V>, k: std::marker::PhantomData<K> }
impl<K: VStr, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Seq<char>, V>::empty(),
    { HashMap { m: std::collections::HashMap::new(), k: std::marker::PhantomData } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { self.m.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.dom().len() == 0),
    { self.m.is_empty() }
    #[verifier::external_body]
    pub fn contains_key<Q: VStr + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k.sv()),
    { self.m.contains_key(&k.vtext()) }
    #[verifier::external_body]
    pub fn get<Q: VStr + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r {
            Some(v) => self@.dom().contains(k.sv()) && *v == self@[k.sv()],
            None => !self@.dom().contains(k.sv()),
        },
    { self.m.get(&k.vtext()) }
    #[verifier::external_body]
    pub fn get_mut<Q: VStr + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k.sv()) && *v == old(self)@[k.sv()]
                && final(self)@ == old(self)@.insert(k.sv(), *final(v)),
            None => !old(self)@.dom().contains(k.sv()) && final(self)@ == old(self)@,
        },
    { self.m.get_mut(&k.vtext()) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k.sv(), v),
            r is Some == old(self)@.dom().contains(k.sv()),
            r is Some ==> r->0 == old(self)@[k.sv()],
    { self.m.insert(k.vtext(), v) }
}

#[verifier::external]
impl<K, V: std::fmt::Debug> std::fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.m.fmt(f) }
}
