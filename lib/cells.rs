// ---- std::cell::Cell, used only through `&mut` -----------------------------
pub struct Cell<T> { pub v: T }
impl<T> Cell<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v { Cell { v } }
    pub fn set(&mut self, v: T) ensures final(self).v == v { self.v = v; }
    pub fn get(&self) -> (r: T) where T: Copy ensures r == self.v { self.v }
}
#[verifier::external]
impl<T: std::fmt::Debug> std::fmt::Debug for Cell<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_struct("Cell").field("value", &self.v).finish() }
}
