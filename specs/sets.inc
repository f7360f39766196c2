@raw
// HashSet, for elements with structural equality and hash: trusted.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { v: Vec<T> }
impl<T> View for HashSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: &HashSet<T>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), (r == 0) == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, t: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*t), r == old(self)@.contains(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
}
@end
