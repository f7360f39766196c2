@raw
pub mod vx_maps {
use vstd::prelude::*;
/// Inserting what is there changes nothing.
pub broadcast proof fn inserted_again<K, V>(m: Map<K, V>, k: K, v: V)
    requires m.contains_key(k), m[k] == v
    ensures #[trigger] m.insert(k, v) == m
{ assert(m.insert(k, v) =~= m); }
}
@end
@broadcast vx_maps::inserted_again
@raw
// The standard maps, for keys whose equality and hash are structural (derived, or integers): trusted.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()), r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'e>(&'e mut self, k: K) -> (r: Entry<'e, K, V>)
        ensures entered(r, old(self)@, k, final(self)@)
    { unimplemented!() }
}
/// What an entry for a key of a map is, and what it makes of the map.
#[verifier::prophetic]
pub open spec fn entered<'e, K, V>(r: Entry<'e, K, V>, before: Map<K, V>, k: K, after: Map<K, V>) -> bool {
    match r {
        Entry::Occupied(e) => before.contains_key(k) && e.key == k && *e.at == before[k] && after == before.insert(k, *final(e.at)),
        Entry::Vacant(e) => !before.contains_key(k) && e.key == k && (*e.map)@ == before && after == final(e.map)@,
    }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'e, K, V> { pub key: K, pub at: &'e mut V }
impl<'e, K, V> OccupiedEntry<'e, K, V> {
    pub open spec fn val(&self) -> V { *self.at }
    pub fn get(&self) -> (r: &V) ensures *r == self.val() { &*self.at }
    pub fn key(&self) -> (r: &K) ensures *r == self.key { &self.key }
    pub fn get_mut(&mut self) -> (r: &mut V)
        ensures *r == *old(self).at, *final(self).at == *final(r), *final(final(self).at) == *final(old(self).at), final(self).key == old(self).key
    { &mut *self.at }
    pub fn insert(&mut self, v: V) -> (r: V)
        ensures r == *old(self).at, *final(self).at == v, *final(final(self).at) == *final(old(self).at), final(self).key == old(self).key
    { core::mem::replace(self.at, v) }
    pub fn into_mut(self) -> (r: &'e mut V) ensures *r == self.val(), *final(r) == *final(self.at) { self.at }
}
/// A map as an entry that is not there yet has it.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxPlaces<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for VxPlaces<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> VxPlaces<K, V> {
    #[verifier::external_body]
    fn put(&mut self, k: K, v: V) -> (r: &mut V) ensures *r == v, final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'e, K, V> { pub key: K, pub map: &'e mut VxPlaces<K, V> }
impl<'e, K, V> VacantEntry<'e, K, V> {
    pub fn key(&self) -> (r: &K) ensures *r == self.key { &self.key }
    pub open spec fn have(&self) -> Map<K, V> { (*self.map)@ }
    pub fn into_key(self) -> (r: K) ensures r == self.key { self.key }
    pub fn insert(self, v: V) -> (r: &'e mut V) ensures *r == v, final(self.map)@ == self.have().insert(self.key, *final(r)) { self.map.put(self.key, v) }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'e, K, V> { Occupied(OccupiedEntry<'e, K, V>), Vacant(VacantEntry<'e, K, V>) }
impl<'e, K, V> Entry<'e, K, V> {
    pub fn or_insert(self, v: V) -> (r: &'e mut V)
        ensures match self { Entry::Occupied(e) => *r == *e.at && *final(r) == *final(e.at), Entry::Vacant(e) => *r == v && final(e.map)@ == e.have().insert(e.key, *final(r)) }
    { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'e mut V)
        requires self is Vacant ==> f.requires(())
        ensures match self { Entry::Occupied(e) => *r == *e.at && *final(r) == *final(e.at),
                             Entry::Vacant(e) => f.ensures((), *r) && final(e.map)@ == e.have().insert(e.key, *final(r)) }
    { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn key(&self) -> (r: &K) ensures *r == (match self { Entry::Occupied(e) => e.key, Entry::Vacant(e) => e.key })
    { match self { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => e.key() } }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()), r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'e>(&'e mut self, k: K) -> (r: Entry<'e, K, V>)
        ensures entered(r, old(self)@, k, final(self)@)
    { unimplemented!() }
}
@end
