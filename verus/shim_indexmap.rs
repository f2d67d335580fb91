// indexmap::IndexMap<String, V>: its entries in insertion order, no two with the same key
pub mod indexmap {
use super::*;
verus! {
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { p: core::marker::PhantomData<(K, V)> }

impl<V> IndexMap<String, V> {
    pub uninterp spec fn view(&self) -> Seq<(String, V)>;
    pub open spec fn has(&self, k: Seq<char>) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0@ == k }

    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }

    #[verifier::external_body]
    pub fn entry(&mut self, key: String) -> (r: map::Entry<'_, V>)
        ensures
            match r {
                map::Entry::Vacant(e) => !old(self).has(key@) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key == key,
                map::Entry::Occupied(e) => old(self).has(key@) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key@ == key@,
            }
    { unimplemented!() }

    /// appends; used only by the entries of `map`
    #[verifier::external_body]
    fn push_new(&mut self, key: String, value: V) -> (r: &mut V)
        requires !old(self).has(key@)
        ensures *r == value, final(self)@ == old(self)@.push((key, *final(r)))
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, key: &str) -> (r: bool) ensures r == self.has(key@) { unimplemented!() }
}
impl<V> ZvIntoIter<(String, V)> for IndexMap<String, V> {
    open spec fn zv_items(self) -> Seq<(String, V)> { self@ }
    #[verifier::external_body]
    fn zv_into_iter(self) -> (r: ZvIter<(String, V)>) { unimplemented!() }
}
impl<'a, V> ZvIntoIter<(&'a String, &'a V)> for &'a IndexMap<String, V> {
    open spec fn zv_items(self) -> Seq<(&'a String, &'a V)> { Seq::new(self@.len(), |i: int| (&self@[i].0, &self@[i].1)) }
    #[verifier::external_body]
    fn zv_into_iter(self) -> (r: ZvIter<(&'a String, &'a V)>) { unimplemented!() }
}
pub broadcast axiom fn axiom_index_map<V>(m: IndexMap<String, V>, i: int, j: int)
    ensures 0 <= i < j < m@.len() ==> (#[trigger] m@[i]).0@ != (#[trigger] m@[j]).0@;

pub mod map {
use super::*;
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, V> { pub map: &'a mut IndexMap<String, V>, pub key: String }
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, V> { pub map: &'a mut IndexMap<String, V>, pub key: String }
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, V> { Vacant(VacantEntry<'a, V>), Occupied(OccupiedEntry<'a, V>) }
impl<'a, V> VacantEntry<'a, V> {
    pub fn key(&self) -> (r: &String) ensures *r == self.key { &self.key }
    pub fn into_key(self) -> (r: String) ensures r == self.key, *final(self.map) == *old(self.map) { self.key }
    pub fn insert(self, value: V) -> (r: &'a mut V)
        requires !old(self.map).has(self.key@)
        ensures *r == value, final(self.map)@ == old(self.map)@.push((self.key, *final(r)))
    { self.map.push_new(self.key, value) }
}
impl<'a, V> OccupiedEntry<'a, V> {
    pub fn key(&self) -> (r: &String) ensures *r == self.key { &self.key }
}
}
}
}
