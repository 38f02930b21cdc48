// std::collections::HashMap as a finite map from the views of its keys (String: its characters, u64: itself).
// Assumed: Hash, Eq and Borrow of the key types used here agree with those views.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K: View, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K: View, V> View for HashMap<K, V> {
    type V = Map<K::V, V>;
    uninterp spec fn view(&self) -> Map<K::V, V>;
}
/// what a Default implementation yields
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K: View, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
pub mod hash_map {
    pub use super::Entry;
    pub use super::HashMap;
}
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K::V, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Map::<K::V, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == if self@.contains_key(k@) { Some(&self@[k@]) } else { None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains_key(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)),
            None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), r == if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@), r == if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<K::V, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(), r == 0 <==> self@ == Map::<K::V, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Map::<K::V, V>::empty())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures *r.map == *old(self), final(r.map)@ == final(self)@, r.key == k
    { Entry { map: self, key: k } }
}
impl<'a, K: View, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires !old(self.map)@.contains_key(self.key@) ==> f.requires(())
        ensures
            if old(self.map)@.contains_key(self.key@) { *r == old(self.map)@[self.key@] } else { f.ensures((), *r) },
            final(self.map)@ == old(self.map)@.insert(self.key@, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures
            *r == if old(self.map)@.contains_key(self.key@) { old(self.map)@[self.key@] } else { v },
            final(self.map)@ == old(self.map)@.insert(self.key@, *final(r)),
    { unimplemented!() }
}
