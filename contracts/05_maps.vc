@@use std::collections::{BTreeMap, HashMap}=crate::maps::{BTreeMap, HashMap}
@@use std::collections::BTreeMap=crate::maps::BTreeMap
@@use std::collections::HashMap=crate::maps::HashMap
@@raw
/// std's maps: trusted stand-ins with their methods
pub mod maps {
use vstd::prelude::*;
use vstd::string::*;
use crate::vspec::*;
/// lexicographic order of byte strings
pub open spec fn bytes_lt(a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|n: int| #[trigger] split_at(a, b, n)
}
pub open spec fn split_at(a: Seq<u8>, b: Seq<u8>, n: int) -> bool {
    &&& 0 <= n <= a.len()
    &&& n < b.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i]
    &&& n < a.len() ==> a[n] < b[n]
}
/// Rust's order of strings
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool { bytes_lt(sbytes(a), sbytes(b)) }
pub proof fn lemma_bytes_lt(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures
        !bytes_lt(a, a),
        bytes_lt(a, b) ==> a != b && !bytes_lt(b, a),
        bytes_lt(a, b) && bytes_lt(b, c) ==> bytes_lt(a, c),
{
    if bytes_lt(a, b) && bytes_lt(b, c) {
        let n = choose|n: int| #[trigger] split_at(a, b, n);
        let m = choose|m: int| #[trigger] split_at(b, c, m);
        let k = if n < m { n } else { m };
        assert(split_at(a, c, k)) by {
            assert forall|i: int| 0 <= i < k implies #[trigger] a[i] == c[i] by { assert(a[i] == b[i]); assert(b[i] == c[i]); }
            if m < n { assert(a[m] == b[m]); }
        }
    }
    if bytes_lt(a, b) && bytes_lt(b, a) {
        let n = choose|n: int| #[trigger] split_at(a, b, n);
        let m = choose|m: int| #[trigger] split_at(b, a, m);
        if m < n { assert(a[m] == b[m]); }
        if n < m { assert(b[n] == a[n]); }
    }
    if bytes_lt(a, a) { let n = choose|n: int| #[trigger] split_at(a, a, n); }
}
/// a key of a map: what it stands for, and its order
pub trait MapKey {
    type KV;
    spec fn kv(&self) -> Self::KV;
    spec fn before(a: Self::KV, b: Self::KV) -> bool;
}
impl MapKey for str {
    type KV = Seq<char>;
    open spec fn kv(&self) -> Seq<char> { self@ }
    open spec fn before(a: Seq<char>, b: Seq<char>) -> bool { str_lt(a, b) }
}
impl MapKey for String {
    type KV = Seq<char>;
    open spec fn kv(&self) -> Seq<char> { self@ }
    open spec fn before(a: Seq<char>, b: Seq<char>) -> bool { str_lt(a, b) }
}
impl<'a> MapKey for &'a str {
    type KV = Seq<char>;
    open spec fn kv(&self) -> Seq<char> { (*self)@ }
    open spec fn before(a: Seq<char>, b: Seq<char>) -> bool { str_lt(a, b) }
}
/// `ks` lists the keys, each once
pub open spec fn lists<A>(ks: Seq<A>, d: Set<A>) -> bool {
    &&& ks.no_duplicates()
    &&& forall|k: A| #[trigger] ks.contains(k) <==> d.contains(k)
}
pub open spec fn sorted<K: MapKey>(ks: Seq<K::KV>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ks.len() ==> K::before(#[trigger] ks[i], #[trigger] ks[j])
}
/// the keys in order
pub uninterp spec fn order_of<K: MapKey>(d: Set<K::KV>) -> Seq<K::KV>;
#[verifier::external_body]
pub broadcast proof fn axiom_order<K: MapKey>(d: Set<K::KV>)
    ensures lists(#[trigger] order_of::<K>(d), d), sorted::<K>(order_of::<K>(d))
{}
pub open spec fn key_views<K: MapKey>(v: Seq<K>) -> Seq<K::KV> { v.map_values(|k: K| k.kv()) }
pub open spec fn kviews<K: MapKey, V>(s: Seq<(K, V)>) -> Seq<K::KV> { s.map_values(|x: (K, V)| x.0.kv()) }
/// what inserting the pairs in order makes
pub open spec fn map_of<K: MapKey, V>(s: Seq<(K, V)>) -> Map<K::KV, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0.kv(), s.last().1) }
}
pub proof fn lemma_map_of<K: MapKey, V>(s: Seq<(K, V)>)
    ensures
        forall|i: int| 0 <= i < s.len() ==> map_of(s).dom().contains((#[trigger] s[i]).0.kv()),
        forall|k: K::KV| #[trigger] map_of(s).dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k && s[i].1 == map_of(s)[k],
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_map_of(t);
        assert forall|i: int| 0 <= i < s.len() implies map_of(s).dom().contains((#[trigger] s[i]).0.kv()) by {
            if i < t.len() { assert(t[i] == s[i]); }
        }
        assert forall|k: K::KV| #[trigger] map_of(s).dom().contains(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k && s[i].1 == map_of(s)[k] by {
            if k == s.last().0.kv() {
                assert(s[s.len() - 1].0.kv() == k);
            } else {
                assert(map_of(t).dom().contains(k));
                let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.kv() == k && t[i].1 == map_of(t)[k];
                assert(s[i] == t[i]);
            }
        }
    }
}
/// several items
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Items<T> { t: std::marker::PhantomData<T> }
/// std's hash_map::IntoIter
pub type IntoIter<K, V> = Items<(K, V)>;
impl<T> View for Items<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Items<T> {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Items<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(self) -> (r: Items<T>) ensures r@ == self@ { unimplemented!() }
}
impl<'a, T: Clone> Items<&'a T> {
    /// (only used with structural Clone)
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Items<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i]
    { unimplemented!() }
}
pub trait IntoVec: Sized {
    type Item;
    spec fn vec_spec(self, v: Seq<Self::Item>) -> bool;
    fn into_vec(self) -> (r: Vec<Self::Item>) ensures self.vec_spec(r@);
}
impl<T> IntoVec for Items<T> {
    type Item = T;
    open spec fn vec_spec(self, v: Seq<T>) -> bool { v == self@ }
    #[verifier::external_body]
    fn into_vec(self) -> Vec<T> { unimplemented!() }
}
pub fn verif_vec<I: IntoVec>(i: I) -> (r: Vec<I::Item>) ensures i.vec_spec(r@) { i.into_vec() }
pub trait FromVec<T>: Sized {
    spec fn made_of(self, s: Seq<T>) -> bool;
    fn from_vec(v: Vec<T>) -> (r: Self) ensures r.made_of(v@);
}
pub fn verif_collect<T, C: FromVec<T>>(v: Vec<T>) -> (r: C) ensures r.made_of(v@) { C::from_vec(v) }
impl<T> FromVec<T> for Vec<T> {
    open spec fn made_of(self, s: Seq<T>) -> bool { self@ == s }
    fn from_vec(v: Vec<T>) -> Vec<T> { v }
}
impl<T> Items<T> {
    #[verifier::external_body]
    pub fn collect<C: FromVec<T>>(self) -> (r: C) ensures r.made_of(self@) { unimplemented!() }
}
/// what a caller's iterator yields
pub uninterp spec fn items_of<I: IntoIterator>(i: I) -> Seq<I::Item>;
#[verifier::external_body]
pub fn verif_items<I: IntoIterator>(i: I) -> (r: Vec<I::Item>) ensures r@ == items_of(i) { i.into_iter().collect() }
/// the keys of a map in the order of its iterators
pub trait Keyed<K: MapKey, V> {
    spec fn map(&self) -> Map<K::KV, V>;
    spec fn listed(&self, ks: Seq<K::KV>) -> bool;
    fn keys_vec(&self) -> (r: Vec<K>)
        ensures
            self.listed(key_views(r@)), lists(key_views(r@), self.map().dom());
    fn at(&self, k: &K) -> (r: &V)
        requires
            self.map().dom().contains(k.kv()),
        ensures
            *r == self.map()[k.kv()];
    fn at_mut(&mut self, k: &K) -> (r: &mut V)
        requires
            old(self).map().dom().contains(k.kv()),
        ensures
            *r == old(self).map()[k.kv()],
            final(self).map() == old(self).map().insert(k.kv(), *final(r));
}
pub fn verif_sorted_keys<K: MapKey, V, M: Keyed<K, V>>(m: &M) -> (r: Vec<K>)
    ensures
        m.listed(key_views(r@)), lists(key_views(r@), m.map().dom())
{ m.keys_vec() }
pub fn verif_get<'a, K: MapKey, V, M: Keyed<K, V>>(m: &'a M, k: &K) -> (r: &'a V)
    requires
        m.map().dom().contains(k.kv()),
    ensures
        *r == m.map()[k.kv()],
{ m.at(k) }
pub fn verif_get_mut<'a, K: MapKey, V, M: Keyed<K, V>>(m: &'a mut M, k: &K) -> (r: &'a mut V)
    requires
        old(m).map().dom().contains(k.kv()),
    ensures
        *r == old(m).map()[k.kv()],
        final(m).map() == old(m).map().insert(k.kv(), *final(r))
{ m.at_mut(k) }
@@each M=BTreeMap|HashMap ORD=ks==order_of::<K>(self@.dom())|true
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct $M<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<K: MapKey, V> View for $M<K, V> { type V = Map<K::KV, V>; uninterp spec fn view(&self) -> Map<K::KV, V>; }
impl<K: MapKey, V> Keyed<K, V> for $M<K, V> {
    open spec fn map(&self) -> Map<K::KV, V> { self@ }
    open spec fn listed(&self, ks: Seq<K::KV>) -> bool { $ORD }
    #[verifier::external_body]
    fn keys_vec(&self) -> Vec<K> { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, k: &K) -> &V { unimplemented!() }
    #[verifier::external_body]
    fn at_mut(&mut self, k: &K) -> &mut V { unimplemented!() }
}
impl<K: MapKey, V> FromVec<(K, V)> for $M<K, V> {
    open spec fn made_of(self, s: Seq<(K, V)>) -> bool { self@ == map_of(s) }
    #[verifier::external_body]
    fn from_vec(v: Vec<(K, V)>) -> Self { unimplemented!() }
}
impl<K: MapKey, V> IntoVec for $M<K, V> {
    type Item = (K, V);
    open spec fn vec_spec(self, s: Seq<(K, V)>) -> bool { own_items(self@, s) && self.listed(kviews(s)) }
    #[verifier::external_body]
    fn into_vec(self) -> Vec<(K, V)> { unimplemented!() }
}
impl<K: MapKey, V> $M<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k.kv(), v),
            r is Some == old(self)@.dom().contains(k.kv()),
            r is Some ==> r->Some_0 == old(self)@[k.kv()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: MapKey<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(k.kv()),
            r is Some == old(self)@.dom().contains(k.kv()),
            r is Some ==> r->Some_0 == old(self)@[k.kv()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), r == (self@ == Map::<K::KV, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: MapKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k.kv())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: MapKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures
            r is Some == self@.dom().contains(k.kv()),
            r is Some ==> *r->Some_0 == self@[k.kv()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: MapKey<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures
            r is Some == old(self)@.dom().contains(k.kv()),
            r is Some ==> *r->Some_0 == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(r->Some_0)),
            r is None ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Items<(&K, &V)>)
        ensures ref_items(self@, r@), self.listed(kviews2(r@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Items<(K, V)>)
        ensures own_items(self@, r@), self.listed(kviews(r@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Items<&K>)
        ensures lists(r@.map_values(|k: &K| k.kv()), self@.dom()), self.listed(r@.map_values(|k: &K| k.kv()))
    { unimplemented!() }
}
impl<K: MapKey, V> Default for $M<K, V> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
}
impl<K: MapKey + Clone, V: Clone> Clone for $M<K, V> {
    /// (only used with values whose Clone is structural)
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
@@end
pub open spec fn kviews2<K: MapKey, V>(s: Seq<(&K, &V)>) -> Seq<K::KV> { s.map_values(|x: (&K, &V)| x.0.kv()) }
pub open spec fn own_items<K: MapKey, V>(m: Map<K::KV, V>, s: Seq<(K, V)>) -> bool {
    &&& lists(kviews(s), m.dom())
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.kv()) && m[s[i].0.kv()] == s[i].1
}
pub open spec fn ref_items<K: MapKey, V>(m: Map<K::KV, V>, s: Seq<(&K, &V)>) -> bool {
    &&& lists(kviews2(s), m.dom())
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.kv()) && m[s[i].0.kv()] == *s[i].1
}
}
@@use std::collections::hash_map::IntoIter=crate::maps::IntoIter
@@fn writer::MeasurementGroup<'a>::get_timeseries
@@ret r
        ensures own_items(self.measurement_schemas@, r@),
@@fn writer::Schema<'a>::get_devices
@@ret r
        ensures own_items(self.measurement_groups@, r@),
