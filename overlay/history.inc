// ---- histories of the caches
pub struct Table<T> { pub map: Map<i32, T>, pub next: int }
// a creation takes a number (one atomic operation) and puts the cache in the table (under the lock): those of other threads may come in between
pub enum Op<T> { Take(i32), Put(i32, T), Destroy(i32), Other }
pub open spec fn step<T>(s: Table<T>, o: Op<T>, t: Table<T>) -> bool {
    match o {
        Op::Take(h) => s.next <= h < t.next && t.map == s.map,
        Op::Put(h, c) => t.map == s.map.insert(h, c) && t.next == s.next,
        Op::Destroy(h) => t.map == s.map.remove(h) && t.next == s.next,
        Op::Other => t.map == s.map && s.next <= t.next,
    }
}
// states and operations; every put uses the number of a take made for it: puts.f
pub open spec fn history<T>(s: Seq<Table<T>>, o: Seq<Op<T>>, f: Map<int, int>) -> bool {
    &&& s.len() == o.len() + 1 && forall|i: int| 0 <= i < o.len() ==> step(s[i], #[trigger] o[i], s[i + 1])
    &&& forall|j: int| 0 <= j < o.len() && (#[trigger] o[j]) is Put ==> f.contains_key(j) && 0 <= f[j] < j && o[f[j]] == Op::<T>::Take(o[j]->Put_0)
    &&& forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < j < o.len() && o[i] is Put && o[j] is Put ==> f[i] != f[j]
}
pub proof fn next_grows<T>(s: Seq<Table<T>>, o: Seq<Op<T>>, f: Map<int, int>, i: int, j: int) requires history(s, o, f), 0 <= i <= j < s.len() ensures s[i].next <= s[j].next decreases j - i
{ if i < j { next_grows(s, o, f, i, j - 1); assert(step(s[j - 1], o[j - 1], s[j])); } }
// no two caches ever get the same handle
pub proof fn handles_distinct<T>(s: Seq<Table<T>>, o: Seq<Op<T>>, f: Map<int, int>, i: int, j: int) requires history(s, o, f), 0 <= i < j < o.len(), o[i] is Put, o[j] is Put ensures o[i]->Put_0 != o[j]->Put_0
{
    assert(f[i] != f[j]); let (a, b) = (f[i], f[j]);
    assert(step(s[a], o[a], s[a + 1])); assert(step(s[b], o[b], s[b + 1]));
    if a < b { next_grows(s, o, f, a + 1, b); } else { next_grows(s, o, f, b + 1, a); }
}
// what a handle stands for does not change until the handle is destroyed, whatever is created and destroyed meanwhile
pub proof fn handle_stable<T>(s: Seq<Table<T>>, o: Seq<Op<T>>, f: Map<int, int>, i: int, j: int, h: i32, c: T)
    requires history(s, o, f), 0 <= i < j < s.len(), o[i] == Op::<T>::Put(h, c), forall|k: int| i < k < j ==> #[trigger] o[k] != Op::<T>::Destroy(h)
    ensures s[j].map.contains_key(h), s[j].map[h] == c
    decreases j - i
{
    if j == i + 1 { assert(step(s[i], o[i], s[i + 1])); }
    else { handle_stable(s, o, f, i, j - 1, h, c); assert(step(s[j - 1], o[j - 1], s[j])); if o[j - 1] is Put { handles_distinct(s, o, f, i, j - 1); } }
}
// a destroyed handle stays without cache
pub proof fn handle_gone<T>(s: Seq<Table<T>>, o: Seq<Op<T>>, f: Map<int, int>, i: int, d: int, j: int, h: i32)
    requires history(s, o, f), 0 <= i < d < j < s.len(), o[i] is Put, o[i]->Put_0 == h, o[d] == Op::<T>::Destroy(h)
    ensures !s[j].map.contains_key(h)
    decreases j - d
{
    if j == d + 1 { assert(step(s[d], o[d], s[d + 1])); }
    else { handle_gone(s, o, f, i, d, j - 1, h); assert(step(s[j - 1], o[j - 1], s[j])); if o[j - 1] is Put { handles_distinct(s, o, f, i, j - 1); } }
}
// a handle never handed out stands for nothing
pub proof fn handle_unknown<T>(s: Seq<Table<T>>, o: Seq<Op<T>>, f: Map<int, int>, j: int, h: i32)
    requires history(s, o, f), 0 <= j < s.len(), s[0].map == Map::<i32, T>::empty(), forall|k: int| 0 <= k < j && (#[trigger] o[k]) is Put ==> o[k]->Put_0 != h
    ensures !s[j].map.contains_key(h)
    decreases j
{ if j > 0 { handle_unknown(s, o, f, j - 1, h); assert(step(s[j - 1], o[j - 1], s[j])); } }
