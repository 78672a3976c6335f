package rankdb;

fold cntU(v uint64; x uint64) count { v == x }
pred descU(l []uint64) { forall i int, j int :: 0 <= i < j < len(l) ==> l[i] >= l[j] }

# Index segments: score ranges only.
pred scoreTiled(l []Segment) {
  len(l) > 0 && l[0].Max == MaxUint64 && l[len(l)-1].Min == 0 &&
  (forall i int, j int {l[i], l[j]} :: 0 <= i < j && j <= i + 1 && j < len(l) ==> l[i].Min > 0 && l[j].Max == l[i].Min - 1) &&
  (forall i int :: 0 <= i < len(l) ==> l[i].Min <= l[i].Max)
}

# The scores are sorted in place and cut into consecutive, non-empty runs, one per segment whose range holds them.
contract rankdb.Segments.splitScores(s, ctx, scores) (r) {
  requires s != nil && scoreTiled(s.Segments);
  modifies elems(scores);
  ensures sorted: descU(scores);
  ensures same: forall x uint64 :: cntU(scores, 0, len(scores), x) == old(cntU(scores, 0, len(scores), x));
  ensures fresh: fresh(r) || len(r) == 0;
  ensures segs: forall k int {r[k]} :: 0 <= k < len(r) ==> 0 <= r[k].segIdx < len(s.Segments) && len(r[k].scores) > 0 && arr(r[k].scores) == arr(scores);
  ensures order: forall k int, m int {r[k], r[m]} :: 0 <= k < m < len(r) ==> r[k].segIdx < r[m].segIdx;
  ensures inside: forall k int, x int {r[k].scores[x]} :: 0 <= k < len(r) && 0 <= x < len(r[k].scores) ==> s.Segments[r[k].segIdx].Min <= r[k].scores[x] && r[k].scores[x] <= s.Segments[r[k].segIdx].Max;
  ensures first: len(scores) > 0 ==> len(r) > 0 && off(r[0].scores) == off(scores);
  ensures runs: forall k int, m int {r[k], r[m]} :: 0 <= k < m && m <= k + 1 && m < len(r) ==> off(r[m].scores) == off(r[k].scores) + len(r[k].scores);
  ensures last: len(scores) > 0 ==> off(r[len(r)-1].scores) + len(r[len(r)-1].scores) == off(scores) + len(scores);
  loop 0 {
    invariant rest: arr(scores) == arr(old(scores)) && cap(scores) >= 0 && (len(scores) > 0 ==> off(scores) + len(scores) == off(old(scores)) + len(old(scores)));
    invariant fresh: fresh(res);
    invariant segs: forall k int {res[k]} :: 0 <= k < len(res) ==> 0 <= res[k].segIdx < $i && len(res[k].scores) > 0 && arr(res[k].scores) == arr(old(scores));
    invariant order: forall k int, m int {res[k], res[m]} :: 0 <= k < m < len(res) ==> res[k].segIdx < res[m].segIdx;
    invariant inside: forall k int, x int {res[k].scores[x]} :: 0 <= k < len(res) && 0 <= x < len(res[k].scores) ==> s.Segments[res[k].segIdx].Min <= res[k].scores[x] && res[k].scores[x] <= s.Segments[res[k].segIdx].Max;
    invariant first: len(res) > 0 ==> off(res[0].scores) == off(old(scores));
    invariant none: len(res) == 0 ==> len(scores) == len(old(scores)) && off(scores) == off(old(scores));
    invariant runs: forall k int, m int {res[k], res[m]} :: 0 <= k < m && m <= k + 1 && m < len(res) ==> off(res[m].scores) == off(res[k].scores) + len(res[k].scores);
    invariant last: len(res) > 0 ==> off(res[len(res)-1].scores) + len(res[len(res)-1].scores) == ite(len(scores) > 0, off(scores), off(old(scores)) + len(old(scores)));
    invariant below: $i > 0 ==> (forall x int :: 0 <= x < len(scores) ==> scores[x] < s.Segments[$i-1].Min);
    invariant desc: descU(scores);
    invariant done: $i == len(s.Segments) ==> len(scores) == 0;
  }
  loop 1 {
    invariant same: !ended && scores == atloop(scores) && res == atloop(res);
    invariant above: forall x int :: 0 <= x < $i ==> seg.Min <= scores[x];
  }
}

# The segment IDs and their positions.
contract rankdb.Segments.reindex(s) () {
  requires s != nil;
  requires ids: forall i int, j int :: 0 <= i < j < len(s.Segments) ==> s.Segments[i].ID != s.Segments[j].ID;
  requires kept: s.idx != nil && len(s.idx) == len(s.Segments) ==> (forall i int {s.Segments[i]} :: 0 <= i < len(s.Segments) ==> has(s.idx, s.Segments[i].ID) && s.idx[s.Segments[i].ID] == i);
  modifies s.idx;
  ensures all: forall i int {s.Segments[i]} :: 0 <= i < len(s.Segments) ==> has(s.idx, s.Segments[i].ID) && s.idx[s.Segments[i].ID] == i;
  loop 0 {
    invariant fresh: fresh(s.idx) && s.idx == atloop(s.idx);
    invariant all: forall i int {s.Segments[i]} :: 0 <= i < $i ==> has(s.idx, s.Segments[i].ID) && s.idx[s.Segments[i].ID] == i;
  }
}

fold cntIn(e Element; seg uint32, x ElementID) count { e.TieBreaker == seg && e.ID == x }

# Every entry goes to the segment it names, none is lost or added.
contract rankdb.Segments.splitElementsID(s, ids) (r) {
  requires s != nil;
  requires ids: forall i int, j int :: 0 <= i < j < len(s.Segments) ==> s.Segments[i].ID != s.Segments[j].ID;
  requires kept: s.idx != nil && len(s.idx) == len(s.Segments) ==> (forall i int {s.Segments[i]} :: 0 <= i < len(s.Segments) ==> has(s.idx, s.Segments[i].ID) && s.idx[s.Segments[i].ID] == i);
  requires known: forall k int {ids.Elements[k]} :: 0 <= k < len(ids.Elements) ==> (exists i int :: 0 <= i < len(s.Segments) && s.Segments[i].ID == ids.Elements[k].TieBreaker);
  modifies s.idx;
  ensures fresh: fresh(r);
  ensures keys: forall i int {has(r, i)} :: has(r, i) ==> 0 <= i < len(s.Segments) && len(r[i]) > 0;
  ensures exact: forall i int, v uint32, x ElementID {has(r, i), cntIn(ids.Elements, 0, len(ids.Elements), v, x)} :: 0 <= i < len(s.Segments) && s.Segments[i].ID == v ==> ite(has(r, i), cntE(r[i], 0, len(r[i]), x), 0) == cntIn(ids.Elements, 0, len(ids.Elements), v, x);
  loop 0 {
    invariant keys: forall i int {has(res, i)} :: has(res, i) ==> 0 <= i < len(s.Segments) && len(res[i]) > 0 && fresh(res[i]);
    invariant apart: forall i int, j int {res[i], res[j]} :: has(res, i) && has(res, j) && i != j ==> arr(res[i]) != arr(res[j]);
    invariant exact: forall i int, v uint32, x ElementID {has(res, i), cntIn(ids.Elements, 0, $i, v, x)} :: 0 <= i < len(s.Segments) && s.Segments[i].ID == v ==> ite(has(res, i), cntE(res[i], 0, len(res[i]), x), 0) == cntIn(ids.Elements, 0, $i, v, x);
  }
}
