package rankdb;

# r is the element at its rank, with its true neighbours.
pred trueRank(s *Segments, r RankedElement, radius int) {
  0 <= r.FromTop && r.FromTop < segN(s.Segments, 0, len(s.Segments)) && r.Element == flat(s, r.FromTop) &&
  r.FromTop + r.FromBottom + 1 == segN(s.Segments, 0, len(s.Segments)) &&
  len(r.Below) <= radius && r.FromTop + len(r.Below) < segN(s.Segments, 0, len(s.Segments)) && (forall k int {r.Below[k]} :: 0 <= k < len(r.Below) ==> r.Below[k] == flat(s, r.FromTop + 1 + k)) &&
  len(r.Above) <= radius && len(r.Above) <= r.FromTop && (forall k int {r.Above[k]} :: 0 <= k < len(r.Above) ==> r.Above[k] == flat(s, r.FromTop - 1 - k)) &&
  (loadable(s) ==> (len(r.Below) == radius || r.FromTop + len(r.Below) + 1 == segN(s.Segments, 0, len(s.Segments))) && (len(r.Above) == radius || len(r.Above) == r.FromTop))
}

fold cntRID(e RankedElement; x ElementID) count { e.Element.ID == x }

# Whatever is found has its true rank and neighbours.
contract rankdb.Segments.FindElements(s, ctx, bs, ids, radius) (r, err) {
  requires s != nil;
  requires counted: counted(s.Segments);
  requires unique: forall i int, j int :: 0 <= i < j < len(s.Segments) ==> s.Segments[i].ID != s.Segments[j].ID;
  requires kept: s.idx != nil && len(s.idx) == len(s.Segments) ==> (forall i int {s.Segments[i]} :: 0 <= i < len(s.Segments) ==> has(s.idx, s.Segments[i].ID) && s.idx[s.Segments[i].ID] == i);
  requires known: forall k int {ids.Elements[k]} :: 0 <= k < len(ids.Elements) ==> (exists i int :: 0 <= i < len(s.Segments) && s.Segments[i].ID == ids.Elements[k].TieBreaker);
  requires radius: 0 <= radius && radius <= 2305843009213693952;
  modifies s.idx;
  ensures failed: err != nil ==> len(r) == 0;
  ensures none: len(ids.Elements) == 0 ==> err == nil && len(r) == 0;
  ensures true: forall i int {r[i]} :: 0 <= i < len(r) ==> trueRank(s, r[i], radius);
  receives v: forall i int {v[i]} :: 0 <= i < len(v) ==> trueRank(s, v[i], radius);
  loop 0 { invariant same: s.Segments == old(s.Segments); }
  loop 2 { invariant true: forall j int {res[j]} :: 0 <= j < len(res) ==> trueRank(s, res[j], radius); }
}

# The goroutine of one segment finds every requested element the segment holds.
contract rankdb.Segments.FindElements$1(s, offsets, total, radius, segIdx, ids) () {
  requires s != nil && 0 <= segIdx && segIdx < len(s.Segments) && len(offsets) == len(s.Segments);
  requires counted: counted(s.Segments);
  requires at: offsets[segIdx] == segN(s.Segments, 0, segIdx) && total == segN(s.Segments, 0, len(s.Segments));
  requires radius: 0 <= radius && radius <= 2305843009213693952;
  sends v: forall i int {v[i]} :: 0 <= i < len(v) ==> trueRank(s, v[i], radius);
  sends v: forall j int, m int {ids[j], ls.elements[m]} :: 0 <= j < len(ids) && 0 <= m < len(ls.elements) && ls.elements[m].ID == ids[j] ==> cntRID(v, 0, len(v), ids[j]) > 0;
  loop 0 {
    invariant true: forall j int {res[j]} :: 0 <= j < len(res) ==> trueRank(s, res[j], radius);
    invariant asked: forall j int, m int {ids[j], ls.elements[m]} :: 0 <= j < $i && 0 <= m < len(ls.elements) && ls.elements[m].ID == ids[j] ==> cntRID(res, 0, len(res), ids[j]) > 0;
  }
}
