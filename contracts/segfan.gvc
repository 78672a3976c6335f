package rankdb;

# What one operation does to one segment, each in its own goroutine that holds the segment's lock.

# The elements are added to those stored, and reported with the segment's ID.
contract rankdb.Segments.Insert$1(s, withIdx, i, e) () {
  requires s != nil && 0 <= i < len(s.Segments);
  requires desc: sortedSeg(s, i);
  requires sorted: sorted(e);
  requires inside: within(e, s.Segments[i]);
  modifies elems(s.Segments), saves(0);
  ensures stored: loadable(s) ==> saves(0) == old(saves(0)) + 1;
  calls rankdb.Segments.replaceSegment: ls.index == i && ls.seg == addr(s.Segments, i) && sorted(ls.elements) && len(ls.elements) == s.Segments[i].N + len(e) && (forall x Element {cntStored(s, i, x)} :: cnt(ls.elements, 0, len(ls.elements), x) == cntStored(s, i, x) + cnt(e, 0, len(e), x));
  sends v: sorted(v.Elements) && len(v.Elements) == len(e) && (forall x uint64, u uint32 :: cntIdx(v.Elements, 0, len(v.Elements), s.Segments[i].ID, x, u) == cntAsIdx(e, 0, len(e), s.Segments[i].ID, x, u));
  ensures others: forall j int :: 0 <= j < len(s.Segments) && j != i ==> s.Segments[j] == old(s.Segments[j]);
  ensures same: forall j int :: 0 <= j < len(s.Segments) ==> s.Segments[j].ID == old(s.Segments[j].ID) && s.Segments[j].Min == old(s.Segments[j].Min) && s.Segments[j].MinTie == old(s.Segments[j].MinTie) && s.Segments[j].Max == old(s.Segments[j].Max) && s.Segments[j].MaxTie == old(s.Segments[j].MaxTie);
}

# The elements with the given IDs are removed from those stored, the others stay in order; what was removed is reported with the segment's ID.
contract rankdb.Segments.DeleteElementsIdx$1(s, withIdx, segIdx, e) () {
  requires s != nil && 0 <= segIdx < len(s.Segments);
  requires desc: sortedSeg(s, segIdx);
  requires room: s.Segments[segIdx].N < 25000;
  modifies elems(s.Segments), saves(0);
  ensures stored: loadable(s) ==> saves(0) == old(saves(0)) + 1;
  calls rankdb.Segments.replaceSegment: ls.index == segIdx && ls.seg == addr(s.Segments, segIdx) && sorted(ls.elements) && (forall x Element {cntStored(s, segIdx, x)} :: cnt(ls.elements, 0, len(ls.elements), x) == ite(cntE(e, 0, len(e), x.ID) > 0, 0, cntStored(s, segIdx, x)));
  sends v: sorted(v.Elements) && (forall x uint64, u uint32 {cntStoredIdx(s, segIdx, x, u)} :: cntIdx(v.Elements, 0, len(v.Elements), s.Segments[segIdx].ID, x, u) == ite(cntE(e, 0, len(e), x) > 0, cntStoredIdx(s, segIdx, x, u), 0));
  ensures others: forall j int :: 0 <= j < len(s.Segments) && j != segIdx ==> s.Segments[j] == old(s.Segments[j]);
  ensures same: forall j int :: 0 <= j < len(s.Segments) ==> s.Segments[j].ID == old(s.Segments[j].ID) && s.Segments[j].Min == old(s.Segments[j].Min) && s.Segments[j].MinTie == old(s.Segments[j].MinTie) && s.Segments[j].Max == old(s.Segments[j].Max) && s.Segments[j].MaxTie == old(s.Segments[j].MaxTie);
  loop 0 {
    invariant place: arr(ls.elements) == arr(atloop(ls.elements)) && ls.elements == atloop(ls.elements) && len(ls.elements) == s.Segments[segIdx].N && ls.index == segIdx && 0 <= wrtTo && wrtTo <= $i && fresh(ls.elements) && (arr(ls.elements) == 0 ==> len(ls.elements) == 0) && nDeleted == $i - wrtTo;
    invariant sorted: forall a int, b int :: 0 <= a < b < wrtTo ==> !above(ls.elements[b], ls.elements[a]);
    invariant below: forall a int, b int :: 0 <= a < wrtTo && $i <= b < len(ls.elements) ==> !above(ls.elements[b], ls.elements[a]);
    invariant apart: withIdx ==> arr(deleted.Elements) != arr(ls.elements) && arr(deleted.Elements) != 0 && fresh(deleted.Elements) && len(deleted.Elements) == nDeleted;
    invariant rest: forall a int, b int :: $i <= a < b < len(ls.elements) ==> !above(ls.elements[b], ls.elements[a]);
    invariant kept: forall x Element {cntStored(s, segIdx, x)} :: cnt(ls.elements, 0, wrtTo, x) + ite(cntE(e, 0, len(e), x.ID) > 0, 0, cnt(ls.elements, $i, len(ls.elements), x)) == ite(cntE(e, 0, len(e), x.ID) > 0, 0, cntStored(s, segIdx, x));
    invariant gone: withIdx ==> (forall x uint64, u uint32 {cntStoredIdx(s, segIdx, x, u)} :: cntIdx(deleted.Elements, 0, len(deleted.Elements), s.Segments[segIdx].ID, x, u) + ite(cntE(e, 0, len(e), x) > 0, cntAsIdx(ls.elements, $i, len(ls.elements), s.Segments[segIdx].ID, x, u), 0) == ite(cntE(e, 0, len(e), x) > 0, cntStoredIdx(s, segIdx, x, u), 0));
  }
}

# As above, for elements instead of IDs: the elements with their IDs are removed from those stored, the others stay in order; what was removed is reported with the segment's ID.
contract rankdb.Segments.DeleteElements$1(s, withIdx, i, e) () {
  requires s != nil && 0 <= i < len(s.Segments);
  requires desc: sortedSeg(s, i);
  requires room: s.Segments[i].N < 25000;
  modifies elems(s.Segments), saves(0);
  ensures stored: loadable(s) ==> saves(0) == old(saves(0)) + 1;
  calls rankdb.Segments.replaceSegment: ls.index == i && ls.seg == addr(s.Segments, i) && sorted(ls.elements) && (forall x Element {cntStored(s, i, x)} :: cnt(ls.elements, 0, len(ls.elements), x) == ite(cntID(e, 0, len(e), x.ID) > 0, 0, cntStored(s, i, x)));
  sends v: sorted(v.Elements) && (forall x uint64, u uint32 {cntStoredIdx(s, i, x, u)} :: cntIdx(v.Elements, 0, len(v.Elements), s.Segments[i].ID, x, u) == ite(cntID(e, 0, len(e), x) > 0, cntStoredIdx(s, i, x, u), 0));
  ensures others: forall j int :: 0 <= j < len(s.Segments) && j != i ==> s.Segments[j] == old(s.Segments[j]);
  ensures same: forall j int :: 0 <= j < len(s.Segments) ==> s.Segments[j].ID == old(s.Segments[j].ID) && s.Segments[j].Min == old(s.Segments[j].Min) && s.Segments[j].MinTie == old(s.Segments[j].MinTie) && s.Segments[j].Max == old(s.Segments[j].Max) && s.Segments[j].MaxTie == old(s.Segments[j].MaxTie);
  loop 0 { invariant ids: forall x ElementID {has(toDelete, x)} :: has(toDelete, x) <==> cntID(e, 0, $i, x) > 0; }
  loop 1 {
    invariant seg: seg == addr(s.Segments, i);
    invariant place: arr(ls.elements) == arr(atloop(ls.elements)) && ls.elements == atloop(ls.elements) && len(ls.elements) == s.Segments[i].N && ls.index == i && 0 <= wrtto && wrtto <= $i && fresh(ls.elements) && (arr(ls.elements) == 0 ==> len(ls.elements) == 0) && ndeleted == $i - wrtto;
    invariant sorted: forall a int, b int :: 0 <= a < b < wrtto ==> !above(ls.elements[b], ls.elements[a]);
    invariant below: forall a int, b int :: 0 <= a < wrtto && $i <= b < len(ls.elements) ==> !above(ls.elements[b], ls.elements[a]);
    invariant apart: withIdx ==> arr(deleted.Elements) != arr(ls.elements) && arr(deleted.Elements) != 0 && fresh(deleted.Elements) && len(deleted.Elements) == ndeleted;
    invariant rest: forall a int, b int :: $i <= a < b < len(ls.elements) ==> !above(ls.elements[b], ls.elements[a]);
    invariant kept: forall x Element {cntStored(s, i, x)} :: cnt(ls.elements, 0, wrtto, x) + ite(cntID(e, 0, len(e), x.ID) > 0, 0, cnt(ls.elements, $i, len(ls.elements), x)) == ite(cntID(e, 0, len(e), x.ID) > 0, 0, cntStored(s, i, x));
    invariant gone: withIdx ==> (forall x uint64, u uint32 {cntStoredIdx(s, i, x, u)} :: cntIdx(deleted.Elements, 0, len(deleted.Elements), s.Segments[i].ID, x, u) + ite(cntID(e, 0, len(e), x) > 0, cntAsIdx(ls.elements, $i, len(ls.elements), s.Segments[i].ID, x, u), 0) == ite(cntID(e, 0, len(e), x) > 0, cntStoredIdx(s, i, x, u), 0));
  }
}

# The entries of the index named by the updates point to their new segments; everything else stays.
contract rankdb.Segments.updateIndexElements$1(s, segIdx, in) () {
  requires s != nil && 0 <= segIdx < len(s.Segments);
  requires counted: counted(s.Segments);
  requires strict: forall i int, j int {flat(s, i), flat(s, j)} :: 0 <= i < j < segN(s.Segments, 0, len(s.Segments)) ==> flat(s, i).Score > flat(s, j).Score;
  requires once: forall i int, j int :: 0 <= i < j < len(in) ==> in[i].ID != in[j].ID;
  modifies elems(s.Segments), saves(0);
  ensures stored: loadable(s) ==> saves(0) == old(saves(0)) + 1;
  calls rankdb.Segments.replaceSegment: ls.index == segIdx && ls.seg == addr(s.Segments, segIdx) && sorted(ls.elements) && len(ls.elements) == s.Segments[segIdx].N;
  calls rankdb.Segments.replaceSegment: forall k int {ls.elements[k]} :: 0 <= k < len(ls.elements) ==> ls.elements[k].ID == flat(s, segN(s.Segments, 0, segIdx) + k).ID && ls.elements[k].Score == flat(s, segN(s.Segments, 0, segIdx) + k).Score && ls.elements[k].Payload == flat(s, segN(s.Segments, 0, segIdx) + k).Payload;
  calls rankdb.Segments.replaceSegment: forall k int, j int {ls.elements[k], in[j]} :: 0 <= k < len(ls.elements) && 0 <= j < len(in) && in[j].ID == ls.elements[k].Score ==> ls.elements[k].TieBreaker == in[j].NewSegment;
  calls rankdb.Segments.replaceSegment: forall k int {ls.elements[k]} :: 0 <= k < len(ls.elements) && (forall j int {in[j]} :: 0 <= j < len(in) ==> in[j].ID != ls.elements[k].Score) ==> ls.elements[k] == flat(s, segN(s.Segments, 0, segIdx) + k);
  ensures others: forall j int :: 0 <= j < len(s.Segments) && j != segIdx ==> s.Segments[j] == old(s.Segments[j]);
  loop 0 {
    invariant place: ls.elements == atloop(ls.elements) && len(ls.elements) == s.Segments[segIdx].N && ls.index == segIdx && fresh(ls.elements) && (arr(ls.elements) == 0 ==> len(ls.elements) == 0);
    invariant kept: forall k int {ls.elements[k]} :: 0 <= k < len(ls.elements) ==> ls.elements[k].ID == flat(s, segN(s.Segments, 0, segIdx) + k).ID && ls.elements[k].Score == flat(s, segN(s.Segments, 0, segIdx) + k).Score && ls.elements[k].Payload == flat(s, segN(s.Segments, 0, segIdx) + k).Payload;
    invariant strict: forall a int, b int :: 0 <= a < b < len(ls.elements) ==> ls.elements[a].Score > ls.elements[b].Score;
    invariant done: forall k int, j int {ls.elements[k], in[j]} :: 0 <= k < len(ls.elements) && 0 <= j < $i && in[j].ID == ls.elements[k].Score ==> ls.elements[k].TieBreaker == in[j].NewSegment;
    invariant rest: forall k int {ls.elements[k]} :: 0 <= k < len(ls.elements) && (forall j int {in[j]} :: 0 <= j < $i ==> in[j].ID != ls.elements[k].Score) ==> ls.elements[k] == flat(s, segN(s.Segments, 0, segIdx) + k);
  }
}

# Every element is handed to the one segment whose range holds it.
contract rankdb.Segments.Insert(s, ctx, bs, in, withIdx) (r, err) {
  requires s != nil && tiled(s.Segments);
  requires desc: forall i int {sortedSeg(s, i)} :: 0 <= i < len(s.Segments) ==> sortedSeg(s, i);
  requires timed: forall i int :: 0 <= i < len(in) ==> in[i].Updated < MaxUint32;
  requires apart: len(in) <= 1000000000000;
  modifies elems(in), elems(s.Segments), saves(0);
  calls rankdb.Segments.Insert$1: arr(e) == arr(in) && off(e) == off(in);
  ensures layout: forall j int :: 0 <= j < len(s.Segments) ==> s.Segments[j].ID == old(s.Segments[j].ID) && s.Segments[j].Min == old(s.Segments[j].Min) && s.Segments[j].MinTie == old(s.Segments[j].MinTie) && s.Segments[j].Max == old(s.Segments[j].Max) && s.Segments[j].MaxTie == old(s.Segments[j].MaxTie);
  loop 0 {
    invariant place: len(in) > 0 ==> arr(in) == arr(atloop(in)) && off(in) + len(in) == off(atloop(in)) + len(atloop(in));
    invariant sorted: sorted(in) && (forall k int :: 0 <= k < len(in) ==> in[k].Updated < MaxUint32);
    invariant below: $i > 0 ==> (forall k int {in[k]} :: 0 <= k < len(in) ==> stLess(in[k].Score, in[k].TieBreaker, s.Segments[$i-1].Min, s.Segments[$i-1].MinTie));
    invariant typed: forall k int {in[k]} :: 0 <= k < len(in) ==> 0 <= in[k].Score && 0 <= in[k].TieBreaker && in[k].TieBreaker <= MaxUint32;
    invariant next: $i < len(s.Segments) ==> (forall k int {in[k]} :: 0 <= k < len(in) ==> stLe(in[k].Score, in[k].TieBreaker, s.Segments[$i].Max, s.Segments[$i].MaxTie));
    invariant rest: forall j int :: $i <= j < len(s.Segments) ==> s.Segments[j] == atloop(s.Segments[j]);
    invariant layout: forall j int :: 0 <= j < len(s.Segments) ==> s.Segments[j].ID == atloop(s.Segments[j].ID) && s.Segments[j].Min == atloop(s.Segments[j].Min) && s.Segments[j].MinTie == atloop(s.Segments[j].MinTie) && s.Segments[j].Max == atloop(s.Segments[j].Max) && s.Segments[j].MaxTie == atloop(s.Segments[j].MaxTie);
    invariant tiled: tiled(s.Segments) && (0 < $i && $i < len(s.Segments) ==> adj(s.Segments[$i-1], s.Segments[$i]));
    invariant done: $i == len(s.Segments) ==> s.Segments[$i-1].Min == 0 && s.Segments[$i-1].MinTie == 0 && (forall k int {in[k]} :: 0 <= k < len(in) ==> !stLess(in[k].Score, in[k].TieBreaker, 0, 0) && stLess(in[k].Score, in[k].TieBreaker, s.Segments[$i-1].Min, s.Segments[$i-1].MinTie));
  }
  loop 1 { invariant fresh: fresh(idxs.Elements) && arr(idxs.Elements) != 0; }
}
