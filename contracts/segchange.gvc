package rankdb;

contract rankdb.Segments.newID(s) (id) {
  requires s != nil;
  modifies s.NextID;
  ensures id: id == old(s.NextID);
  ensures next: old(s.NextID) < MaxUint32 ==> s.NextID == old(s.NextID) + 1;
}

pred emptyRange(g Segment) { g.Min == 0 && g.MinTie == 0 && g.Max == MaxUint64 && g.MaxTie == MaxUint32 }

contract rankdb.NewSegmentElements(parent, e) (ls) {
  requires parent != nil;
  modifies parent.NextID;
  ensures next: old(parent.NextID) < MaxUint32 ==> parent.NextID == old(parent.NextID) + 1;
  ensures ls: ls != nil && fresh(ls) && ls.seg != nil && fresh(ls.seg) && ls.index == -1 && !ls.readOnly && ls.elements == e;
  ensures seg: ls.seg.ID == old(parent.NextID) && ls.seg.Parent == parent.ID && ls.seg.N == len(e) && ls.seg.loader != nil;
  ensures empty: len(e) == 0 ==> emptyRange(*ls.seg);
  ensures ends: len(e) > 0 ==> ls.seg.Max == e[0].Score && ls.seg.MaxTie == e[0].TieBreaker && ls.seg.Min == e[len(e)-1].Score && ls.seg.MinTie == e[len(e)-1].TieBreaker;
}

contract rankdb.Segment.elementsUpdated(s, e) () {
  requires s != nil;
  modifies s.N, s.Updated;
  ensures n: s.N == len(e);
}

pred sameSeg(a Segment, b Segment) { a.ID == b.ID && a.Min == b.Min && a.Max == b.Max && a.MinTie == b.MinTie && a.MaxTie == b.MaxTie && a.N == b.N && a.Parent == b.Parent }
pred within(l Elements, g Segment) { forall i int :: 0 <= i < len(l) ==> elemIn(g, l[i]) }

# s1 keeps the upper part; the new segment, inserted behind it, takes the lower part and the rest of the range.
contract rankdb.Segments.splitIdx(s, ctx, s1) (changed, ns) {
  requires s != nil && s1 != nil && 0 <= s1.index < len(s.Segments) && s1.seg == addr(s.Segments, s1.index);
  requires size: 0 < len(s1.elements) && len(s1.elements) <= 1000000000000;
  requires sortedE: sorted(s1.elements);
  requires unique: s.IsIndex ==> (forall i int, j int :: 0 <= i < j < len(s1.elements) ==> s1.elements[i].Score != s1.elements[j].Score);
  requires inside: within(s1.elements, *s1.seg);
  modifies s.Segments, s.NextID, s.idx, s1.elements, elems(s.Segments);
  ensures none: ns == nil ==> s.Segments == old(s.Segments) && s1.elements == old(s1.elements) && len(changed) == 0 &&
    (forall i int :: 0 <= i < len(s.Segments) ==> i == s1.index || s.Segments[i] == old(s.Segments[i])) &&
    s.Segments[s1.index].Min == old(s.Segments[s1.index].Min) && s.Segments[s1.index].Max == old(s.Segments[s1.index].Max) && s.Segments[s1.index].MinTie == old(s.Segments[s1.index].MinTie) && s.Segments[s1.index].MaxTie == old(s.Segments[s1.index].MaxTie) && s.Segments[s1.index].ID == old(s.Segments[s1.index].ID) && s.Segments[s1.index].N == len(s1.elements);
  ensures place: ns != nil ==> ns.index == s1.index + 1 && len(s.Segments) == old(len(s.Segments)) + 1;
  ensures before: ns != nil ==> (forall i int :: 0 <= i < s1.index ==> s.Segments[i] == old(s.Segments[i]));
  ensures behind: ns != nil ==> (forall i int :: s1.index + 1 < i < len(s.Segments) ==> s.Segments[i] == old(s.Segments[i-1]));
  ensures upper: ns != nil ==> s.Segments[s1.index].ID == old(s.Segments[s1.index].ID) && s.Segments[s1.index].Max == old(s.Segments[s1.index].Max) && s.Segments[s1.index].MaxTie == old(s.Segments[s1.index].MaxTie) && s.Segments[s1.index].N == len(s1.elements);
  ensures lower: ns != nil ==> s.Segments[s1.index+1].ID == old(s.NextID) && s.Segments[s1.index+1].Min == old(s.Segments[s1.index].Min) && s.Segments[s1.index+1].MinTie == old(s.Segments[s1.index].MinTie) && s.Segments[s1.index+1].N == len(ns.elements) && sameSeg(*ns.seg, s.Segments[s1.index+1]);
  ensures adjacent: ns != nil ==> adj(s.Segments[s1.index], s.Segments[s1.index+1]);
  ensures proper: ns != nil ==> stLe(s.Segments[s1.index].Min, s.Segments[s1.index].MinTie, s.Segments[s1.index].Max, s.Segments[s1.index].MaxTie) && stLe(s.Segments[s1.index+1].Min, s.Segments[s1.index+1].MinTie, s.Segments[s1.index+1].Max, s.Segments[s1.index+1].MaxTie);
  ensures index: ns != nil && s.IsIndex ==> s.Segments[s1.index].MinTie == 0 && s.Segments[s1.index+1].MaxTie == MaxUint32;
  ensures size: ns != nil ==> len(s1.elements) > 0 && len(ns.elements) > 0 && len(s1.elements) + len(ns.elements) == old(len(s1.elements));
  ensures first: ns != nil ==> (forall i int :: 0 <= i < len(s1.elements) ==> s1.elements[i] == old(s1.elements[i]));
  ensures second: ns != nil ==> (forall i int {ns.elements[i]} :: 0 <= i < len(ns.elements) ==> ns.elements[i] == old(s1.elements)[len(s1.elements) + i]);
  ensures insideUpper: ns != nil ==> within(s1.elements, s.Segments[s1.index]);
  ensures insideLower: ns != nil ==> within(ns.elements, s.Segments[s1.index+1]);
  ensures changed: ns != nil ==> len(changed) == len(ns.elements) && (forall i int :: 0 <= i < len(changed) ==> changed[i].ID == ns.elements[i].ID && changed[i].NewSegment == ns.seg.ID);
  ensures tiled: ns != nil && old(tiled(s.Segments)) ==> tiled(s.Segments);
  ensures counted: ns != nil && old(counted(s.Segments)) && old(s1.seg.N == len(s1.elements)) ==> segN(s.Segments, 0, len(s.Segments)) == old(segN(s.Segments, 0, len(s.Segments)));
  loop 0 { invariant done: forall j int :: 0 <= j < $i ==> changed[j].ID == nn[1][j].ID && changed[j].NewSegment == s2.seg.ID; }
}

# cur takes over the elements and the range of next, which directly follows it and is removed from the list.
contract rankdb.Segments.mergeWithNext(s, ctx, cur, next) (changed) {
  requires s != nil && cur != nil && next != nil && cur != next && 0 <= cur.index && next.index == cur.index + 1 && next.index < len(s.Segments);
  requires held: cur.seg == addr(s.Segments, cur.index) && next.seg == addr(s.Segments, next.index);
  requires room: len(cur.elements) + len(next.elements) <= 1000000000000;
  modifies s.Segments, s.idx, cur.elements, next.seg, elems(s.Segments);
  ensures size: len(s.Segments) == old(len(s.Segments)) - 1;
  ensures before: forall i int :: 0 <= i < cur.index ==> s.Segments[i] == old(s.Segments[i]);
  ensures behind: forall i int :: cur.index < i < len(s.Segments) ==> s.Segments[i] == old(s.Segments[i+1]);
  ensures merged: s.Segments[cur.index].ID == old(s.Segments[cur.index].ID) && s.Segments[cur.index].Max == old(s.Segments[cur.index].Max) && s.Segments[cur.index].MaxTie == old(s.Segments[cur.index].MaxTie) && s.Segments[cur.index].Min == old(s.Segments[next.index].Min) && s.Segments[cur.index].MinTie == old(s.Segments[next.index].MinTie) && s.Segments[cur.index].N == len(cur.elements);
  ensures next: *next.seg == old(s.Segments[next.index]) && fresh(next.seg) && cur.seg == addr(s.Segments, cur.index);
  ensures elements: len(cur.elements) == old(len(cur.elements)) + len(next.elements) && (forall i int :: 0 <= i < old(len(cur.elements)) ==> cur.elements[i] == old(cur.elements[i])) &&
    (forall i int {cur.elements[i]} :: old(len(cur.elements)) <= i < len(cur.elements) ==> cur.elements[i] == next.elements[i - old(len(cur.elements))]);
  ensures changed: len(changed) == len(next.elements) && (forall i int :: 0 <= i < len(changed) ==> changed[i].ID == next.elements[i].ID && changed[i].NewSegment == s.Segments[cur.index].ID);
  ensures sorted: old(sorted(cur.elements)) && sorted(next.elements) && old(adj(s.Segments[cur.index], s.Segments[next.index])) && old(within(cur.elements, s.Segments[cur.index])) && old(within(next.elements, s.Segments[next.index])) ==> sorted(cur.elements);
  ensures inside: old(tiled(s.Segments)) && old(within(cur.elements, s.Segments[cur.index])) && old(within(next.elements, s.Segments[next.index])) ==> within(cur.elements, s.Segments[cur.index]);
  ensures tiled: old(tiled(s.Segments)) ==> tiled(s.Segments);
  ensures counted: old(counted(s.Segments)) && old(s.Segments[cur.index].N == len(cur.elements) && s.Segments[next.index].N == len(next.elements)) ==> segN(s.Segments, 0, len(s.Segments)) == old(segN(s.Segments, 0, len(s.Segments)));
  loop 0 { invariant done: forall j int :: 0 <= j < $i ==> changed[j].ID == next.elements[j].ID && changed[j].NewSegment == s1.ID; }
}

contract rankdb.Segments.Append(s, ls) () {
  requires s != nil && ls != nil && ls.seg != nil && len(s.Segments) < 1000000000000;
  modifies s.Segments, s.NextID, ls.index, elems(s.Segments), map(s.idx);
  ensures size: len(s.Segments) == old(len(s.Segments)) + 1 && ls.index == old(len(s.Segments));
  ensures before: forall i int :: 0 <= i < old(len(s.Segments)) ==> s.Segments[i] == old(s.Segments[i]);
  ensures last: s.Segments[len(s.Segments)-1] == old(*ls.seg);
  ensures away: (arr(s.Segments) == old(arr(s.Segments)) && off(s.Segments) == old(off(s.Segments)) && cap(s.Segments) == old(cap(s.Segments))) || fresh(s.Segments);
  ensures next: ls.seg.ID < MaxUint32 ==> s.NextID == max(old(s.NextID), ls.seg.ID + 1);
  ensures index: s.idx != nil ==> has(s.idx, ls.seg.ID) && s.idx[ls.seg.ID] == ls.index && (forall x SegmentID :: x != ls.seg.ID ==> has(s.idx, x) == old(has(s.idx, x)) && s.idx[x] == old(s.idx[x]));
}

# Neighbouring index segments meet at a score boundary.
contract rankdb.Segments.AlignIndex(s) () {
  requires s != nil;
  requires split: s.IsIndex ==> (forall i int :: 0 <= i < len(s.Segments) - 1 ==> s.Segments[i].Min > 0);
  modifies elems(s.Segments);
  ensures plain: !s.IsIndex ==> (forall i int :: 0 <= i < len(s.Segments) ==> s.Segments[i] == old(s.Segments[i]));
  ensures adjacent: s.IsIndex ==> (forall i int, j int {s.Segments[i], s.Segments[j]} :: 0 <= i < j && j <= i + 1 && j < len(s.Segments) ==> adj(s.Segments[i], s.Segments[j]) && s.Segments[i].MinTie == 0 && s.Segments[j].MaxTie == MaxUint32);
  ensures rest: forall i int :: 0 <= i < len(s.Segments) ==> s.Segments[i].ID == old(s.Segments[i].ID) && s.Segments[i].N == old(s.Segments[i].N) && s.Segments[i].Min == old(s.Segments[i].Min) && s.Segments[i].Updated == old(s.Segments[i].Updated) && s.Segments[i].Parent == old(s.Segments[i].Parent);
  ensures ends: len(s.Segments) > 0 ==> s.Segments[0].Max == old(s.Segments[0].Max) && s.Segments[0].MaxTie == old(s.Segments[0].MaxTie) && s.Segments[len(s.Segments)-1].MinTie == old(s.Segments[len(s.Segments)-1].MinTie);
  loop 0 {
    invariant rest: forall i int :: 0 <= i < len(s.Segments) ==> s.Segments[i].ID == old(s.Segments[i].ID) && s.Segments[i].N == old(s.Segments[i].N) && s.Segments[i].Min == old(s.Segments[i].Min) && s.Segments[i].Updated == old(s.Segments[i].Updated) && s.Segments[i].Parent == old(s.Segments[i].Parent);
    invariant ends: len(s.Segments) > 0 ==> s.Segments[0].Max == old(s.Segments[0].Max) && s.Segments[0].MaxTie == old(s.Segments[0].MaxTie) && s.Segments[len(s.Segments)-1].MinTie == old(s.Segments[len(s.Segments)-1].MinTie);
    invariant adjacent: forall i int, j int {s.Segments[i], s.Segments[j]} :: 0 <= i < j && j <= i + 1 && j < $i ==> adj(s.Segments[i], s.Segments[j]) && s.Segments[i].MinTie == 0 && s.Segments[j].MaxTie == MaxUint32;
  }
}

# Assumed: writing the elements to storage changes nothing in memory (it may fail).
ghost saves(k int) int; # how often elements were written (saves(0))
extern rankdb.lockedSegment.saveElements(s, ctx, store, e) (err) {
  requires s != nil;
  modifies saves(0);
  ensures once: saves(0) == old(saves(0)) + 1;
}

contract rankdb.Segments.replaceSegment(s, ctx, bs, ls) (err) {
  requires s != nil && ls != nil && ls.seg != nil && !ls.readOnly;
  modifies ls.seg.N, ls.seg.Updated, ls.seg.loader, ls.elements, elems(s.Segments), saves(0);
  calls rankdb.lockedSegment.saveElements: s == ls && e == old(ls.elements);
  ensures saved: 0 <= ls.index < len(s.Segments) ==> saves(0) == old(saves(0)) + 1;
  ensures outside: !(0 <= ls.index < len(s.Segments)) ==> err != nil && (forall i int :: 0 <= i < len(s.Segments) && addr(s.Segments, i) != ls.seg ==> s.Segments[i] == old(s.Segments[i]));
  ensures others: forall i int :: 0 <= i < len(s.Segments) && i != ls.index && addr(s.Segments, i) != ls.seg ==> s.Segments[i] == old(s.Segments[i]);
  ensures n: ls.seg.N == old(len(ls.elements));
  ensures seg: ls.seg.ID == old(ls.seg.ID) && ls.seg.Min == old(ls.seg.Min) && ls.seg.Max == old(ls.seg.Max) && ls.seg.MinTie == old(ls.seg.MinTie) && ls.seg.MaxTie == old(ls.seg.MaxTie) && ls.seg.Parent == old(ls.seg.Parent);
  ensures apart: arr(ls.seg) != arr(s.Segments) ==> (forall i int :: 0 <= i < len(s.Segments) && i != ls.index ==> s.Segments[i] == old(s.Segments[i]));
  ensures replaced: 0 <= ls.index < len(s.Segments) ==> s.Segments[ls.index] == *ls.seg;
}

contract rankdb.Segments.newLockedSegment(s, ctx, bs, seg) (ls) {
  requires s != nil && seg != nil && len(s.Segments) < 1000000000000 && s.NextID < MaxUint32;
  requires apart: forall i int :: 0 <= i < cap(s.Segments) ==> addr(s.Segments, i) != seg;
  modifies s.Segments, s.NextID, seg.ID, seg.Parent, seg.Updated, seg.loader, elems(s.Segments), map(s.idx);
  ensures ls: ls != nil && fresh(ls) && ls.seg == seg && len(ls.elements) == 0 && !ls.readOnly && ls.index == old(len(s.Segments));
  ensures size: len(s.Segments) == old(len(s.Segments)) + 1;
  ensures before: forall i int :: 0 <= i < old(len(s.Segments)) ==> s.Segments[i] == old(s.Segments[i]);
  ensures last: s.Segments[len(s.Segments)-1] == *seg && seg.ID == old(s.NextID) && seg.Parent == s.ID;
  ensures next: s.NextID == old(s.NextID) + 1;
  ensures away: (arr(s.Segments) == old(arr(s.Segments)) && off(s.Segments) == old(off(s.Segments)) && cap(s.Segments) == old(cap(s.Segments))) || fresh(s.Segments);
}

# The range of g ends directly below x.
pred directlyBelow(g Segment, x Element) {
  (x.TieBreaker > 0 && g.Max == x.Score && g.MaxTie == x.TieBreaker - 1) ||
  (x.TieBreaker == 0 && x.Score > 0 && g.Max == x.Score - 1 && g.MaxTie == MaxUint32)
}
pred endsAt(g Segment, x Element) { g.Min == x.Score && g.MinTie == x.TieBreaker }
pred lastAbove(l Elements, m Elements) { stLess(m[0].Score, m[0].TieBreaker, l[len(l)-1].Score, l[len(l)-1].TieBreaker) }

# One segment per piece, highest first; the ranges meet between the pieces.
contract rankdb.NewSegmentsElements(ctx, bs, e, idx) (s, err) {
  requires count: len(e) <= 1000000;
  requires some: forall p int {e[p]} :: 0 <= p < len(e) ==> 0 < len(e[p]) && len(e[p]) <= 1000000000000;
  requires sortedE: forall p int {e[p]} :: 0 <= p < len(e) ==> sorted(e[p]);
  requires cut: forall p int {e[p]} :: 0 <= p < len(e) - 1 ==> e[p][len(e[p])-1].Score > 0 || e[p][len(e[p])-1].TieBreaker > 0;
  requires ids: idx == nil ==> (forall p int {e[p]} :: 0 <= p < len(e) - 1 ==> e[p][len(e[p])-1].Score > 0);
  requires apart: idx != nil ==> (forall p int {e[p]} :: 0 <= p < len(e) ==> arr(e[p]) != arr(idx.Elements));
  modifies *idx, elemsIf(idx != nil, idx.Elements), saves(0);
  calls rankdb.Segments.replaceSegment: len(e) > 0 ==> ls.index < len(e) && len(ls.elements) == len(e[ls.index]) && (forall k int {ls.elements[k]} :: 0 <= k < len(ls.elements) ==> ls.elements[k] == e[ls.index][k]);
  ensures stored: err == nil && len(e) > 0 ==> saves(0) == old(saves(0)) + len(e);
  ensures failed: err != nil ==> s == nil;
  ensures empty: err == nil && len(e) == 0 ==> s != nil && len(s.Segments) == 1 && emptyRange(s.Segments[0]);
  ensures size: err == nil && len(e) > 0 ==> s != nil && len(s.Segments) == len(e);
  ensures n: err == nil && len(e) > 0 ==> (forall i int {s.Segments[i]} :: 0 <= i < len(e) ==> s.Segments[i].N == len(e[i]));
  ensures top: err == nil ==> s.Segments[0].Max == MaxUint64 && s.Segments[0].MaxTie == MaxUint32;
  ensures bottom: err == nil ==> s.Segments[len(s.Segments)-1].Min == 0 && s.Segments[len(s.Segments)-1].MinTie == 0;
  ensures adjacent: err == nil ==> (forall i int, j int {s.Segments[i], s.Segments[j]} :: 0 <= i < j && j <= i + 1 && j < len(s.Segments) ==> adj(s.Segments[i], s.Segments[j]));
  loop 0 {
    invariant s: s != nil && fresh(s) && len(s.Segments) == $i && s.NextID == $i + 1 && s.IsIndex == (idx == nil) && s.idx == nil && fresh(s.Segments);
    invariant ids: fresh(ids.Elements) || (arr(ids.Elements) == arr(old(idx.Elements)) && off(ids.Elements) == off(old(idx.Elements)) && cap(ids.Elements) == cap(old(idx.Elements)) && len(ids.Elements) >= len(old(idx.Elements)));
    invariant next: next != nil && fresh(next) && arr(next) != arr(s.Segments);
    invariant stored: saves(0) == atloop(saves(0)) + $i;
    invariant n: forall i int {s.Segments[i]} :: 0 <= i < $i ==> s.Segments[i].N == len(e[i]);
    invariant first: $i > 0 ==> s.Segments[0].Max == MaxUint64 && s.Segments[0].MaxTie == MaxUint32;
    invariant last: $i == len(e) && $i > 0 ==> s.Segments[$i-1].Min == 0 && s.Segments[$i-1].MinTie == 0;
    invariant start: $i == 0 ==> next.Max == MaxUint64 && next.MaxTie == MaxUint32;
    invariant from: 0 < $i && $i < len(e) ==> directlyBelow(*next, e[$i-1][len(e[$i-1])-1]);
    invariant min: forall i int {s.Segments[i]} :: 0 <= i < $i && i < len(e) - 1 ==> endsAt(s.Segments[i], e[i][len(e[i])-1]);
    invariant max: forall i int {s.Segments[i]} :: 0 < i < $i ==> directlyBelow(s.Segments[i], e[i-1][len(e[i-1])-1]);
  }
}
