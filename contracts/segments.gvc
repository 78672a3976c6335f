package rankdb;

# ---- ranges

# (score, tie) lies in the segment's range
pred inSeg(s Segment, score uint64, tie uint32) { stLe(s.Min, s.MinTie, score, tie) && stLe(score, tie, s.Max, s.MaxTie) }
pred elemIn(s Segment, e Element) { inSeg(s, e.Score, e.TieBreaker) }
# q starts just below p
pred adj(p Segment, q Segment) {
  (p.MinTie > 0 && q.Max == p.Min && q.MaxTie == p.MinTie - 1) ||
  (p.MinTie == 0 && p.Min > 0 && q.Max == p.Min - 1 && q.MaxTie == MaxUint32)
}
pred tiled(l []Segment) {
  len(l) > 0 && l[0].Max == MaxUint64 && l[0].MaxTie == MaxUint32 &&
  l[len(l)-1].Min == 0 && l[len(l)-1].MinTie == 0 &&
  (forall i int, j int {l[i], l[j]} :: 0 <= i < j && j <= i + 1 && j < len(l) ==> adj(l[i], l[j])) &&
  (forall i int :: 0 <= i < len(l) ==> stLe(l[i].Min, l[i].MinTie, l[i].Max, l[i].MaxTie)) &&
  (forall i int, j int :: 0 <= i < j < len(l) ==> stLess(l[j].Max, l[j].MaxTie, l[i].Min, l[i].MinTie))
}

contract rankdb.Segment.FilterIdx(s, e) (start, end) {
  requires s != nil;
  requires sortedE: sorted(e);
  requires proper: stLe(s.Min, s.MinTie, s.Max, s.MaxTie);
  requires timed: forall i int :: 0 <= i < len(e) ==> e[i].Updated < MaxUint32;
  ensures range: 0 <= start <= end <= len(e);
  ensures inside: forall i int :: start <= i < end ==> elemIn(*s, e[i]);
  ensures before: start < end ==> (forall i int :: 0 <= i < start ==> stLess(s.Max, s.MaxTie, e[i].Score, e[i].TieBreaker));
  ensures after: start < end ==> (forall i int :: end <= i < len(e) ==> stLess(e[i].Score, e[i].TieBreaker, s.Min, s.MinTie));
  ensures none: start == end ==> (forall i int :: 0 <= i < len(e) ==> !elemIn(*s, e[i]));
  loop 0 { invariant start: start == -1 && (forall i int :: 0 <= i < $i ==> stLess(s.Max, s.MaxTie, e[i].Score, e[i].TieBreaker)); }
  loop 1 { invariant end: end == len(e) && (forall i int :: start <= i < start + $i ==> stLe(s.Min, s.MinTie, e[i].Score, e[i].TieBreaker)); }
}

contract rankdb.Segment.Filter(s, e) (r) {
  requires s != nil;
  requires sortedE: sorted(e);
  requires proper: stLe(s.Min, s.MinTie, s.Max, s.MaxTie);
  requires timed: forall i int :: 0 <= i < len(e) ==> e[i].Updated < MaxUint32;
  ensures part: arr(r) == arr(e) && off(e) <= off(r) && off(r) + len(r) <= off(e) + len(e);
  ensures inside: forall i int :: 0 <= i < len(r) ==> elemIn(*s, r[i]);
  ensures all: forall i int :: 0 <= i < len(e) && elemIn(*s, e[i]) ==> off(r) - off(e) <= i < off(r) - off(e) + len(r);
}

contract rankdb.MaxSegment() (r) {
  ensures full: r != nil && fresh(r) && r.Max == MaxUint64 && r.MaxTie == MaxUint32 && r.Min == 0 && r.MinTie == 0 && r.N == 0;
}

# ---- tilings: every (score, tie) lies in exactly one segment
lemma tiled_cover(l []Segment, s uint64, t uint32, n int) {
  induction n;
  requires tiled(l);
  ensures covered: n < len(l) && stLe(l[n].Min, l[n].MinTie, s, t) ==> (exists i int :: 0 <= i <= n && inSeg(l[i], s, t));
}
lemma tiled_exactly_one(l []Segment, s uint64, t uint32) {
  requires tiled(l);
  use tiled_cover(l, s, t, len(l) - 1);
  ensures some: exists i int :: 0 <= i < len(l) && inSeg(l[i], s, t);
  ensures one: forall i int, j int :: 0 <= i < j < len(l) ==> !(inSeg(l[i], s, t) && inSeg(l[j], s, t));
}

contract rankdb.Segments.splitElementsIdx(s, elems) (r) {
  requires s != nil;
  requires sortedE: sorted(elems);
  requires proper: forall i int :: 0 <= i < len(s.Segments) ==> stLe(s.Segments[i].Min, s.Segments[i].MinTie, s.Segments[i].Max, s.Segments[i].MaxTie);
  requires timed: forall i int :: 0 <= i < len(elems) ==> elems[i].Updated < MaxUint32;
  ensures fresh: fresh(r);
  ensures part: forall i int :: has(r, i) ==> 0 <= i < len(s.Segments) && len(r[i]) > 0 && arr(r[i]) == arr(elems) && off(elems) <= off(r[i]) && off(r[i]) + len(r[i]) <= off(elems) + len(elems);
  ensures inside: forall i int, k int {r[i], elems[k]} :: has(r, i) && off(r[i]) - off(elems) <= k < off(r[i]) - off(elems) + len(r[i]) ==> elemIn(s.Segments[i], elems[k]);
  ensures all: forall i int, k int {s.Segments[i], elems[k]} :: 0 <= i < len(s.Segments) && 0 <= k < len(elems) && elemIn(s.Segments[i], elems[k]) ==> has(r, i) && off(r[i]) - off(elems) <= k < off(r[i]) - off(elems) + len(r[i]);
  loop 0 {
    invariant part: forall i int :: has(newIdx, i) ==> 0 <= i < $i && len(newIdx[i]) > 0 && arr(newIdx[i]) == arr(elems) && off(elems) <= off(newIdx[i]) && off(newIdx[i]) + len(newIdx[i]) <= off(elems) + len(elems);
    invariant inside: forall i int, k int {newIdx[i], elems[k]} :: has(newIdx, i) && off(newIdx[i]) - off(elems) <= k < off(newIdx[i]) - off(elems) + len(newIdx[i]) ==> elemIn(s.Segments[i], elems[k]);
    invariant all: forall i int, k int {s.Segments[i], elems[k]} :: 0 <= i < $i && 0 <= k < len(elems) && elemIn(s.Segments[i], elems[k]) ==> has(newIdx, i) && off(newIdx[i]) - off(elems) <= k < off(newIdx[i]) - off(elems) + len(newIdx[i]);
  }
}

# ---- verification of a segment list accepts exactly the tilings
pred distinctSegs(l []Segment) { forall i int, j int :: 0 <= i < j < len(l) ==> l[i].ID != l[j].ID }
pred indexBounds(l []Segment) { forall i int :: 0 < i < len(l) ==> l[i].MinTie == 0 && l[i].MaxTie == MaxUint32 }

contract rankdb.Segments.Verify(s, ctx, bs) (err) {
  requires s != nil;
  ensures accepts: tiled(s.Segments) && distinctSegs(s.Segments) && (forall i int :: 0 <= i < len(s.Segments) ==> s.Segments[i].Updated != 0) && (s.IsIndex ==> indexBounds(s.Segments)) ==> err == nil;
  ensures tiled: err == nil ==> tiled(s.Segments);
  ensures distinct: err == nil ==> distinctSegs(s.Segments);
  ensures timed: err == nil ==> (forall i int :: 0 <= i < len(s.Segments) ==> s.Segments[i].Updated != 0);
  ensures index: err == nil && s.IsIndex ==> indexBounds(s.Segments);
  loop 0 {
    invariant ids: forall i int :: 0 <= i < $i ==> has(foundSegs, s.Segments[i].ID);
    invariant idsOnly: forall x uint32 :: has(foundSegs, x) ==> (exists i int :: 0 <= i < $i && s.Segments[i].ID == x);
    invariant distinct: forall i int, j int :: 0 <= i < j < $i ==> s.Segments[i].ID != s.Segments[j].ID;
    invariant timed: forall i int :: 0 <= i < $i ==> s.Segments[i].Updated != 0;
    invariant proper: forall i int :: 0 <= i < $i ==> stLe(s.Segments[i].Min, s.Segments[i].MinTie, s.Segments[i].Max, s.Segments[i].MaxTie);
    invariant first: $i > 0 ==> s.Segments[0].Max == MaxUint64 && s.Segments[0].MaxTie == MaxUint32;
    invariant last: $i == len(s.Segments) ==> s.Segments[len(s.Segments)-1].Min == 0 && s.Segments[len(s.Segments)-1].MinTie == 0;
    invariant adj: forall i int, j int {s.Segments[i], s.Segments[j]} :: 0 <= i < j && j <= i + 1 && j < $i ==> adj(s.Segments[i], s.Segments[j]);
    invariant below: forall i int, j int :: 0 <= i < j < $i ==> stLess(s.Segments[j].Max, s.Segments[j].MaxTie, s.Segments[i].Min, s.Segments[i].MinTie);
    invariant index: s.IsIndex ==> (forall i int :: 0 < i < $i ==> s.Segments[i].MinTie == 0 && s.Segments[i].MaxTie == MaxUint32);
  }
}

# ---- rank arithmetic
fold segN(g Segment) nonneg { ite(g.N > 0, g.N, 0) }
pred counted(l []Segment) { (forall i int :: 0 <= i < len(l) ==> l[i].N >= 0) && segN(l, 0, len(l)) <= 1152921504606846976 }

contract rankdb.Segments.Elements(s) (n) {
  requires s != nil;
  requires counted: counted(s.Segments);
  ensures total: n == segN(s.Segments, 0, len(s.Segments));
  loop 0 { invariant sum: n == segN(s.Segments, 0, $i); }
}

contract rankdb.Segments.segIdxTop(s, offset) (segIdx, elementOffset) {
  requires s != nil;
  requires counted: counted(s.Segments);
  requires 0 <= offset;
  ensures inside: offset < segN(s.Segments, 0, len(s.Segments)) ==> 0 <= segIdx < len(s.Segments) && 0 <= elementOffset < s.Segments[segIdx].N && segN(s.Segments, 0, segIdx) + elementOffset == offset;
  ensures outside: offset >= segN(s.Segments, 0, len(s.Segments)) ==> segIdx == -1 && elementOffset == -1;
  loop 0 { invariant sum: n == segN(s.Segments, 0, $i) && n <= offset; }
}

contract rankdb.Segments.segIdxBottom(s, offset) (segIdx, elementOffset) {
  requires s != nil;
  requires counted: counted(s.Segments);
  requires 0 <= offset;
  ensures inside: offset < segN(s.Segments, 0, len(s.Segments)) ==> 0 <= segIdx < len(s.Segments) && 0 <= elementOffset < s.Segments[segIdx].N &&
    segN(s.Segments, segIdx + 1, len(s.Segments)) + (s.Segments[segIdx].N - 1 - elementOffset) == offset && elementOffset <= 1152921504606846976;
  ensures outside: offset >= segN(s.Segments, 0, len(s.Segments)) ==> segIdx == -1 && elementOffset == -1;
  loop 0 { invariant sum: -1 <= i < len(s.Segments) && n == segN(s.Segments, i + 1, len(s.Segments)) && n <= offset; }
}

# flat(s, k): the k-th element of the stored list, counted from the top; loadable(s): no storage error occurs.
uf flat(s *Segments, k int) Element;
uf loadable(s *Segments) bool;

# How often x, or an element with the ID x updated at u, is stored in segment i.
uf cntStored(s *Segments, i int, x Element) int;
uf sortedSeg(s *Segments, i int) bool; # segment i is stored in order
uf cntStoredIdx(s *Segments, i int, x uint64, u uint32) int;
# every element lies in the range of its segment
pred ranged(s *Segments) { forall i int, k int {s.Segments[i], flat(s, k)} :: 0 <= i < len(s.Segments) && segN(s.Segments, 0, i) <= k < segN(s.Segments, 0, i) + s.Segments[i].N ==> elemIn(s.Segments[i], flat(s, k)) }

lemma elements_above(s *Segments, score uint64, n int) {
  induction n;
  requires counted(s.Segments) && ranged(s);
  requires n <= len(s.Segments) && (n > 0 ==> s.Segments[n-1].N >= 0);
  requires forall i int :: 0 <= i < n ==> s.Segments[i].Min > score;
  ensures above: forall k int {flat(s, k)} :: 0 <= k < segN(s.Segments, 0, n) ==> flat(s, k).Score > score;
}
lemma elements_below(s *Segments, score uint64, m int, n int) {
  induction n;
  requires counted(s.Segments) && ranged(s) && tiled(s.Segments);
  requires 0 <= m < len(s.Segments) && n <= len(s.Segments) && (n > 0 ==> s.Segments[n-1].N >= 0);
  requires s.Segments[m].Min <= score;
  ensures below: forall k int {flat(s, k)} :: segN(s.Segments, 0, m + 1) <= k < segN(s.Segments, 0, n) ==> flat(s, k).Score <= score;
}

contract rankdb.Segments.segIdxScore(s, score) (segIdx, above, total) {
  requires s != nil;
  requires counted: counted(s.Segments);
  ensures total: total == segN(s.Segments, 0, len(s.Segments));
  ensures found: segIdx >= 0 ==> segIdx < len(s.Segments) && s.Segments[segIdx].Min <= score <= s.Segments[segIdx].Max && above == segN(s.Segments, 0, segIdx);
  ensures first: forall i int :: 0 <= i < len(s.Segments) && (segIdx < 0 || i < segIdx) ==> !(s.Segments[i].Min <= score <= s.Segments[i].Max);
  ensures none: segIdx >= -1;
  use elements_above(s, score, segIdx);
  use elements_below(s, score, segIdx, len(s.Segments));
  lemma minAbove: tiled(s.Segments) ==> segIdx >= 0 && (forall i int :: 0 <= i < segIdx ==> s.Segments[i].Min > score);
  ensures some: tiled(s.Segments) ==> segIdx >= 0;
  ensures before: tiled(s.Segments) && ranged(s) ==> (forall k int {flat(s, k)} :: 0 <= k < above ==> flat(s, k).Score > score);
  ensures after: tiled(s.Segments) && ranged(s) ==> (forall k int {flat(s, k)} :: above + s.Segments[segIdx].N <= k < total ==> flat(s, k).Score <= score);
  loop 0 {
    invariant minAbove: tiled(s.Segments) && segIdx < 0 && $i > 0 ==> s.Segments[$i-1].Min > score;
    invariant minAbove2: tiled(s.Segments) ==> (forall i int :: 0 <= i < $i && (segIdx < 0 || i < segIdx) ==> s.Segments[i].Min > score);
    invariant total: total == segN(s.Segments, 0, $i);
    invariant found: segIdx >= 0 ==> segIdx < $i && s.Segments[segIdx].Min <= score <= s.Segments[segIdx].Max && above == segN(s.Segments, 0, segIdx);
    invariant first: segIdx >= -1 && (forall i int :: 0 <= i < $i && (segIdx < 0 || i < segIdx) ==> !(s.Segments[i].Min <= score <= s.Segments[i].Max));
  }
}

contract rankdb.Segments.topOffsets(s) (elements, total) {
  requires s != nil;
  requires counted: counted(s.Segments);
  ensures fresh: fresh(elements);
  ensures sums: len(elements) == len(s.Segments) && (forall i int :: 0 <= i < len(elements) ==> elements[i] == segN(s.Segments, 0, i));
  ensures total: total == segN(s.Segments, 0, len(s.Segments));
  loop 0 {
    invariant sum: n == segN(s.Segments, 0, $i);
    invariant sums: forall i int :: 0 <= i < $i ==> res[i] == segN(s.Segments, 0, i);
  }
}

contract rankdb.Segments.topRankOf(s, segIdx) (n) {
  requires s != nil;
  requires counted: counted(s.Segments);
  requires 0 <= segIdx < len(s.Segments);
  ensures rank: n == segN(s.Segments, 0, segIdx);
  loop 0 { invariant sum: n == segN(s.Segments, 0, $i) && $i <= segIdx; }
}

# ---- reading

# Assumed: what storage, cache and decoding return for a segment is its part of the list.
extern rankdb.Segments.elementFullIdx(s, ctx, bs, i, readOnly) (ls, err) {
  requires s != nil && 0 <= i < len(s.Segments);
  ensures ok: loadable(s) ==> err == nil;
  ensures seg: err == nil ==> ls != nil && fresh(ls) && ls.index == i && ls.seg == addr(s.Segments, i) && ls.readOnly == readOnly;
  ensures size: err == nil ==> len(ls.elements) == s.Segments[i].N;
  ensures row: err == nil ==> (forall k int :: 0 <= k < len(ls.elements) ==> ls.elements[k] == flat(s, segN(s.Segments, 0, i) + k));
  ensures column: err == nil ==> (forall j int {flat(s, j)} :: segN(s.Segments, 0, i) <= j < segN(s.Segments, 0, i) + len(ls.elements) ==> ls.elements[j - segN(s.Segments, 0, i)] == flat(s, j));
  ensures none: err != nil ==> ls == nil;
  ensures own: err == nil ==> foreign(ls.elements);
  ensures inOrder: err == nil && sortedSeg(s, i) ==> sorted(ls.elements);
  ensures owned: err == nil && !readOnly ==> fresh(ls.elements) && allocated(ls.elements) && (arr(ls.elements) == 0 ==> len(ls.elements) == 0);
  ensures counts: err == nil ==> (forall x Element {cntStored(s, i, x)} :: cntStored(s, i, x) == cnt(ls.elements, 0, len(ls.elements), x));
  ensures entries: err == nil ==> (forall x uint64, u uint32 {cntStoredIdx(s, i, x, u)} :: cntStoredIdx(s, i, x, u) == cntAsIdx(ls.elements, 0, len(ls.elements), s.Segments[i].ID, x, u));
}

contract rankdb.Segments.getElementsOffset(s, ctx, bs, segIdx, firstElem, elements) (r, err) {
  requires s != nil;
  requires counted: counted(s.Segments);
  requires 0 <= segIdx <= len(s.Segments) && 0 <= firstElem <= 2305843009213693952 && 0 <= elements <= 2305843009213693952;
  ensures noError: loadable(s) ==> err == nil;
  ensures failed: err != nil ==> len(r) == 0;
  ensures size: err == nil ==> len(r) == max(0, min(elements, segN(s.Segments, segIdx, len(s.Segments)) - firstElem));
  ensures run: err == nil ==> (forall k int :: 0 <= k < len(r) ==> r[k] == flat(s, segN(s.Segments, 0, segIdx) + firstElem + k));
  ensures fresh: err == nil ==> fresh(r);
  loop 0 {
    invariant range: 0 <= segIdx <= len(s.Segments) && 0 <= firstElem <= atloop(firstElem) && 0 <= elements && elements + len(res) == atloop(elements);
    invariant at: elements > 0 ==> segN(s.Segments, 0, segIdx) + firstElem == atloop(segN(s.Segments, 0, segIdx) + firstElem) + len(res);
    invariant run: forall k int :: 0 <= k < len(res) ==> res[k] == flat(s, atloop(segN(s.Segments, 0, segIdx) + firstElem) + k);
    invariant full: len(res) > 0 ==> atloop(segN(s.Segments, 0, segIdx) + firstElem) + len(res) <= segN(s.Segments, 0, len(s.Segments));
    decreases len(s.Segments) - segIdx + ite(elements > 0, 1, 0);
  }
}

# The locked segment ls is segment number ls.index of s with its part of the list loaded.
pred holds(s *Segments, ls *lockedSegment) {
  ls != nil && 0 <= ls.index < len(s.Segments) && ls.seg == addr(s.Segments, ls.index) && len(ls.elements) == s.Segments[ls.index].N &&
  (forall k int :: 0 <= k < len(ls.elements) ==> ls.elements[k] == flat(s, segN(s.Segments, 0, ls.index) + k))
}

# at: position of the element from the top of the list.
contract rankdb.Segments.findRanked(s, ctx, bs, ls, id, offset, radius) (r, err) {
  requires s != nil;
  requires counted: counted(s.Segments);
  requires held: holds(s, ls);
  requires 0 <= offset && offset <= 2305843009213693952 && 0 <= radius && radius <= 2305843009213693952;
  ensures missing: err != nil ==> err == ErrNotFound && r == nil && (forall k int :: 0 <= k < len(ls.elements) ==> ls.elements[k].ID != id);
  ensures found: err == nil ==> r != nil && fresh(r) && offset <= r.FromTop < offset + len(ls.elements) && r.Element == ls.elements[r.FromTop - offset] && r.Element.ID == id;
  ensures first: err == nil ==> (forall k int :: 0 <= k < r.FromTop - offset ==> ls.elements[k].ID != id);
  ensures rest: err == nil ==> r.Before == nil && r.FromBottom == 0;
  ensures belowSize: err == nil ==> len(r.Below) <= radius && segN(s.Segments, 0, ls.index) + r.FromTop - offset + len(r.Below) < segN(s.Segments, 0, len(s.Segments));
  ensures belowAll: err == nil && loadable(s) ==> len(r.Below) == radius || segN(s.Segments, 0, ls.index) + r.FromTop - offset + len(r.Below) + 1 == segN(s.Segments, 0, len(s.Segments));
  ensures below: err == nil ==> (forall k int :: 0 <= k < len(r.Below) ==> r.Below[k] == flat(s, segN(s.Segments, 0, ls.index) + r.FromTop - offset + 1 + k));
  ensures aboveSize: err == nil ==> len(r.Above) <= radius && len(r.Above) <= segN(s.Segments, 0, ls.index) + r.FromTop - offset;
  ensures aboveAll: err == nil && loadable(s) ==> len(r.Above) == radius || len(r.Above) == segN(s.Segments, 0, ls.index) + r.FromTop - offset;
  ensures above: err == nil ==> (forall k int :: 0 <= k < len(r.Above) ==> r.Above[k] == flat(s, segN(s.Segments, 0, ls.index) + r.FromTop - offset - 1 - k));
  loop 0 {
    invariant range: 1 <= i <= radius + 1 && len(r.Below) == i - 1;
    invariant rest: fresh(r.Below) && arr(r.Below) != 0 && arr(r.Below) != arr(r.Above) && r.Element == atloop(r.Element) && r.FromTop == atloop(r.FromTop) && r.FromBottom == 0 && r.Before == nil && r.Above == atloop(r.Above);
    invariant apart: arr(bLS.elements) != arr(r.Below);
    invariant held: holds(s, bLS) && bLS.index == bsegIdx && 0 <= bidx < len(bLS.elements);
    invariant at: segN(s.Segments, 0, bsegIdx) + bidx == segN(s.Segments, 0, segIdx) + eidx + i - 1;
    invariant below: forall k int :: 0 <= k < len(r.Below) ==> r.Below[k] == flat(s, segN(s.Segments, 0, segIdx) + eidx + 1 + k);
  }
  loop 1 {
    invariant held: holds(s, bLS) && bLS.index == bsegIdx && 0 <= bidx <= len(bLS.elements) && arr(bLS.elements) != arr(r.Below);
    invariant at: segN(s.Segments, 0, bsegIdx) + bidx == segN(s.Segments, 0, segIdx) + eidx + i;
    decreases len(s.Segments) - bsegIdx;
  }
  loop 2 {
    invariant range: 1 <= i <= radius + 1 && len(r.Above) == i - 1;
    invariant rest: fresh(r.Above) && arr(r.Above) != 0 && arr(r.Below) != arr(r.Above) && r.Element == atloop(r.Element) && r.FromTop == atloop(r.FromTop) && r.FromBottom == 0 && r.Before == nil && r.Below == atloop(r.Below) && sameAtLoop(r.Below);
    invariant apart: arr(aLS.elements) != arr(r.Above);
    invariant held: holds(s, aLS) && aLS.index == asegIdx && 0 <= aidx < len(aLS.elements);
    invariant at: segN(s.Segments, 0, asegIdx) + aidx == segN(s.Segments, 0, segIdx) + eidx - (i - 1);
    invariant above: forall k int :: 0 <= k < len(r.Above) ==> r.Above[k] == flat(s, segN(s.Segments, 0, segIdx) + eidx - 1 - k);
  }
  loop 3 {
    invariant held: holds(s, aLS) && aLS.index == asegIdx && -1 <= aidx < len(aLS.elements) && arr(aLS.elements) != arr(r.Above);
    invariant at: segN(s.Segments, 0, asegIdx) + aidx == segN(s.Segments, 0, segIdx) + eidx - i;
    decreases asegIdx;
  }
}

pred uniqFlat(s *Segments) { forall i int, j int {flat(s, i), flat(s, j)} :: 0 <= i < j < segN(s.Segments, 0, len(s.Segments)) ==> flat(s, i).ID != flat(s, j).ID }
pred descFlat(s *Segments) { forall i int, j int {flat(s, i), flat(s, j)} :: 0 <= i < j < segN(s.Segments, 0, len(s.Segments)) ==> !above(flat(s, j), flat(s, i)) }

contract rankdb.Segments.getElementIndex(s, ctx, bs, segIdx, elementOff, offset, radius) (r, err) {
  requires s != nil;
  requires counted: counted(s.Segments);
  requires uniq: uniqFlat(s);
  requires inside: 0 <= segIdx < len(s.Segments) && 0 <= elementOff < s.Segments[segIdx].N;
  requires 0 <= offset && offset <= 2305843009213693952 && 0 <= radius && radius <= 2305843009213693952;
  ensures noError: loadable(s) ==> err == nil;
  ensures failed: err != nil ==> r == nil;
  ensures element: err == nil ==> r != nil && fresh(r) && r.Element == flat(s, segN(s.Segments, 0, segIdx) + elementOff) && r.FromTop == offset + elementOff;
  ensures belowAll: err == nil && loadable(s) ==> len(r.Below) == min(radius, segN(s.Segments, 0, len(s.Segments)) - segN(s.Segments, 0, segIdx) - elementOff - 1);
  ensures below: err == nil ==> (forall k int :: 0 <= k < len(r.Below) ==> r.Below[k] == flat(s, segN(s.Segments, 0, segIdx) + elementOff + 1 + k));
  ensures aboveAll: err == nil && loadable(s) ==> len(r.Above) == min(radius, segN(s.Segments, 0, segIdx) + elementOff);
  ensures above: err == nil ==> (forall k int :: 0 <= k < len(r.Above) ==> r.Above[k] == flat(s, segN(s.Segments, 0, segIdx) + elementOff - 1 - k));
}

# The run starts at the first element of the segment (or of the following ones) whose score is not above the given one;
# ranks are relative to the start of the segment, as the caller completes them.
contract rankdb.Segments.getElementsFromScore(s, ctx, bs, score, segIdx, elements) (r, err) {
  requires s != nil;
  requires counted: counted(s.Segments);
  requires 0 <= segIdx < len(s.Segments) && 0 <= elements <= 1000000000000000;
  ensures noError: loadable(s) ==> err == nil;
  ensures failed: err != nil ==> len(r) == 0;
  ensures rank: err == nil && len(r) > 0 ==> 0 <= r[0].FromTop <= s.Segments[segIdx].N;
  ensures ranks: err == nil ==> (forall k int :: 0 <= k < len(r) ==> r[k].FromTop == r[0].FromTop + k && r[k].Element == flat(s, segN(s.Segments, 0, segIdx) + r[0].FromTop + k));
  ensures bottom: err == nil ==> (forall k int :: 0 <= k < len(r) ==> r[k].FromTop + r[k].FromBottom + 1 == s.Segments[segIdx].N);
  ensures skipped: err == nil && len(r) > 0 ==> (forall k int {flat(s, k)} :: segN(s.Segments, 0, segIdx) <= k < segN(s.Segments, 0, segIdx) + r[0].FromTop ==> flat(s, k).Score > score);
  ensures start: err == nil && len(r) > 0 && r[0].FromTop < s.Segments[segIdx].N ==> r[0].Element.Score <= score;
  ensures size: err == nil && len(r) > 0 ==> len(r) == min(elements, segN(s.Segments, segIdx, len(s.Segments)) - r[0].FromTop);
  ensures empty: err == nil && len(r) == 0 && elements > 0 ==> segN(s.Segments, segIdx + 1, len(s.Segments)) == 0 &&
    (forall k int {flat(s, k)} :: segN(s.Segments, 0, segIdx) <= k < segN(s.Segments, 0, segIdx + 1) ==> flat(s, k).Score > score);
  ensures fresh: err == nil ==> fresh(r);
  loop 0 { invariant above: forall k int :: 0 <= k < $i ==> ls.elements[k].Score > score; }
}
