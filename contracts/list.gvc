package rankdb;

# The segments holding the elements of a list, once loaded.
uf scoresOf(l *List) *Segments;
uf listLoadable(l *List) bool;

pred listOK(s *Segments) { s != nil && counted(s.Segments) && tiled(s.Segments) && ranged(s) && uniqFlat(s) && descFlat(s) }
pred nAll(s *Segments, n int) { n == segN(s.Segments, 0, len(s.Segments)) }

# Assumed: loading and locking yields the list's segments in a state that passes the list's own verification.
extern rankdb.List.loadSegments(l, ctx, bs, fl) (segs, err) {
  requires l != nil;
  ensures ok: err == nil ==> segs != nil && segs.scores == scoresOf(l) && listOK(segs.scores);
  ensures failed: err != nil ==> segs == nil;
  ensures can: listLoadable(l) ==> err == nil;
}

contract rankdb.List.Len(l, ctx, bs) (n, err) {
  requires l != nil;
  ensures n: err == nil ==> nAll(scoresOf(l), n);
  ensures ok: listLoadable(l) ==> err == nil;
}

contract rankdb.List.getRankTop(l, ctx, bs, offset, elements, segs) (r, err) {
  requires l != nil && segs != nil && segs.scores != nil;
  requires counted: counted(segs.scores.Segments);
  requires 0 <= offset && offset <= 2305843009213693952 && 0 <= elements && elements <= 2305843009213693952;
  ensures outside: offset >= segN(segs.scores.Segments, 0, len(segs.scores.Segments)) ==> err == ErrOffsetOutOfBounds && len(r) == 0;
  ensures ok: offset < segN(segs.scores.Segments, 0, len(segs.scores.Segments)) && loadable(segs.scores) ==> err == nil;
  ensures failed: err != nil ==> len(r) == 0;
  ensures size: err == nil ==> len(r) == min(elements, segN(segs.scores.Segments, 0, len(segs.scores.Segments)) - offset);
  ensures run: err == nil ==> (forall k int :: 0 <= k < len(r) ==> r[k] == flat(segs.scores, offset + k));
}

contract rankdb.List.GetRankTop(l, ctx, bs, offset, elements) (r, err) {
  requires l != nil;
  requires 0 <= offset && offset <= 2305843009213693952 && 0 <= elements && elements <= 2305843009213693952;
  ensures failed: err != nil ==> len(r) == 0;
  ensures size: err == nil ==> 0 <= offset < segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)) && len(r) == min(elements, segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)) - offset);
  ensures run: err == nil ==> (forall k int :: 0 <= k < len(r) ==> r[k] == flat(scoresOf(l), offset + k));
}

# Reads downwards from the element that has offset elements below it.
contract rankdb.List.getRankBottom(l, ctx, bs, offset, elements, segs) (r, err) {
  requires l != nil && segs != nil && segs.scores != nil;
  requires counted: counted(segs.scores.Segments);
  requires 0 <= offset && offset <= 2305843009213693952 && 0 <= elements && elements <= 2305843009213693952;
  ensures outside: offset >= segN(segs.scores.Segments, 0, len(segs.scores.Segments)) ==> err == ErrOffsetOutOfBounds && len(r) == 0;
  ensures ok: offset < segN(segs.scores.Segments, 0, len(segs.scores.Segments)) && loadable(segs.scores) ==> err == nil;
  ensures failed: err != nil ==> len(r) == 0;
  ensures size: err == nil ==> len(r) == min(elements, offset + 1);
  ensures run: err == nil ==> (forall k int :: 0 <= k < len(r) ==> r[k] == flat(segs.scores, segN(segs.scores.Segments, 0, len(segs.scores.Segments)) - 1 - offset + k));
}

contract rankdb.List.GetRankBottom(l, ctx, bs, offset, elements) (r, err) {
  requires l != nil;
  requires 0 <= offset && offset <= 2305843009213693952 && 0 <= elements && elements <= 2305843009213693952;
  ensures failed: err != nil ==> len(r) == 0;
  ensures size: err == nil ==> 0 <= offset < segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)) && len(r) == min(elements, offset + 1);
  ensures run: err == nil ==> (forall k int :: 0 <= k < len(r) ==> r[k] == flat(scoresOf(l), segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)) - 1 - offset + k));
}

contract rankdb.List.GetRankScoreDesc(l, ctx, bs, score, n) (r, err) {
  requires l != nil;
  requires 0 <= n && n <= 1000000000000000;
  ensures failed: err != nil ==> len(r) == 0;
  ensures ok: listLoadable(l) && loadable(scoresOf(l)) ==> err == nil;
  ensures ranks: err == nil ==> (forall k int :: 0 <= k < len(r) ==> r[k].FromTop == r[0].FromTop + k && r[k].FromTop + r[k].FromBottom + 1 == segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)));
  ensures elements: err == nil ==> (forall k int :: 0 <= k < len(r) ==> r[k].Element == flat(scoresOf(l), r[k].FromTop));
  ensures above: err == nil && len(r) > 0 ==> 0 <= r[0].FromTop && (forall k int {flat(scoresOf(l), k)} :: 0 <= k < r[0].FromTop ==> flat(scoresOf(l), k).Score > score);
  ensures start: err == nil && len(r) > 0 ==> r[0].Element.Score <= score;
  ensures size: err == nil && len(r) > 0 ==> len(r) == min(n, segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)) - r[0].FromTop);
  ensures empty: err == nil && len(r) == 0 && n > 0 ==> (forall k int {flat(scoresOf(l), k)} :: 0 <= k < segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)) ==> flat(scoresOf(l), k).Score > score);
}

extern big.Float.SetInt(z, x) (r) {
  ensures r != nil;
}
extern big.Float.Mul(z, x, y) (r) {
  ensures r != nil;
}
# Assumed: the product of the total and a percentile in 0..1 is not negative.
extern big.Float.Int64(x) (r, acc) {
  ensures share: r >= 0;
}

# Which element it is follows from the computed share of the total, clamped to the last element.
contract rankdb.List.GetPercentile(l, ctx, bs, percentile, radius) (r, err) {
  requires l != nil;
  requires 0 <= radius && radius <= 2305843009213693952;
  ensures empty: segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)) == 0 && listLoadable(l) ==> err == ErrNotFound;
  ensures failed: err != nil ==> r == nil;
  ensures ok: segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)) > 0 && listLoadable(l) && loadable(scoresOf(l)) ==> err == nil;
  ensures element: err == nil ==> r != nil && 0 <= r.FromTop && r.FromTop + r.FromBottom + 1 == segN(scoresOf(l).Segments, 0, len(scoresOf(l).Segments)) && r.FromBottom >= 0 && r.Element == flat(scoresOf(l), r.FromTop);
  ensures belowAll: err == nil && loadable(scoresOf(l)) ==> len(r.Below) == min(radius, r.FromBottom);
  ensures below: err == nil ==> (forall k int :: 0 <= k < len(r.Below) ==> r.Below[k] == flat(scoresOf(l), r.FromTop + 1 + k));
  ensures aboveAll: err == nil && loadable(scoresOf(l)) ==> len(r.Above) == min(radius, r.FromTop);
  ensures above: err == nil ==> (forall k int :: 0 <= k < len(r.Above) ==> r.Above[k] == flat(scoresOf(l), r.FromTop - 1 - k));
  loop 0 { invariant at: forall i int :: 0 <= i < $i ==> segOffs[i] <= wantOff; }
}
