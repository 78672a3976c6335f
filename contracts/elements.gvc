package rankdb;

pred sorted(l Elements) { forall i int, j int :: 0 <= i < j < len(l) ==> !above(l[j], l[i]) }
pred sortedSub(l Elements, a int, b int) { forall i int, j int :: a <= i < j < b ==> !above(l[j], l[i]) }
pred uniqIDs(l Elements) { forall i int, j int :: 0 <= i < j < len(l) ==> l[i].ID != l[j].ID }
pred suffixOf(s Elements, t Elements) { len(s) == 0 || (arr(s) == arr(t) && off(t) <= off(s) && off(s) + len(s) == off(t) + len(t)) }
fold cnt(e Element; x Element) count { e == x }
fold cntID(e Element; id uint64) count { e.ID == id }

contract rankdb.Elements.Find(l, id) (r, err) {
  ensures found: err == nil ==> r != nil && (exists i int :: 0 <= i < len(l) && l[i] == *r && l[i].ID == id && (forall j int :: 0 <= j < i ==> l[j].ID != id));
  ensures missing: err != nil ==> err == ErrNotFound && r == nil && (forall j int :: 0 <= j < len(l) ==> l[j].ID != id);
  loop 0 { invariant none: forall j int :: 0 <= j < $i ==> l[j].ID != id; }
}

contract rankdb.Elements.FindIdx(l, id) (r, err) {
  ensures found: err == nil ==> 0 <= r < len(l) && l[r].ID == id && (forall j int :: 0 <= j < r ==> l[j].ID != id);
  ensures missing: err != nil ==> err == ErrNotFound && r == 0 && (forall j int :: 0 <= j < len(l) ==> l[j].ID != id);
  loop 0 { invariant none: forall j int :: 0 <= j < $i ==> l[j].ID != id; }
}

contract rankdb.Elements.FindScoreIdx(l, score) (r, err) {
  ensures found: err == nil ==> 0 <= r < len(l) && l[r].Score == score && (forall j int :: 0 <= j < r ==> l[j].Score != score);
  ensures missing: err != nil ==> err == ErrNotFound && r == 0 && (forall j int :: 0 <= j < len(l) ==> l[j].Score != score);
  loop 0 { invariant none: forall j int :: 0 <= j < $i ==> l[j].Score != score; }
}

contract rankdb.Elements.Insert(l, e) (r) {
  requires l != nil;
  modifies *l, elems(*l);
  ensures grows: len(*l) == old(len(*l)) + 1;
  ensures pos: 0 <= r < len(*l) && (*l)[r] == e;
  ensures before: forall j int :: 0 <= j < r ==> (*l)[j] == old((*l)[j]) && above((*l)[j], e);
  ensures after: forall j int :: r < j < len(*l) ==> (*l)[j] == old((*l)[j-1]);
  ensures firstNot: r < len(*l) - 1 ==> !above((*l)[r+1], e);
  ensures sorted: old(sorted(*l)) ==> sorted(*l);
  ensures below: old(sorted(*l)) ==> (forall j int :: r < j < len(*l) ==> !above((*l)[j], e));
  ensures count: forall x Element {above(x, x)} :: cnt(*l, 0, len(*l), x) == old(cnt(*l, 0, len(*l), x)) + ite(x == e, 1, 0);
  ensures uniq: old(uniqIDs(*l)) && (forall j int :: 0 <= j < old(len(*l)) ==> old((*l)[j].ID) != e.ID) ==> uniqIDs(*l);
  ensures room: arr(*l) == old(arr(*l)) || fresh(*l);
  loop 0 { invariant scanned: forall j int :: 0 <= j < $i ==> above((*l)[j], e); }
}

contract rankdb.Elements.Merge(l, ins, sliced) () {
  requires l != nil;
  requires sortedL: sorted(*l);
  requires sortedIns: sorted(ins);
  requires apart: !sliced ==> len(ins) == 0 || arr(ins) != arr(*l);
  modifies *l, elems(*l);
  ensures size: len(*l) == old(len(*l)) + len(ins);
  ensures sorted: sorted(*l);
  ensures count: forall x Element {above(x, x)} :: cnt(*l, 0, len(*l), x) == old(cnt(*l, 0, len(*l), x)) + old(cnt(ins, 0, len(ins), x));
  ensures insSame: forall j int :: 0 <= j < len(ins) ==> ins[j] == old(ins[j]);
  ensures shared: sliced ==> (forall j int :: 0 <= j < old(cap(*l)) ==> old(*l)[j] == old((*l)[j]));
  loop 0 {
    invariant total: len(dst) + len(lst) + len(ins) == total && len(dst) <= cap(dst) && fresh(dst) && arr(dst) != 0;
    invariant lstSuffix: suffixOf(lst, atloop(lst));
    invariant insSuffix: suffixOf(ins, atloop(ins));
    invariant sortedDst: sorted(dst);
    invariant sortedRest: sorted(lst) && sorted(ins);
    invariant overLst: forall i int, j int :: 0 <= i < len(dst) && 0 <= j < len(lst) ==> !above(lst[j], dst[i]);
    invariant overIns: forall i int, j int :: 0 <= i < len(dst) && 0 <= j < len(ins) ==> !above(ins[j], dst[i]);
    invariant counts: forall x Element {above(x, x)} :: cnt(dst, 0, len(dst), x) + cnt(lst, 0, len(lst), x) + cnt(ins, 0, len(ins), x) == atloop(cnt(lst, 0, len(lst), x) + cnt(ins, 0, len(ins), x));
  }
  loop 1 {
    invariant range: 0 <= i <= len(lst) && 0 <= nexti < len(ins);
    invariant next: arr(next) == arr(ins) && off(next) == off(ins) + nexti;
    invariant place: arr(lst) == arr(atloop(lst)) && off(lst) == off(atloop(lst)) && cap(lst) == cap(atloop(lst)) && len(lst) == len(atloop(lst)) + nexti;
    invariant sorted: sorted(lst);
    invariant passed: forall j int :: 0 <= j < i ==> !above(ins[nexti], lst[j]);
    invariant counts: forall x Element {above(x, x)} :: cnt(lst, 0, len(lst), x) == atloop(cnt(lst, 0, len(lst), x)) + cnt(ins, 0, nexti, x);
  }
}

contract rankdb.Elements.Delete(l, id) (err) {
  requires l != nil;
  modifies *l, elems(*l);
  ensures missing: err != nil ==> err == ErrNotFound && *l == old(*l) && (forall j int :: 0 <= j < len(*l) ==> (*l)[j] == old((*l)[j]) && (*l)[j].ID != id);
  ensures place: arr(*l) == old(arr(*l)) && off(*l) == old(off(*l)) && cap(*l) == old(cap(*l));
  ensures one: err == nil ==> len(*l) == old(len(*l)) - 1 && (exists i int :: 0 <= i < old(len(*l)) && old((*l)[i]).ID == id);
  ensures exact: err == nil ==> (forall i int :: 0 <= i < old(len(*l)) && old((*l)[i].ID) == id && (forall j int :: 0 <= j < i ==> old((*l)[j].ID) != id) ==>
      (forall j int :: 0 <= j < i ==> (*l)[j] == old((*l)[j])) && (forall j int :: i <= j < len(*l) ==> (*l)[j] == old((*l)[j+1])) &&
      (forall x Element {above(x, x)} :: cnt(*l, 0, len(*l), x) == old(cnt(*l, 0, len(*l), x)) - ite(x == old((*l)[i]), 1, 0)));
  ensures sorted: old(sorted(*l)) ==> sorted(*l);
  ensures uniq: old(uniqIDs(*l)) ==> uniqIDs(*l) && (forall j int :: 0 <= j < len(*l) ==> (*l)[j].ID != id);
  loop 0 { invariant none: forall j int :: 0 <= j < $i ==> lst[j].ID != id; }
}

contract rankdb.Elements.idxRank(l, idx) (r) {
  requires 0 <= idx < len(l);
  ensures rank: r != nil && r.FromTop == idx && r.FromBottom == len(l) - 1 - idx;
}

contract rankdb.Elements.Update(l, e) (r, err) {
  requires l != nil;
  modifies *l, elems(*l);
  ensures missing: err != nil ==> err == ErrNotFound && r == nil && *l == old(*l) && (forall j int :: 0 <= j < len(*l) ==> (*l)[j] == old((*l)[j]) && (*l)[j].ID != e.ID);
  ensures found: err == nil ==> (exists i int :: 0 <= i < old(len(*l)) && old((*l)[i]).ID == e.ID);
  ensures rank: err == nil ==> r != nil && r.FromTop >= 0 && r.FromBottom >= 0 && r.FromTop + r.FromBottom + 1 == len(*l) && len(*l) == old(len(*l));
  ensures placed: err == nil ==> (*l)[r.FromTop].ID == e.ID && (*l)[r.FromTop].Score == e.Score && (*l)[r.FromTop].TieBreaker == e.TieBreaker && (*l)[r.FromTop].Payload == e.Payload && (e.Updated != 0 ==> (*l)[r.FromTop].Updated == e.Updated);
  ensures aboveAll: err == nil ==> (forall j int :: 0 <= j < r.FromTop ==> above((*l)[j], (*l)[r.FromTop]));
  ensures belowAll: err == nil && old(sorted(*l)) ==> (forall j int :: r.FromTop < j < len(*l) ==> !above((*l)[j], (*l)[r.FromTop]));
  ensures sorted: err == nil && old(sorted(*l)) ==> sorted(*l);
  ensures uniq: err == nil && old(uniqIDs(*l)) ==> uniqIDs(*l);
  ensures exact: err == nil ==> (forall i int :: 0 <= i < old(len(*l)) && old((*l)[i].ID) == e.ID && (forall j int :: 0 <= j < i ==> old((*l)[j].ID) != e.ID) ==>
      (forall x Element {above(x, x)} :: cnt(*l, 0, len(*l), x) == old(cnt(*l, 0, len(*l), x)) - ite(x == old((*l)[i]), 1, 0) + ite(x == (*l)[r.FromTop], 1, 0)));
}

contract rankdb.Elements.Add(l, e) (r, err) {
  requires l != nil;
  modifies *l, elems(*l);
  ensures ok: err == nil;
  ensures rank: r != nil && r.FromTop >= 0 && r.FromBottom >= 0 && r.FromTop + r.FromBottom + 1 == len(*l);
  ensures placed: (*l)[r.FromTop].ID == e.ID && (*l)[r.FromTop].Score == e.Score && (*l)[r.FromTop].TieBreaker == e.TieBreaker && (*l)[r.FromTop].Payload == e.Payload && (e.Updated != 0 ==> (*l)[r.FromTop].Updated == e.Updated);
  ensures aboveAll: forall j int :: 0 <= j < r.FromTop ==> above((*l)[j], (*l)[r.FromTop]);
  ensures belowAll: old(sorted(*l)) ==> (forall j int :: r.FromTop < j < len(*l) ==> !above((*l)[j], (*l)[r.FromTop]));
  ensures sorted: old(sorted(*l)) ==> sorted(*l);
  ensures uniq: old(uniqIDs(*l)) ==> uniqIDs(*l);
  ensures new: (forall j int :: 0 <= j < old(len(*l)) ==> old((*l)[j].ID) != e.ID) ==> len(*l) == old(len(*l)) + 1 &&
      (forall x Element {above(x, x)} :: cnt(*l, 0, len(*l), x) == old(cnt(*l, 0, len(*l), x)) + ite(x == (*l)[r.FromTop], 1, 0));
  ensures replace: forall i int :: 0 <= i < old(len(*l)) && old((*l)[i].ID) == e.ID && (forall j int :: 0 <= j < i ==> old((*l)[j].ID) != e.ID) ==>
      len(*l) == old(len(*l)) && (forall x Element {above(x, x)} :: cnt(*l, 0, len(*l), x) == old(cnt(*l, 0, len(*l), x)) - ite(x == old((*l)[i]), 1, 0) + ite(x == (*l)[r.FromTop], 1, 0));
}

contract rankdb.Elements.MinMax(l) (mn, mx, mnT, mxT) {
  ensures empty: len(l) == 0 ==> mn == 0 && mx == MaxUint64 && mnT == 0 && mxT == MaxUint32;
  ensures ends: len(l) > 0 ==> mx == l[0].Score && mxT == l[0].TieBreaker && mn == l[len(l)-1].Score && mnT == l[len(l)-1].TieBreaker;
  ensures bounds: sorted(l) ==> (forall i int :: 0 <= i < len(l) ==> stLe(l[i].Score, l[i].TieBreaker, mx, mxT) && stLe(mn, mnT, l[i].Score, l[i].TieBreaker));
}

contract rankdb.Elements.minMaxUnsorted(l) (mn, mx) {
  ensures bounds: forall i int :: 0 <= i < len(l) ==> mn <= l[i].Score <= mx;
  ensures attained: len(l) > 0 ==> (exists i int :: 0 <= i < len(l) && l[i].Score == mn) && (exists i int :: 0 <= i < len(l) && l[i].Score == mx);
  loop 0 {
    invariant bounds: forall i int :: 0 <= i < $i ==> mn <= l[i].Score <= mx;
    invariant attained: $i > 0 ==> (exists i int :: 0 <= i < $i && l[i].Score == mn) && (exists i int :: 0 <= i < $i && l[i].Score == mx);
    invariant start: $i == 0 ==> mn == MaxUint64 && mx == 0;
  }
}

# a is kept rather than b when both have the same ID.
pred wins(a Element, b Element) { a.Updated > b.Updated || (a.Updated == b.Updated && a.Score >= b.Score) }

fold win(e Element; x Element) count { e.ID == x.ID && wins(e, x) }

# best: whenever some element with x's ID is at least as good as x before, one is after; with x any of the elements
# before, and IDs unique after, the survivor of every ID is the best one.
contract rankdb.Elements.Deduplicate(l) (changed) {
  requires l != nil;
  modifies *l, elems(*l);
  ensures place: arr(*l) == old(arr(*l)) && off(*l) == old(off(*l)) && cap(*l) == old(cap(*l)) && len(*l) <= old(len(*l));
  ensures sorted: sorted(*l);
  ensures uniq: uniqIDs(*l);
  ensures from: forall x Element {above(x, x)} :: cnt(*l, 0, len(*l), x) <= old(cnt(*l, 0, len(*l), x));
  ensures best: forall x Element {above(x, x)} :: old(win(*l, 0, len(*l), x)) > 0 ==> win(*l, 0, len(*l), x) > 0;
  ensures changed: changed <==> len(*l) < old(len(*l));
  loop 0 {
    invariant place: arr(lst) == arr(atloop(lst)) && off(lst) == off(atloop(lst)) && cap(lst) == cap(atloop(lst)) && len(lst) <= len(atloop(lst)) && 1 <= i && i <= max(len(lst), 1);
    invariant some: len(atloop(lst)) > 0 ==> len(lst) > 0;
    invariant byID: forall a int, b int :: 0 <= a < b < len(lst) ==> lst[a].ID <= lst[b].ID;
    invariant done: forall a int, b int :: 0 <= a < b < i && b < len(lst) ==> lst[a].ID < lst[b].ID;
    invariant from: forall x Element {above(x, x)} :: cnt(lst, 0, len(lst), x) <= atloop(cnt(lst, 0, len(lst), x));
    invariant best: forall x Element {above(x, x)} :: atloop(win(lst, 0, len(lst), x)) > 0 ==> win(lst, 0, len(lst), x) > 0;
    invariant changed: changed <==> len(lst) < len(atloop(lst));
    decreases len(lst) - i;
  }
}

contract rankdb.NewElements(e) (r) {
  modifies elems(e);
  ensures place: arr(r) == arr(e) && off(r) == off(e) && len(r) <= len(e);
  ensures sorted: sorted(r);
  ensures uniq: uniqIDs(r);
  ensures from: forall x Element {above(x, x)} :: cnt(r, 0, len(r), x) <= old(cnt(Elements(e), 0, len(e), x));
  ensures best: forall x Element {above(x, x)} :: old(win(Elements(e), 0, len(e), x)) > 0 ==> win(r, 0, len(r), x) > 0;
}

contract rankdb.Elements.ids(l) (r) {
  ensures fresh: fresh(r);
  ensures members: forall id ElementID :: has(r, id) <==> cntID(l, 0, len(l), id) > 0;
  ensures size: len(r) <= len(l) && (len(r) == len(l) <==> uniqIDs(l));
  loop 0 {
    invariant members: forall id ElementID :: has(m, id) <==> cntID(l, 0, $i, id) > 0;
    invariant all: forall j int :: 0 <= j < $i ==> has(m, l[j].ID);
    invariant exist: forall id ElementID {has(m, id)} :: has(m, id) ==> (exists j int :: 0 <= j < $i && l[j].ID == id);
    invariant size: 0 <= len(m) <= $i;
    invariant uniq: len(m) == $i <==> (forall a int, b int :: 0 <= a < b < $i ==> l[a].ID != l[b].ID);
  }
}

contract rankdb.Elements.HasDuplicates(l) (err) {
  requires l != nil;
  ensures exact: err == nil <==> uniqIDs(*l);
}

contract rankdb.Elements.MergeDeduplicate(l, ins) () {
  requires l != nil;
  requires uniqL: uniqIDs(*l);
  requires uniqIns: uniqIDs(ins);
  requires apart: len(ins) > 0 ==> arr(ins) != arr(*l);
  modifies *l, elems(ins);
  entry posIns: forall a int :: 0 <= a < len(ins) ==> cntID(ins, 0, a, ins[a].ID) >= 0 && cntID(ins, 0, len(ins), ins[a].ID) > 0;
  ensures nothing: len(ins) == 0 ==> *l == old(*l);
  ensures sorted: len(ins) > 0 ==> sorted(*l);
  ensures uniq: uniqIDs(*l);
  ensures content: forall x Element {above(x, x)} :: 0 <= x.ID && x.ID <= MaxUint64 ==> cnt(*l, 0, len(*l), x) == old(cnt(ins, 0, len(ins), x)) + ite(old(cntID(ins, 0, len(ins), x.ID)) > 0, 0, old(cnt(*l, 0, len(*l), x)));
  loop 0 {
    invariant uniq: uniqIDs(ins);
    invariant newIDs: forall a int, b int :: 0 <= a < len(ins) && $i <= b < len(*l) && !has(insert, (*l)[b].ID) ==> ins[a].ID != (*l)[b].ID;
    invariant content: forall x Element {above(x, x)} :: cnt(ins, 0, len(ins), x) == atloop(cnt(ins, 0, len(ins), x)) + ite(has(insert, x.ID), 0, cnt(*l, 0, $i, x));
    invariant room: (arr(ins) == arr(atloop(ins)) && off(ins) == off(atloop(ins)) && cap(ins) == cap(atloop(ins))) || fresh(ins);
    invariant lSame: same(*l);
    invariant some: len(ins) > 0;
  }
}

contract rankdb.Elements.Ranked(l, topOffset, total) (r) {
  requires 0 <= topOffset && topOffset <= 4611686018427387904 && -4611686018427387904 <= total && total <= 4611686018427387904 && len(l) <= 1000000000000000;
  ensures fresh: fresh(r);
  ensures all: len(r) == len(l);
  ensures ranks: forall i int :: 0 <= i < len(l) ==> r[i].Element == l[i] && r[i].FromTop == topOffset + i && r[i].FromTop + r[i].FromBottom + 1 == total;
  ensures bare: forall i int :: 0 <= i < len(l) ==> len(r[i].Above) == 0 && len(r[i].Below) == 0 && r[i].Before == nil;
  loop 0 {
    invariant n: len(res) == $i && fresh(res);
    invariant ranks: forall j int :: 0 <= j < $i ==> res[j].Element == l[j] && res[j].FromTop == topOffset + j && res[j].FromTop + res[j].FromBottom + 1 == total;
    invariant bare: forall j int :: 0 <= j < $i ==> len(res[j].Above) == 0 && len(res[j].Below) == 0 && res[j].Before == nil;
  }
}

contract rankdb.RankedElement.CalculateFromBottom(r, total) () {
  requires r != nil;
  requires 0 <= r.FromTop && r.FromTop <= 4611686018427387904 * 2 - 2 && -4611686018427387904 <= total;
  modifies *r;
  ensures total: r.FromTop + r.FromBottom + 1 == total;
  ensures rest: r.FromTop == old(r.FromTop) && r.Element == old(r.Element) && r.Above == old(r.Above) && r.Below == old(r.Below) && r.Before == old(r.Before);
}

contract rankdb.Elements.IDs(l) (r) {
  ensures fresh: fresh(r);
  ensures ids: len(r) == len(l) && (forall i int :: 0 <= i < len(l) ==> r[i] == l[i].ID);
  loop 0 { invariant done: len(ids) == len(l) && (forall j int :: 0 <= j < $i ==> ids[j] == l[j].ID); }
}

contract rankdb.Elements.FirstElementsWithScore(e, scores) (r) {
  requires desc: forall i int, j int :: 0 <= i < j < len(scores) ==> scores[i] >= scores[j];
  requires sortedScores: forall i int, j int :: 0 <= i < j < len(e) ==> e[i].Score > e[j].Score;
  ensures atMostOne: len(r) <= len(scores);
  ensures below: forall i int :: 0 <= i < len(r) ==> r[i].Score <= scores[0];
  ensures from: forall x Element {above(x, x)} :: cnt(r, 0, len(r), x) <= cnt(e, 0, len(e), x);
  ensures found: forall m int, j int :: 0 <= m < len(scores) && 0 <= j < len(e) && e[j].Score == scores[m] ==> cnt(r, 0, len(r), e[j]) > 0;
  loop 0 {
    invariant place: arr(scores) == arr(atloop(scores)) && len(scores) > 0 && off(scores) >= off(atloop(scores)) && off(scores) + len(scores) == off(atloop(scores)) + len(atloop(scores));
    invariant top: top == scores[0];
    invariant n: len(res) == off(scores) - off(atloop(scores)) && fresh(res);
    invariant below: forall i int :: 0 <= i < len(res) ==> res[i].Score <= atloop(scores[0]);
    invariant used: forall m int, j int :: 0 <= m < len(res) && $i <= j < len(e) ==> atloop(scores)[m] > e[j].Score;
    invariant from: forall x Element {above(x, x)} :: cnt(res, 0, len(res), x) <= cnt(e, 0, $i, x);
    invariant found: forall m int, j int :: 0 <= m < len(atloop(scores)) && 0 <= j < $i && e[j].Score == atloop(scores)[m] ==> cnt(res, 0, len(res), e[j]) > 0;
  }
}

fold cntE(e ElementID; x ElementID) count { e == x }
pred desc(l ElementIDs) { forall i int, j int :: 0 <= i < j < len(l) ==> l[i] >= l[j] }

contract rankdb.ElementIDs.Map(e) (r) {
  ensures fresh: fresh(r);
  ensures members: forall x ElementID :: has(r, x) <==> cntE(e, 0, len(e), x) > 0;
  loop 0 { invariant members: forall x ElementID :: has(m, x) <==> cntE(e, 0, $i, x) > 0; }
}

contract rankdb.ElementIDs.Deduplicate(e) () {
  requires e != nil;
  modifies *e;
  ensures desc: desc(*e);
  ensures fresh: fresh(*e) || len(*e) == 0;
  ensures exact: forall x ElementID :: cntE(*e, 0, len(*e), x) == ite(old(cntE(*e, 0, len(*e), x)) > 0, 1, 0);
  loop 0 { invariant members: forall x ElementID :: has(m, x) <==> cntE(lst, 0, $i, x) > 0; }
  loop 1 {
    invariant fresh: fresh(lst);
    invariant members: forall x ElementID {has(m, x)} :: cntE(lst, 0, len(lst), x) == ite(has($seen, x), 1, 0);
  }
}

contract rankdb.ElementIDs.Sort(e) () {
  requires e != nil;
  modifies elems(*e);
  ensures desc: desc(*e);
  ensures count: forall x ElementID :: cntE(*e, 0, len(*e), x) == old(cntE(*e, 0, len(*e), x));
}

contract rankdb.ElementIDs.NotIn(e, b) (r) {
  ensures fresh: fresh(r);
  ensures exact: forall x ElementID :: cntE(r, 0, len(r), x) == ite(cntE(e, 0, len(e), x) > 0 && cntE(b, 0, len(b), x) == 0, 1, 0);
  loop 0 { invariant rest: forall x ElementID :: has(remain, x) <==> cntE(e, 0, len(e), x) > 0 && cntE(b, 0, $i, x) == 0; }
  loop 1 {
    invariant fresh: fresh(n);
    invariant members: forall x ElementID :: cntE(n, 0, len(n), x) == ite(has($seen, x), 1, 0);
  }
}

contract rankdb.ElementIDs.Overlap(e, b) (r) {
  ensures fresh: fresh(r);
  ensures exact: forall x ElementID :: cntE(r, 0, len(r), x) == ite(cntE(e, 0, len(e), x) > 0, cntE(b, 0, len(b), x), 0);
  loop 0 {
    invariant fresh: fresh(res);
    invariant exact: forall x ElementID :: cntE(res, 0, len(res), x) == ite(cntE(e, 0, len(e), x) > 0, cntE(b, 0, $i, x), 0);
  }
}

contract rankdb.ElementIDs.AsScore(e) (r) {
  ensures fresh: fresh(r);
  ensures all: len(r) == len(e) && (forall i int :: 0 <= i < len(e) ==> r[i] == e[i]);
  loop 0 { invariant done: len(dst) == len(e) && (forall j int :: 0 <= j < $i ==> dst[j] == e[j]); }
}

# The parallel merge sort of 25000 elements and more is checked on concrete inputs only.
contract rankdb.Elements.Sort(l) (changed) {
  requires l != nil;
  unproved when its_argument_has_25000_elements_or_more: len(*l) >= 25000;
  modifies *l, elems(*l);
  ensures sorted: sorted(*l);
  ensures same: !changed ==> *l == old(*l) && same(*l);
  ensures changed: changed ==> !old(sorted(*l));
  ensures size: len(*l) == old(len(*l));
  ensures room: arr(*l) == old(arr(*l)) && off(*l) == old(off(*l)) && cap(*l) == old(cap(*l)) || fresh(*l);
  ensures count: forall x Element {above(x, x)} :: cnt(*l, 0, len(*l), x) == old(cnt(*l, 0, len(*l), x));
  ensures from: forall i int :: 0 <= i < len(*l) ==> (exists j int :: 0 <= j < len(*l) && (*l)[i] == old((*l)[j]));
  ensures countIdx: forall s SegmentID, x uint64, u uint32 :: cntIdx(*l, 0, len(*l), s, x, u) == old(cntIdx(*l, 0, len(*l), s, x, u));
}

# Elements that become the index entry x.
fold cntAsIdx(e Element; s SegmentID, id uint64, upd uint32) count { e.ID == id && e.Updated == upd }
fold cntIdx(e Element; s SegmentID, id uint64, upd uint32) count { e.ID == id && e.Score == id && e.TieBreaker == s && e.Updated == upd && len(e.Payload) == 0 }

contract rankdb.Elements.ElementIDs(l, id) (r) {
  ensures size: len(r.Elements) == len(l);
  ensures fresh: fresh(r.Elements);
  ensures sorted: sorted(r.Elements);
  ensures entries: forall i int :: 0 <= i < len(r.Elements) ==> r.Elements[i].Score == r.Elements[i].ID && r.Elements[i].TieBreaker == id && len(r.Elements[i].Payload) == 0;
  ensures exact: forall x uint64, u uint32 :: cntIdx(r.Elements, 0, len(r.Elements), id, x, u) == cntAsIdx(l, 0, len(l), id, x, u);
  loop 0 {
    invariant n: len(res.Elements) == $i && fresh(res.Elements);
    invariant entries: forall i int :: 0 <= i < $i ==> res.Elements[i].Score == res.Elements[i].ID && res.Elements[i].TieBreaker == id && len(res.Elements[i].Payload) == 0;
    invariant exact: forall x uint64, u uint32 :: cntIdx(res.Elements, 0, $i, id, x, u) == cntAsIdx(l, 0, $i, id, x, u);
  }
}

# l[i] and l[i+1] may be separated.
pred cut(l Elements, i int) { l[i-1].Score != l[i].Score || l[i-1].TieBreaker != l[i].TieBreaker }
pred piece(r []Elements, l Elements, i int) { arr(r[i]) == arr(l) && off(r[i]) >= off(l) && len(r[i]) > 0 && off(r[i]) + len(r[i]) <= off(l) + len(l) && (i > 0 ==> off(r[i]) == off(r[i-1]) + len(r[i-1])) }

# The target size counts as at least 1. The pieces are consecutive, non-empty sub-slices covering l, cut only between different (score, tie breaker).
contract rankdb.Elements.SplitSize(l, inEach) (r) {
  requires len(l) + inEach <= 4611686018427387904;
  ensures small: len(l) <= max(inEach, 1) ==> len(r) == 1 && r[0] == l;
  ensures some: len(r) > 0;
  ensures pieces: len(l) > max(inEach, 1) ==> (forall i int :: 0 <= i < len(r) ==> piece(r, l, i));
  ensures ends: off(r[0]) == off(l) && off(r[len(r)-1]) + len(r[len(r)-1]) == off(l) + len(l);
  ensures ties: forall i int :: 0 < i < len(r) ==> cut(l, off(r[i]) - off(l));
  ensures few: len(l) > 0 ==> (len(r) - 1) * max(inEach, 1) < len(l);
  loop 0 {
    invariant range: 0 <= i <= n && 0 <= start <= len(l) && start >= min(i * elems, len(l));
    invariant res: len(res) <= i && (len(res) < i ==> start == len(l)) && (i == 0 ==> start == 0 && len(res) == 0) && (i > 0 ==> len(res) > 0);
    invariant n: n > 0 && (n - 1) * inEach < len(l) && n * elems >= len(l) && elems > 0;
    invariant fresh: fresh(res);
    invariant pieces: forall j int :: 0 <= j < len(res) ==> piece(res, l, j);
    invariant ends: len(res) > 0 ==> off(res[0]) == off(l) && off(res[len(res)-1]) + len(res[len(res)-1]) == off(l) + start;
    invariant ties: forall j int :: 0 < j < len(res) ==> cut(l, off(res[j]) - off(l));
    invariant next: 0 < start < len(l) ==> cut(l, start);
  }
  loop 1 { invariant end: start <= end <= len(l) && end >= min((i + 1) * elems, len(l)) && (start < len(l) ==> end > start); decreases len(l) - end; }
}

contract rankdb.Elements.Clone(l, payloads) (r) {
  ensures fresh: fresh(r);
  ensures size: len(r) == len(l);
  ensures same: forall i int :: 0 <= i < len(l) ==> r[i].ID == l[i].ID && r[i].Score == l[i].Score && r[i].TieBreaker == l[i].TieBreaker && r[i].Updated == l[i].Updated && len(r[i].Payload) == len(l[i].Payload);
  ensures shared: !payloads ==> (forall i int :: 0 <= i < len(l) ==> r[i] == l[i]);
  ensures payload: payloads ==> (forall i int, j int :: 0 <= i < len(l) && 0 <= j < len(l[i].Payload) ==> r[i].Payload[j] == l[i].Payload[j]);
  ensures own: payloads ==> (forall i int :: 0 <= i < len(l) && len(l[i].Payload) > 0 ==> fresh(r[i].Payload));
  loop 0 {
    invariant same: forall i int :: 0 <= i < len(l) ==> res[i].ID == l[i].ID && res[i].Score == l[i].Score && res[i].TieBreaker == l[i].TieBreaker && res[i].Updated == l[i].Updated && len(res[i].Payload) == len(l[i].Payload);
    invariant rest: forall i int :: $i <= i < len(l) ==> res[i] == l[i];
    invariant payload: forall i int, j int :: 0 <= i < $i && 0 <= j < len(l[i].Payload) ==> res[i].Payload[j] == l[i].Payload[j];
    invariant own: forall i int :: 0 <= i < $i && len(l[i].Payload) > 0 ==> fresh(res[i].Payload);
  }
}

contract rankdb.RankedElements.Elements(r) (res) {
  ensures all: fresh(res) && len(res) == len(r) && (forall i int :: 0 <= i < len(r) ==> res[i] == r[i].Element);
  loop 0 { invariant done: len(res) == len(r) && (forall j int :: 0 <= j < $i ==> res[j] == r[j].Element); }
}

contract rankdb.RankedElements.IDs(r) (res) {
  ensures all: fresh(res) && len(res) == len(r) && (forall i int :: 0 <= i < len(r) ==> res[i] == r[i].Element.ID);
  loop 0 { invariant done: len(res) == len(r) && (forall j int :: 0 <= j < $i ==> res[j] == r[j].Element.ID); }
}

pred sameButRank(a RankedElement, b RankedElement) { a.Element == b.Element && a.Above == b.Above && a.Below == b.Below && a.Before == b.Before }

contract rankdb.RankedElements.CalculateFromBottom(r, total) () {
  requires -4611686018427387904 <= total && (forall i int :: 0 <= i < len(r) ==> 0 <= r[i].FromTop && r[i].FromTop <= 4611686018427387904);
  modifies elems(r);
  ensures ranks: forall i int :: 0 <= i < len(r) ==> r[i].FromTop == old(r[i].FromTop) && r[i].FromTop + r[i].FromBottom + 1 == total && sameButRank(r[i], old(r[i]));
  loop 0 {
    invariant done: forall j int :: 0 <= j < $i ==> r[j].FromTop == old(r[j].FromTop) && r[j].FromTop + r[j].FromBottom + 1 == total && sameButRank(r[j], old(r[j]));
    invariant rest: forall j int :: $i <= j < len(r) ==> r[j] == old(r[j]);
  }
}

contract rankdb.RankedElements.Offset(r, offset) () {
  requires -4611686018427387904 <= offset && offset <= 4611686018427387904 && (forall i int :: 0 <= i < len(r) ==> -4611686018427387904 <= r[i].FromTop && r[i].FromTop < 4611686018427387904 && -4611686018427387904 < r[i].FromBottom && r[i].FromBottom < 4611686018427387904);
  modifies elems(r);
  ensures ranks: forall i int :: 0 <= i < len(r) ==> r[i].FromTop == old(r[i].FromTop) + offset && r[i].FromBottom == old(r[i].FromBottom) - offset && sameButRank(r[i], old(r[i]));
  loop 0 {
    invariant done: forall j int :: 0 <= j < $i ==> r[j].FromTop == old(r[j].FromTop) + offset && r[j].FromBottom == old(r[j].FromBottom) - offset && sameButRank(r[j], old(r[j]));
    invariant rest: forall j int :: $i <= j < len(r) ==> r[j] == old(r[j]);
  }
}

fold cntR(e RankedElement; x RankedElement) count { e == x }

contract rankdb.RankedElements.Sort(r) () {
  modifies elems(r);
  ensures sorted: forall i int, j int :: 0 <= i < j < len(r) ==> !above(r[j].Element, r[i].Element);
  ensures count: forall x RankedElement {above(x.Element, x.Element)} :: cntR(r, 0, len(r), x) == old(cntR(r, 0, len(r), x));
}

fold cntL(e ListID; x ListID) count { e == x }
pred sortedL(l ListIDs) { forall i int, j int :: 0 <= i < j < len(l) ==> l[i] <= l[j] }

contract rankdb.ListIDs.Sort(ids) () {
  modifies elems(ids);
  ensures sorted: sortedL(ids);
  ensures count: forall x ListID :: cntL(ids, 0, len(ids), x) == old(cntL(ids, 0, len(ids), x));
}

contract rankdb.ListIDs.Deduplicate(ids) (changed) {
  requires ids != nil;
  modifies *ids, elems(*ids);
  ensures sorted: forall i int, j int :: 0 <= i < j < len(*ids) ==> (*ids)[i] < (*ids)[j];
  ensures exact: forall x ListID :: cntL(*ids, 0, len(*ids), x) <= old(cntL(*ids, 0, len(*ids), x)) && (old(cntL(*ids, 0, len(*ids), x)) > 0 ==> cntL(*ids, 0, len(*ids), x) > 0);
  ensures changed: changed <==> len(*ids) < old(len(*ids));
  loop 0 {
    invariant place: arr(lst) == arr(atloop(lst)) && off(lst) == off(atloop(lst)) && cap(lst) == cap(atloop(lst)) && len(lst) <= len(atloop(lst)) && 1 <= i && i <= max(len(lst), 1);
    invariant some: len(atloop(lst)) > 0 ==> len(lst) > 0;
    invariant sorted: sortedL(lst);
    invariant done: forall a int, b int :: 0 <= a < b < i && b < len(lst) ==> lst[a] < lst[b];
    invariant exact: forall x ListID :: cntL(lst, 0, len(lst), x) <= atloop(cntL(lst, 0, len(lst), x)) && (atloop(cntL(lst, 0, len(lst), x)) > 0 ==> cntL(lst, 0, len(lst), x) > 0);
    invariant changed: changed <==> len(lst) < len(atloop(lst));
    decreases len(lst) - i;
  }
}
