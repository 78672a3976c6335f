package morph;

# The point in time at a number of seconds since 1970.
uf unixTime(sec int64) time.Time;
extern time.Unix(sec, nsec) (t) {
  ensures seconds: nsec == 0 ==> t == unixTime(sec);
}

# A response element with the fields of e, the given ranks and list.
pred isDefault(r *app.RankdbElement, e rankdb.Element, top int, bottom int, id rankdb.ListID) {
  r != nil && r.ID == e.ID && r.Score == e.Score && r.TieBreaker == e.TieBreaker && r.Payload == e.Payload &&
  r.UpdatedAt == unixTime(e.Updated) && r.FromTop == top && r.FromBottom == bottom && r.ListID == id
}
pred isTiny(r *app.RankdbElementTiny, e rankdb.Element, top int, bottom int) {
  r != nil && r.ID == e.ID && r.Score == e.Score && r.Payload == e.Payload && r.FromTop == top && r.FromBottom == bottom
}

contract morph.RankedElement.Tiny(r) (t) {
  ensures none: r.In == nil ==> t == nil;
  ensures fields: r.In != nil ==> isTiny(t, r.In.Element, r.In.FromTop, r.In.FromBottom);
}

contract morph.RankedElement.Default(r, id) (d) {
  ensures none: r.In == nil ==> d == nil;
  ensures fields: r.In != nil ==> isDefault(d, r.In.Element, r.In.FromTop, r.In.FromBottom, id);
}

contract morph.nearestLast(above) (r) {
  ensures fresh: fresh(r);
  ensures reversed: len(r) == len(above) && (forall k int :: 0 <= k < len(above) ==> r[k] == above[len(above) - 1 - k]);
  loop 0 { invariant done: forall k int :: 0 <= k < $i ==> res[len(above) - 1 - k] == above[k]; }
}

# Each element one further from the top than the previous.
contract morph.Elements.ToRanked(e, firstFromTop, firstFromBottom, id) (r) {
  requires ranks: -4000000000000000000 <= firstFromTop && firstFromTop <= 4000000000000000000 && -4000000000000000000 <= firstFromBottom && firstFromBottom <= 4000000000000000000;
  ensures all: len(r) == len(e.In);
  ensures fields: forall k int :: 0 <= k < len(r) ==> isDefault(r[k], e.In[k], firstFromTop + k, firstFromBottom - k, id);
  loop 0 {
    invariant at: firstFromTop == old(firstFromTop) + $i && firstFromBottom == old(firstFromBottom) - $i && len(res) == $i;
    invariant fields: forall k int :: 0 <= k < $i ==> isDefault(res[k], in[k], old(firstFromTop) + k, old(firstFromBottom) - k, id);
  }
}

pred small(r rankdb.RankedElement) {
  -1000000000000000 <= r.FromTop && r.FromTop <= 1000000000000000 && -1000000000000000 <= r.FromBottom && r.FromBottom <= 1000000000000000 &&
  len(r.Above) <= 1000000000000000 && len(r.Below) <= 1000000000000000
}
pred isFull(f *app.RankdbElementFull, e rankdb.RankedElement, id rankdb.ListID) {
  f != nil && f.ID == e.ID && f.Score == e.Score && f.TieBreaker == e.TieBreaker && f.Payload == e.Payload &&
  f.UpdatedAt == unixTime(e.Updated) && f.FromTop == e.FromTop && f.FromBottom == e.FromBottom && f.ListID == id
}
# Below: nearest first. Above: nearest last, stored nearest first.
pred isBelow(l app.RankdbElementCollection, e rankdb.RankedElement, id rankdb.ListID) {
  len(l) == len(e.Below) && (forall k int :: 0 <= k < len(l) ==> isDefault(l[k], e.Below[k], e.FromTop + 1 + k, e.FromBottom - 1 - k, id))
}
pred isAbove(l app.RankdbElementCollection, e rankdb.RankedElement, id rankdb.ListID) {
  len(l) == len(e.Above) && (forall k int :: 0 <= k < len(l) ==> isDefault(l[k], e.Above[len(l) - 1 - k], e.FromTop - len(l) + k, e.FromBottom + len(l) - k, id))
}

contract morph.RankedElement.Full(r, id) (f) {
  requires small: r.In != nil ==> small(*r.In);
  ensures none: r.In == nil ==> f == nil;
  ensures fields: r.In != nil ==> isFull(f, *r.In, id);
  ensures below: r.In != nil ==> f.Neighbors != nil && isBelow(f.Neighbors.Below, *r.In, id);
  ensures above: r.In != nil ==> isAbove(f.Neighbors.Above, *r.In, id);
}

contract morph.RankedElement.FullUpdate(r, id) (f) {
  requires small: r.In != nil ==> small(*r.In);
  ensures none: r.In == nil ==> f == nil;
  ensures fields: r.In != nil ==> f != nil && f.ID == r.In.ID && f.Score == r.In.Score && f.TieBreaker == r.In.TieBreaker && f.Payload == r.In.Payload &&
    f.UpdatedAt == unixTime(r.In.Updated) && f.FromTop == r.In.FromTop && f.FromBottom == r.In.FromBottom && f.ListID == id;
  ensures below: r.In != nil ==> f.Neighbors != nil && isBelow(f.Neighbors.Below, *r.In, id);
  ensures above: r.In != nil ==> isAbove(f.Neighbors.Above, *r.In, id);
  ensures first: r.In != nil && r.In.Before == nil ==> f.PreviousRank == nil;
  ensures previous: r.In != nil && r.In.Before != nil ==> isDefault(f.PreviousRank, r.In.Before.Element, r.In.Before.FromTop, r.In.Before.FromBottom, id);
}

contract morph.RankedElement.FullExt(r, id, below, above) (f) {
  ensures none: r.In == nil ==> f == nil;
  ensures fields: r.In != nil ==> isFull(f, *r.In, id);
  ensures below: r.In != nil ==> f.Neighbors != nil && len(f.Neighbors.Below) == len(below) && (forall k int :: 0 <= k < len(below) ==> isDefault(f.Neighbors.Below[k], below[k].Element, below[k].FromTop, below[k].FromBottom, id));
  ensures above: r.In != nil ==> len(f.Neighbors.Above) == len(above) && (forall k int :: 0 <= k < len(above) ==> isDefault(f.Neighbors.Above[k], above[k].Element, above[k].FromTop, above[k].FromBottom, id));
}

contract morph.RankedElements.Tiny(r) (l) {
  ensures all: len(l) == len(r.In) && (forall k int :: 0 <= k < len(l) ==> isTiny(l[k], r.In[k].Element, r.In[k].FromTop, r.In[k].FromBottom));
  loop 0 { invariant done: len(res) == len(in) && (forall k int :: 0 <= k < $i ==> isTiny(res[k], in[k].Element, in[k].FromTop, in[k].FromBottom)); }
}

contract morph.RankedElements.Default(r, id) (l) {
  ensures fresh: fresh(l);
  ensures all: len(l) == len(r.In) && (forall k int :: 0 <= k < len(l) ==> isDefault(l[k], r.In[k].Element, r.In[k].FromTop, r.In[k].FromBottom, id));
  loop 0 { invariant done: len(res) == len(in) && (forall k int :: 0 <= k < $i ==> isDefault(res[k], in[k].Element, in[k].FromTop, in[k].FromBottom, id)); }
}

contract morph.RankedElements.Full(r, id) (l) {
  requires small: forall k int :: 0 <= k < len(r.In) ==> small(r.In[k]);
  ensures all: len(l) == len(r.In);
  ensures fields: forall k int :: 0 <= k < len(l) ==> isFull(l[k], r.In[k], id);
  ensures below: forall k int :: 0 <= k < len(l) ==> l[k].Neighbors != nil && isBelow(l[k].Neighbors.Below, r.In[k], id);
  ensures above: forall k int :: 0 <= k < len(l) ==> isAbove(l[k].Neighbors.Above, r.In[k], id);
  loop 0 {
    invariant all: len(res) == len(in);
    invariant fields: forall k int :: 0 <= k < $i ==> isFull(res[k], in[k], id);
    invariant below: forall k int :: 0 <= k < $i ==> res[k].Neighbors != nil && isBelow(res[k].Neighbors.Below, in[k], id);
    invariant above: forall k int :: 0 <= k < $i ==> isAbove(res[k].Neighbors.Above, in[k], id);
  }
}

fold cntGiven(e *app.Element) count { e != nil }

# The supplied elements in order, leaving out nil entries.
contract morph.ApiElements.Elements(a) (r) {
  ensures fresh: fresh(r);
  ensures all: len(r) == cntGiven(a.In, 0, len(a.In));
  ensures fields: forall k int {a.In[k]} :: 0 <= k < len(a.In) && a.In[k] != nil ==> r[cntGiven(a.In, 0, k)].ID == a.In[k].ID && r[cntGiven(a.In, 0, k)].Score == a.In[k].Score && r[cntGiven(a.In, 0, k)].Payload == a.In[k].Payload && r[cntGiven(a.In, 0, k)].Updated == 0 &&
    r[cntGiven(a.In, 0, k)].TieBreaker == ite(a.In[k].TieBreaker == nil, 0, *a.In[k].TieBreaker);
  loop 0 {
    invariant n: len(res) == cntGiven(a.In, 0, $i);
    invariant fields: forall k int {a.In[k]} :: 0 <= k < $i && a.In[k] != nil ==> cntGiven(a.In, 0, k) < len(res) && res[cntGiven(a.In, 0, k)].ID == a.In[k].ID && res[cntGiven(a.In, 0, k)].Score == a.In[k].Score && res[cntGiven(a.In, 0, k)].Payload == a.In[k].Payload && res[cntGiven(a.In, 0, k)].Updated == 0 &&
      res[cntGiven(a.In, 0, k)].TieBreaker == ite(a.In[k].TieBreaker == nil, 0, *a.In[k].TieBreaker);
  }
}

contract morph.ElementIDs.Array(e) (r) {
  ensures all: fresh(r) && len(r) == len(e.In) && (forall k int :: 0 <= k < len(r) ==> r[k] == e.In[k]);
  loop 0 { invariant done: len(v) == len(e.In) && (forall k int :: 0 <= k < $i ==> v[k] == e.In[k]); }
}

contract morph.ApiElementIDs.ElementIDs(a) (r) {
  ensures all: fresh(r) && len(r) == len(a.In) && (forall k int :: 0 <= k < len(r) ==> r[k] == a.In[k]);
  loop 0 { invariant done: len(res) == len(a.In) && (forall k int :: 0 <= k < $i ==> res[k] == a.In[k]); }
}

# What strconv.ParseUint makes of a decimal string.
uf decimal(s string) uint64;
uf isDecimal(s string) bool;
extern strconv.ParseUint(s, base, bits) (v, err) {
  ensures value: base == 10 && bits == 64 && err == nil ==> v == decimal(s);
  ensures valid: base == 10 && bits == 64 ==> (err == nil <==> isDecimal(s));
}

contract morph.NewApiElementIDsString(ids) (r, err) {
  ensures valid: err == nil <==> (forall k int {ids[k]} :: 0 <= k < len(ids) ==> isDecimal(ids[k]));
  ensures failed: err != nil ==> r == nil;
  ensures values: err == nil ==> r != nil && len(r.In) == len(ids) && (forall k int :: 0 <= k < len(ids) ==> r.In[k] == decimal(ids[k]));
  loop 0 { invariant done: len(v) == len(ids) && (forall k int {ids[k]} :: 0 <= k < $i ==> isDecimal(ids[k])) && (forall k int :: 0 <= k < $i ==> v[k] == decimal(ids[k])); }
}

contract morph.NewApiElementIDString(id) (r, err) {
  ensures valid: err == nil <==> isDecimal(id);
  ensures failed: err != nil ==> r == nil;
  ensures value: err == nil ==> r != nil && r.In == decimal(id);
}

contract morph.List.Default(l) (r) {
  ensures none: l.In == nil ==> r == nil;
  ensures fields: l.In != nil ==> r != nil && r.ID == l.In.ID && r.Set == l.In.Set && r.MergeSize == l.In.MergeSize && r.SplitSize == l.In.SplitSize && r.LoadIndex == l.In.LoadIndex && r.Metadata == l.In.Metadata;
}

# White space removed at both ends.
uf trimmed(s string) string;
extern strings.TrimSpace(s) (r) {
  ensures trimmed: r == trimmed(s);
}

fold cntTrimmed(s string; x rankdb.ListID) count { trimmed(s) == x && x != "" }

# Exactly the given IDs, without white space, empty ones and duplicates.
contract morph.APIListIDs.IDs(a) (r) {
  ensures ascending: forall i int, j int :: 0 <= i < j < len(r) ==> r[i] < r[j];
  ensures exact: forall x rankdb.ListID :: (cntL(r, 0, len(r), x) > 0 <==> cntTrimmed(a.In, 0, len(a.In), x) > 0) && cntL(r, 0, len(r), x) >= 0;
  loop 0 {
    invariant fresh: fresh(res);
    invariant exact: forall x rankdb.ListID :: cntL(res, 0, len(res), x) == cntTrimmed(a.In, 0, $i, x);
  }
}

uf statsOf(l *rankdb.List) *rankdb.ListStats;
# Assumed: Stats gives the list's statistics (their ranks are R09).
extern rankdb.List.Stats(l, ctx, bs, elements) (s, err) {
  ensures stats: err == nil ==> s != nil && s == statsOf(l);
}

contract morph.List.Full(l, ctx, bs, elements) (r) {
  ensures none: l.In == nil ==> r == nil;
  ensures fields: l.In != nil ==> r != nil && r.ID == l.In.ID && r.Set == l.In.Set && r.MergeSize == l.In.MergeSize && r.SplitSize == l.In.SplitSize && r.LoadIndex == l.In.LoadIndex && r.Metadata == l.In.Metadata;
  ensures stats: l.In != nil && r.Elements != 0 ==> r.Elements == statsOf(l.In).Elements && r.Segments == statsOf(l.In).Segments;
  ensures top: l.In != nil && r.TopElement != nil ==> statsOf(l.In).Top != nil && isDefault(r.TopElement, statsOf(l.In).Top.Element, statsOf(l.In).Top.FromTop, statsOf(l.In).Top.FromBottom, l.In.ID);
  ensures bottom: l.In != nil && r.BottomElement != nil ==> statsOf(l.In).Bottom != nil && isDefault(r.BottomElement, statsOf(l.In).Bottom.Element, statsOf(l.In).Bottom.FromTop, statsOf(l.In).Bottom.FromBottom, l.In.ID);
}
