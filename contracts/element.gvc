package rankdb;

# The documented ranking order: score desc, tie breaker desc, update time asc, id asc.
pred above(a Element, b Element) {
  a.Score > b.Score ||
  (a.Score == b.Score && (a.TieBreaker > b.TieBreaker ||
  (a.TieBreaker == b.TieBreaker && (a.Updated < b.Updated ||
  (a.Updated == b.Updated && a.ID < b.ID)))))
}

# Equal in every field that ranks.
pred sameKey(a Element, b Element) {
  a.Score == b.Score && a.TieBreaker == b.TieBreaker && a.Updated == b.Updated && a.ID == b.ID
}

lemma above_total(a Element, b Element, c Element) {
  ensures irreflexive: !above(a, a);
  ensures asymmetric: above(a, b) ==> !above(b, a);
  ensures transitive: above(a, b) && above(b, c) ==> above(a, c);
  ensures total: above(a, b) || above(b, a) || sameKey(a, b);
}

contract rankdb.Element.Above(e, b) (r) {
  ensures order: r <==> above(e, b);
}

contract rankdb.Element.aboveP(e, b) (r) {
  requires b != nil;
  ensures order: r <==> above(*e, *b);
}

contract rankdb.Element.AsIndex(e, s) (r) {
  ensures fields: r.Element.ID == e.ID && r.Element.Score == e.ID && r.Element.Updated == e.Updated && r.Element.TieBreaker == s && len(r.Element.Payload) == 0;
}

# (score, tie) lexicographic
pred stLess(s1 uint64, t1 uint32, s2 uint64, t2 uint32) { s1 < s2 || (s1 == s2 && t1 < t2) }
pred stLe(s1 uint64, t1 uint32, s2 uint64, t2 uint32) { s1 < s2 || (s1 == s2 && t1 <= t2) }

contract rankdb.Element.PrevMax(e) (score, tie) {
  ensures zero: e.Score == 0 && e.TieBreaker == 0 ==> score == 0 && tie == 0;
  ensures below: !(e.Score == 0 && e.TieBreaker == 0) ==> stLess(score, tie, e.Score, e.TieBreaker);
  ensures adjacent: forall s uint64, t uint32 :: stLess(s, t, e.Score, e.TieBreaker) ==> stLe(s, t, score, tie);
  ensures tieStep: e.TieBreaker > 0 ==> score == e.Score && tie == e.TieBreaker - 1;
  ensures scoreStep: e.TieBreaker == 0 && e.Score > 0 ==> score == e.Score - 1 && tie == MaxUint32;
}

contract rankdb.Element.AboveThis(e) (score, tie) {
  ensures top: e.Score == MaxUint64 && e.TieBreaker == MaxUint32 ==> score == MaxUint64 && tie == MaxUint32;
  ensures higher: !(e.Score == MaxUint64 && e.TieBreaker == MaxUint32) ==> stLess(e.Score, e.TieBreaker, score, tie);
  ensures adjacent: forall s uint64, t uint32 :: stLess(e.Score, e.TieBreaker, s, t) ==> stLe(score, tie, s, t);
  ensures tieStep: e.TieBreaker < MaxUint32 ==> score == e.Score && tie == e.TieBreaker + 1;
  ensures scoreStep: e.TieBreaker == MaxUint32 && e.Score < MaxUint64 ==> score == e.Score + 1 && tie == 0;
}
