package rankdb;

// sync.Map: what it holds, and its keys in the order in which Range visits them.
ghost smHas(m *sync.Map, k any) bool;
ghost smAt(m *sync.Map, k any) any;
uf smKeys(m *sync.Map) []any;
extern sync.Map.Load(m, k) (v, ok) {
	ensures ok <==> smHas(m, k);
	ensures ok ==> v == smAt(m, k);
	ensures !ok ==> v == nil;
}
extern sync.Map.Store(m, k, v) {
	modifies smHas(m, k), smAt(m, k);
	ensures smHas(m, k) && smAt(m, k) == v;
}
extern sync.Map.Delete(m, k) {
	modifies smHas(m, k), smAt(m, k);
	ensures !smHas(m, k);
}
// Every entry is a list under its own ID.
pred listsOK(m *sync.Map) {
	m != nil && forall k any {smHas(m, k)} :: smHas(m, k) ==> isA(k, ListID) && isA(smAt(m, k), *List) && asA(smAt(m, k), *List) != nil && asA(smAt(m, k), *List).ID == asA(k, ListID)
}
// smKeys are the keys of the map, each once.
pred listKeys(m *sync.Map) {
	!fresh(smKeys(m)) &&
	(forall i int {smKeys(m)[i]} :: 0 <= i && i < len(smKeys(m)) ==> smHas(m, smKeys(m)[i])) &&
	(forall i int, j int {smKeys(m)[i], smKeys(m)[j]} :: 0 <= i && i < j && j < len(smKeys(m)) ==> asA(smKeys(m)[i], ListID) != asA(smKeys(m)[j], ListID)) &&
	(forall k any {smHas(m, k)} :: smHas(m, k) ==> (exists i int {smKeys(m)[i]} :: 0 <= i && i < len(smKeys(m)) && smKeys(m)[i] == k))
}

contract rankdb.Lists.ByID(l, id) (list, ok) {
	requires listsOK(l.lists);
	ensures found: forall k any {smHas(l.lists, k)} :: isA(k, ListID) && asA(k, ListID) == id ==> (ok <==> smHas(l.lists, k)) && (ok ==> list == asA(smAt(l.lists, k), *List));
	ensures some: ok ==> list != nil && list.ID == id;
	ensures none: !ok ==> list == nil;
}
contract rankdb.Lists.All(l) (ids) {
	requires listsOK(l.lists) && listKeys(l.lists);
	loop 0 {
		invariant fresh(s) && len(s) == $i;
		invariant forall j int {s[j]} :: 0 <= j && j < $i ==> s[j] == asA(smKeys(l.lists)[j], ListID);
	}
	ensures every: len(ids) == len(smKeys(l.lists)) && (forall j int {ids[j]} :: 0 <= j && j < len(ids) ==> ids[j] == asA(smKeys(l.lists)[j], ListID));
}

contract rankdb.Lists.ByIDs(l, ids) (res) {
	requires listsOK(l.lists);
	loop 0 {
		invariant fresh(res) && len(res) == len(ids);
		invariant done: forall i int, k any {res[i], smHas(l.lists, k)} :: 0 <= i && i < $i && isA(k, ListID) && asA(k, ListID) == ids[i] ==> (smHas(l.lists, k) ==> res[i] == asA(smAt(l.lists, k), *List)) && (!smHas(l.lists, k) ==> res[i] == nil);
		invariant rest: forall i int {res[i]} :: $i <= i && i < len(res) ==> res[i] == nil;
	}
	ensures each: len(res) == len(ids) && (forall i int, k any {res[i], smHas(l.lists, k)} :: 0 <= i && i < len(ids) && isA(k, ListID) && asA(k, ListID) == ids[i] ==> (smHas(l.lists, k) ==> res[i] == asA(smAt(l.lists, k), *List)) && (!smHas(l.lists, k) ==> res[i] == nil));
}
uf known(x ListID) bool;
fold cntKnown(e ListID; x ListID) count { e == x && known(e) }
contract rankdb.Lists.Exists(l, ids) (res) {
	requires listsOK(l.lists);
	requires forall k any {smHas(l.lists, k)} :: isA(k, ListID) ==> (known(asA(k, ListID)) <==> smHas(l.lists, k));
	loop 0 {
		invariant fresh(exists) || len(exists) == 0;
		invariant exact: forall x ListID :: cntL(exists, 0, len(exists), x) == cntKnown(ids, 0, $i, x);
	}
	ensures exact: forall x ListID :: cntL(res, 0, len(res), x) == cntKnown(ids, 0, len(ids), x);
}
contract rankdb.Lists.Delete(l, id) () {
	requires listsOK(l.lists);
	modifies smHas(l.lists), smAt(l.lists);
	ensures gone: forall k any {smHas(l.lists, k)} :: isA(k, ListID) && asA(k, ListID) == id ==> !smHas(l.lists, k);
	ensures others: forall k any {smHas(l.lists, k)} :: !(isA(k, ListID) && asA(k, ListID) == id) ==> (smHas(l.lists, k) <==> old(smHas(l.lists, k))) && smAt(l.lists, k) == old(smAt(l.lists, k));
	ensures ok: listsOK(l.lists);
}
contract rankdb.Lists.Add(l, lists) () {
	requires listsOK(l.lists);
	requires forall j int {lists[j]} :: 0 <= j && j < len(lists) ==> lists[j] != nil;
	modifies smHas(l.lists), smAt(l.lists), all(List);
	loop 0 {
		invariant ok: listsOK(l.lists);
		invariant ids: forall j int {lists[j]} :: 0 <= j && j < len(lists) ==> lists[j].ID == old(lists[j].ID);
		invariant added: forall j int, k any {lists[j], smHas(l.lists, k)} :: 0 <= j && j < $i && isA(k, ListID) && asA(k, ListID) == lists[j].ID ==> smHas(l.lists, k);
		invariant last: forall j int, k any {lists[j], smAt(l.lists, k)} :: 0 <= j && j < $i && isA(k, ListID) && asA(k, ListID) == lists[j].ID && (forall m int {lists[m]} :: j < m && m < $i ==> lists[m].ID != lists[j].ID) ==> asA(smAt(l.lists, k), *List) == lists[j];
		invariant others: forall k any {smHas(l.lists, k)} :: (forall j int {lists[j]} :: 0 <= j && j < $i ==> !(isA(k, ListID) && asA(k, ListID) == lists[j].ID)) ==> (smHas(l.lists, k) <==> old(smHas(l.lists, k))) && smAt(l.lists, k) == old(smAt(l.lists, k));
	}
	ensures ids: forall j int {lists[j]} :: 0 <= j && j < len(lists) ==> lists[j].ID == old(lists[j].ID);
	ensures ok: listsOK(l.lists);
	ensures added: forall j int, k any {lists[j], smHas(l.lists, k)} :: 0 <= j && j < len(lists) && isA(k, ListID) && asA(k, ListID) == lists[j].ID ==> smHas(l.lists, k);
	ensures last: forall j int, k any {lists[j], smAt(l.lists, k)} :: 0 <= j && j < len(lists) && isA(k, ListID) && asA(k, ListID) == lists[j].ID && (forall m int {lists[m]} :: j < m && m < len(lists) ==> lists[m].ID != lists[j].ID) ==> asA(smAt(l.lists, k), *List) == lists[j];
	ensures others: forall k any {smHas(l.lists, k)} :: (forall j int {lists[j]} :: 0 <= j && j < len(lists) ==> !(isA(k, ListID) && asA(k, ListID) == lists[j].ID)) ==> (smHas(l.lists, k) <==> old(smHas(l.lists, k))) && smAt(l.lists, k) == old(smAt(l.lists, k));
}
# Names for the requested sets, for lists with all the requested metadata, and for lists a selection is for.
uf wanted(set string) bool;
uf matches(x *List) bool;
pred chosen(x *List, q map[string]string) { wanted(x.Set) || (len(q) > 0 && x.Metadata != nil && matches(x)) }
contract rankdb.Lists.MatchAll(l, q, sets) (res) {
	requires listsOK(l.lists) && listKeys(l.lists);
	requires forall i int {sets[i]} :: 0 <= i && i < len(sets) ==> wanted(sets[i]);
	requires forall k string {wanted(k)} :: wanted(k) ==> (exists i int {sets[i]} :: 0 <= i && i < len(sets) && sets[i] == k);
	requires forall x *List {matches(x)} :: matches(x) <==> (forall k string {has(q, k)} :: has(q, k) ==> has(x.Metadata, k) && x.Metadata[k] == q[k]);
	loop 0 {
		invariant s != nil && fresh(s);
		invariant forall i int {sets[i]} :: 0 <= i && i < $i ==> has(s, sets[i]);
		invariant forall k string {has(s, k)} :: has(s, k) ==> wanted(k);
	}
	loop 1 {
		invariant fresh(res);
		invariant each: forall j int {smKeys(l.lists)[j]} :: 0 <= j && j < $i ==> cntL(res, 0, len(res), asA(smKeys(l.lists)[j], ListID)) == ite(chosen(asA(smAt(l.lists, smKeys(l.lists)[j]), *List), q), 1, 0);
		invariant only: forall x ListID :: cntL(res, 0, len(res), x) > 0 ==> (exists j int {smKeys(l.lists)[j]} :: 0 <= j && j < $i && asA(smKeys(l.lists)[j], ListID) == x);
		invariant forall x ListID :: cntL(res, 0, len(res), x) >= 0;
	}
	loop 2 {
		invariant forall k string {has($seen, k)} :: has($seen, k) ==> has(list.Metadata, k) && list.Metadata[k] == q[k];
	}
	ensures each: forall j int {smKeys(l.lists)[j]} :: 0 <= j && j < len(smKeys(l.lists)) ==> cntL(res, 0, len(res), asA(smKeys(l.lists)[j], ListID)) == ite(chosen(asA(smAt(l.lists, smKeys(l.lists)[j]), *List), q), 1, 0);
	ensures only: forall x ListID :: cntL(res, 0, len(res), x) > 0 ==> (exists j int {smKeys(l.lists)[j]} :: 0 <= j && j < len(smKeys(l.lists)) && asA(smKeys(l.lists)[j], ListID) == x);
}
fold cntGT(e any; from ListID) count { asA(e, ListID) > from }
fold cntLE(e any; from ListID) count { asA(e, ListID) <= from }
fold cntLT(e any; to ListID) count { asA(e, ListID) < to }
fold cntGE(e any; to ListID) count { asA(e, ListID) >= to }
fold cntS(e string; x string) count { e == x }
extern sort.StringSlice.Sort(x) {
	modifies elems(x);
	ensures forall i int, j int {x[i], x[j]} :: 0 <= i && i < j && j < len(x) ==> x[i] <= x[j];
	ensures forall v string :: cntS(x, 0, len(x), v) == old(cntS(x, 0, len(x), v));
	ensures forall i int {x[i]} :: 0 <= i && i < len(x) ==> (exists j int :: 0 <= j && j < len(x) && old(x[j]) == x[i]);
	ensures forall v string :: old(cntS(x, 0, len(x), v)) > 0 ==> x[0] <= v && v <= x[len(x)-1];
	ensures (forall i int, j int :: 0 <= i && i < j && j < len(x) ==> old(x[i]) != old(x[j])) ==> (forall i int, j int {x[i], x[j]} :: 0 <= i && i < j && j < len(x) ==> x[i] < x[j]);
}
# listID below names the ID of a list, which reading does not change.
uf listID(x *List) ListID;
fold cntRes(e *List; x ListID) count { listID(e) == x }
contract rankdb.Lists.SortedIDsAfter(l, from, n) (res, page) {
	requires listsOK(l.lists) && listKeys(l.lists);
	requires forall x *List {listID(x)} :: x != nil ==> listID(x) == x.ID;
	loop 0 {
		invariant size: fresh(s) && len(s) <= n && n >= 2 && (page.After > 0 ==> len(s) == n) && page.After >= 0 && page.Before >= 0;
		invariant before: page.Before == cntLE(smKeys(l.lists), 0, $i, from);
		invariant after: page.After + len(s) == cntGT(smKeys(l.lists), 0, $i, from);
		invariant bound: page.Before + page.After <= $i;
		invariant distinct: forall i int, j int {s[i], s[j]} :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j];
		invariant above: forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] > from;
		invariant member: forall i int {s[i]} :: 0 <= i && i < len(s) ==> (exists j int {smKeys(l.lists)[j]} :: 0 <= j && j < $i && asA(smKeys(l.lists)[j], ListID) == s[i]);
		invariant last: forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] <= lastElement;
		invariant len(s) == 0 ==> lastElement == "";
		invariant lastIn: len(s) > 0 ==> cntS(s, 0, len(s), lastElement) > 0;
		invariant closest: forall j int {smKeys(l.lists)[j]} :: 0 <= j && j < $i && asA(smKeys(l.lists)[j], ListID) > from ==>
			cntS(s, 0, len(s), asA(smKeys(l.lists)[j], ListID)) > 0 || (len(s) == n && asA(smKeys(l.lists)[j], ListID) > lastElement);
	}
	loop 1 {
		invariant fresh(res) && len(res) + len(s) == len(atloop(s)) && len(res) <= len(atloop(s));
		invariant rest: arr(s) == arr(atloop(s)) && off(s) == off(atloop(s)) + len(res);
		invariant put: forall i int {res[i]} :: 0 <= i && i < len(res) ==> res[i] != nil && res[i].ID == atloop(s[i]);
		invariant counted: forall v ListID :: cntRes(res, 0, len(res), v) == cntS(atloop(s), 0, len(res), v);
		invariant stored: forall i int, k any {res[i], smHas(l.lists, k)} :: 0 <= i && i < len(res) && isA(k, ListID) && asA(k, ListID) == res[i].ID ==> smHas(l.lists, k) && res[i] == asA(smAt(l.lists, k), *List);
	}
	ensures none: n <= 0 ==> len(res) == 0 && page.Before == 0 && page.After == 0;
	ensures size: n > 0 ==> len(res) <= n;
	ensures counts: n > 0 ==> page.Before == cntLE(smKeys(l.lists), 0, len(smKeys(l.lists)), from) && page.After + len(res) == cntGT(smKeys(l.lists), 0, len(smKeys(l.lists)), from);
	ensures ascending: forall i int, j int {res[i], res[j]} :: 0 <= i && i < j && j < len(res) ==> res[i].ID < res[j].ID;
	ensures beyond: forall i int {res[i]} :: 0 <= i && i < len(res) ==> res[i] != nil && res[i].ID > from;
	ensures stored: forall i int, k any {res[i], smHas(l.lists, k)} :: 0 <= i && i < len(res) && isA(k, ListID) && asA(k, ListID) == res[i].ID ==> smHas(l.lists, k) && res[i] == asA(smAt(l.lists, k), *List);
	ensures closest: n > 0 ==> forall j int {smKeys(l.lists)[j]} :: 0 <= j && j < len(smKeys(l.lists)) && asA(smKeys(l.lists)[j], ListID) > from ==>
		cntRes(res, 0, len(res), asA(smKeys(l.lists)[j], ListID)) > 0 || (len(res) == n && (forall i int {res[i]} :: 0 <= i && i < len(res) ==> asA(smKeys(l.lists)[j], ListID) > res[i].ID));
}
contract rankdb.Lists.SortedIDsBefore(l, to, n) (res, page) {
	requires listsOK(l.lists) && listKeys(l.lists);
	requires forall x *List {listID(x)} :: x != nil ==> listID(x) == x.ID;
	loop 0 {
		invariant size: fresh(s) && len(s) <= n && n >= 2 && (page.Before > 0 ==> len(s) == n) && page.After >= 0 && page.Before >= 0;
		invariant after: page.After == cntGE(smKeys(l.lists), 0, $i, to);
		invariant before: page.Before + len(s) == cntLT(smKeys(l.lists), 0, $i, to);
		invariant bound: page.Before + page.After <= $i;
		invariant distinct: forall i int, j int {s[i], s[j]} :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j];
		invariant below: forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] < to;
		invariant member: forall i int {s[i]} :: 0 <= i && i < len(s) ==> (exists j int {smKeys(l.lists)[j]} :: 0 <= j && j < $i && asA(smKeys(l.lists)[j], ListID) == s[i]);
		invariant first: forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] >= firstElement;
		invariant firstIn: len(s) > 0 ==> cntS(s, 0, len(s), firstElement) > 0;
		invariant closest: forall j int {smKeys(l.lists)[j]} :: 0 <= j && j < $i && asA(smKeys(l.lists)[j], ListID) < to ==>
			cntS(s, 0, len(s), asA(smKeys(l.lists)[j], ListID)) > 0 || (len(s) == n && asA(smKeys(l.lists)[j], ListID) < firstElement);
	}
	loop 1 {
		invariant fresh(res) && len(res) + len(s) == len(atloop(s)) && len(res) <= len(atloop(s));
		invariant rest: arr(s) == arr(atloop(s)) && off(s) == off(atloop(s)) + len(res);
		invariant put: forall i int {res[i]} :: 0 <= i && i < len(res) ==> res[i] != nil && res[i].ID == atloop(s[i]);
		invariant counted: forall v ListID :: cntRes(res, 0, len(res), v) == cntS(atloop(s), 0, len(res), v);
		invariant stored: forall i int, k any {res[i], smHas(l.lists, k)} :: 0 <= i && i < len(res) && isA(k, ListID) && asA(k, ListID) == res[i].ID ==> smHas(l.lists, k) && res[i] == asA(smAt(l.lists, k), *List);
	}
	ensures none: n <= 0 ==> len(res) == 0 && page.Before == 0 && page.After == 0;
	ensures size: n > 0 ==> len(res) <= n;
	ensures counts: n > 0 ==> page.After == cntGE(smKeys(l.lists), 0, len(smKeys(l.lists)), to) && page.Before + len(res) == cntLT(smKeys(l.lists), 0, len(smKeys(l.lists)), to);
	ensures ascending: forall i int, j int {res[i], res[j]} :: 0 <= i && i < j && j < len(res) ==> res[i].ID < res[j].ID;
	ensures beyond: forall i int {res[i]} :: 0 <= i && i < len(res) ==> res[i] != nil && res[i].ID < to;
	ensures stored: forall i int, k any {res[i], smHas(l.lists, k)} :: 0 <= i && i < len(res) && isA(k, ListID) && asA(k, ListID) == res[i].ID ==> smHas(l.lists, k) && res[i] == asA(smAt(l.lists, k), *List);
	ensures closest: n > 0 ==> forall j int {smKeys(l.lists)[j]} :: 0 <= j && j < len(smKeys(l.lists)) && asA(smKeys(l.lists)[j], ListID) < to ==>
		cntRes(res, 0, len(res), asA(smKeys(l.lists)[j], ListID)) > 0 || (len(res) == n && (forall i int {res[i]} :: 0 <= i && i < len(res) ==> asA(smKeys(l.lists)[j], ListID) < res[i].ID));
}
extern rankdb.List.DeleteAll(l, ctx, bs) (err) { modifies l.scores, l.index; }
contract rankdb.Manager.DeleteList(m, ctx, id) (err) {
	requires listsOK(m.Lists.lists);
	modifies smHas(m.Lists.lists), smAt(m.Lists.lists), all(List);
	ensures gone: forall k any {smHas(m.Lists.lists, k)} :: isA(k, ListID) && asA(k, ListID) == id ==> !smHas(m.Lists.lists, k);
	ensures others: forall k any {smHas(m.Lists.lists, k)} :: !(isA(k, ListID) && asA(k, ListID) == id) ==> (smHas(m.Lists.lists, k) <==> old(smHas(m.Lists.lists, k))) && smAt(m.Lists.lists, k) == old(smAt(m.Lists.lists, k));
	ensures ok: listsOK(m.Lists.lists);
}
