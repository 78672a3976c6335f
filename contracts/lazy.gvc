package blobstore;

# Queues: the entries of a list, each with its place.
ghost queued(q *list.List, e *list.Element) bool;
uf place(e *list.Element) int injective;
extern list.List.PushBack(l, v) (e) {
	modifies queued(l);
	ensures e != nil && fresh(e) && e.Value == v && !old(queued(l, e)) && queued(l, e);
	ensures forall x *list.Element {queued(l, x)} :: x != e ==> (queued(l, x) <==> old(queued(l, x)));
	ensures forall x *list.Element {queued(l, x)} :: queued(l, x) && x != e ==> place(x) < place(e);
}
extern list.List.Remove(l, e) (v) {
	modifies queued(l);
	ensures !queued(l, e);
	ensures forall x *list.Element {queued(l, x)} :: x != e ==> (queued(l, x) <==> old(queued(l, x)));
}
extern list.List.Front(l) (e) {
	ensures e == nil || queued(l, e);
	ensures forall x *list.Element {queued(l, x)} :: queued(l, x) ==> e != nil && place(e) <= place(x);
}
extern list.Element.Next(e) (r) {
	ensures forall q *list.List {queued(q, e)} :: queued(q, e) ==> r == nil || (queued(q, r) && place(e) < place(r));
	ensures forall q *list.List, x *list.Element {queued(q, e), queued(q, x)} :: queued(q, e) && queued(q, x) && x != e && place(e) <= place(x) ==> r != nil && place(r) <= place(x);
}
extern list.List.Len(l) (n) { ensures 0 <= n; }
# Logging changes nothing.
extern log.WithValues(ctx, kv) (c) { ensures c != nil; }
extern log.WithLogger(ctx, a) (c) { ensures c != nil; }
extern log.Logger(ctx) (a) { ensures a != nil; }
extern log.Info(ctx, msg, kv) () { }
extern log.Error(ctx, msg, kv) () { }

# The key of a set and key, which names both.
uf lk(set string, key string) string;
uf lkSet(k string) string;
uf lkKey(k string) string;
extern blobstore.lazyKey(set, key) (k) { ensures k == lk(set, key) && lkSet(k) == set && lkKey(k) == key; }
# Buffers belong to whoever got them, until they are put back.
extern blobstore.getDataBufferChunk(size) (b) { ensures len(b) == 0 && arr(b) != 0 && fresh(b) && cap(b) >= size; }
extern blobstore.putDataBufferChunk(p) () { modifies array(p); }

# What a reader must see of each key: before and after the operation under verification.
uf has0(k string) bool;
uf len0(k string) int;
uf at0(k string, i int) byte;
uf has1(k string) bool;
uf len1(k string) int;
uf at1(k string, i int) byte;

# Reading a blob: the last write, whether or not it is stored.
contract blobstore.NewLazySaver$1(l, ctx, set, key) (b, err) {
	requires l.cacheIdx != nil && l.cache != nil && l.store != nil;
	requires forall s string, t string {lk(s, t)} :: lkSet(lk(s, t)) == s && lkKey(lk(s, t)) == t;
	modifies map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), all(byte), attempts(l.store), lastErr(l.store), triedAgain(l.store);
	monitor LazySaver.mu {
		locked map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), others(byte);
		unlocked map(l.cacheIdx), all(list.Element), queued(l.cache), others(byte);
		enter req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && foreign(asA(e.Value, updateItemRequest).b) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		enter idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		enter newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		enter own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		enter last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (has0(k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (has0(k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == len0(k));
		enter bytes: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == at0(k, i);
		enter stored: forall k string {has(l.cacheIdx, k)} :: !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> has0(k)) && (has0(k) ==> stLen(l.store, lkSet(k), lkKey(k)) == len0(k));
		enter kept: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: !has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == at0(k, i);
		leave req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		leave idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		leave newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		leave own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		leave last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (has0(k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (has0(k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == len0(k));
		leave bytes: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == at0(k, i);
		leave stored: forall k string {has(l.cacheIdx, k)} :: !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> has0(k)) && (has0(k) ==> stLen(l.store, lkSet(k), lkKey(k)) == len0(k));
		leave kept: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: !has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == at0(k, i);
		leave left: forall e *list.Element {atloop(queued(l.cache, e))} :: atloop(queued(l.cache, e)) && atloop(asA(e.Value, updateItemRequest).saving) ==> queued(l.cache, e) && e.Value == atloop(e.Value) && (forall i int {asA(e.Value, updateItemRequest).b[i]} :: 0 <= i && i < len(asA(e.Value, updateItemRequest).b) ==> asA(e.Value, updateItemRequest).b[i] == atloop(asA(e.Value, updateItemRequest).b[i]));
	}
	ensures found: err == nil ==> has0(lk(set, key)) && len(b) == len0(lk(set, key)) && (forall i int {b[i]} :: 0 <= i && i < len(b) ==> b[i] == at0(lk(set, key), i));
	ensures missing: err == ErrBlobNotFound ==> !has0(lk(set, key));
}
# Writing and deleting a blob: from then on that is what a reader sees; what is being saved is left alone, and saved before.
contract blobstore.NewLazySaver$2(l, ctx, set, key, b) (err) {
	requires l.cacheIdx != nil && l.cache != nil && l.store != nil;
	requires forall s string, t string {lk(s, t)} :: lkSet(lk(s, t)) == s && lkKey(lk(s, t)) == t;
	requires forall k string {has0(k)} :: k != lk(set, key) ==> has1(k) == has0(k) && len1(k) == len0(k);
	requires forall k string {has1(k)} :: k != lk(set, key) ==> has1(k) == has0(k) && len1(k) == len0(k);
	requires forall k string, i int {at1(k, i)} :: k != lk(set, key) ==> at1(k, i) == at0(k, i);
	requires has1(lk(set, key)) && len1(lk(set, key)) == len(b) && (forall i int {at1(lk(set, key), i)} :: 0 <= i && i < len(b) ==> at1(lk(set, key), i) == b[i]);
	modifies map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), all(byte);
	monitor LazySaver.mu {
		locked map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), others(byte);
		unlocked map(l.cacheIdx), all(list.Element), queued(l.cache), others(byte);
		enter req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && foreign(asA(e.Value, updateItemRequest).b) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		enter idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		enter newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		enter own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		enter last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (has0(k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (has0(k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == len0(k));
		enter bytes: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == at0(k, i);
		enter stored: forall k string {has(l.cacheIdx, k)} :: !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> has0(k)) && (has0(k) ==> stLen(l.store, lkSet(k), lkKey(k)) == len0(k));
		enter kept: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: !has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == at0(k, i);
		leave req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		leave idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		leave newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		leave own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		leave last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (has1(k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (has1(k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == len1(k));
		leave bytes: forall k string, i int {has(l.cacheIdx, k), at1(k, i)} :: has(l.cacheIdx, k) && has1(k) && 0 <= i && i < len1(k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == at1(k, i);
		leave stored: forall k string {has(l.cacheIdx, k)} :: !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> has1(k)) && (has1(k) ==> stLen(l.store, lkSet(k), lkKey(k)) == len1(k));
		leave kept: forall k string, i int {has(l.cacheIdx, k), at1(k, i)} :: !has(l.cacheIdx, k) && has1(k) && 0 <= i && i < len1(k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == at1(k, i);
		leave left: forall e *list.Element {atloop(queued(l.cache, e))} :: atloop(queued(l.cache, e)) && atloop(asA(e.Value, updateItemRequest).saving) ==> queued(l.cache, e) && e.Value == atloop(e.Value) && (forall i int {asA(e.Value, updateItemRequest).b[i]} :: 0 <= i && i < len(asA(e.Value, updateItemRequest).b) ==> asA(e.Value, updateItemRequest).b[i] == atloop(asA(e.Value, updateItemRequest).b[i]));
		leave order: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !atloop(queued(l.cache, e)) ==> !asA(e.Value, updateItemRequest).saving && asA(e.Value, updateItemRequest).set == set && asA(e.Value, updateItemRequest).key == key && (atloop(has(l.cacheIdx, lk(set, key))) ==> asA(e.Value, updateItemRequest).after == atloop(asA(l.cacheIdx[lk(set, key)].Value, updateItemRequest).done));
	}
	ensures accepted: err == nil;
}
contract blobstore.NewLazySaver$3(l, ctx, set, key) (err) {
	requires l.cacheIdx != nil && l.cache != nil && l.store != nil;
	requires forall s string, t string {lk(s, t)} :: lkSet(lk(s, t)) == s && lkKey(lk(s, t)) == t;
	requires forall k string {has0(k)} :: k != lk(set, key) ==> has1(k) == has0(k) && len1(k) == len0(k);
	requires forall k string {has1(k)} :: k != lk(set, key) ==> has1(k) == has0(k) && len1(k) == len0(k);
	requires forall k string, i int {at1(k, i)} :: k != lk(set, key) ==> at1(k, i) == at0(k, i);
	requires !has1(lk(set, key));
	modifies map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), all(byte);
	monitor LazySaver.mu {
		locked map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), others(byte);
		unlocked map(l.cacheIdx), all(list.Element), queued(l.cache), others(byte);
		enter req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && foreign(asA(e.Value, updateItemRequest).b) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		enter idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		enter newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		enter own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		enter last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (has0(k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (has0(k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == len0(k));
		enter bytes: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == at0(k, i);
		enter stored: forall k string {has(l.cacheIdx, k)} :: !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> has0(k)) && (has0(k) ==> stLen(l.store, lkSet(k), lkKey(k)) == len0(k));
		enter kept: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: !has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == at0(k, i);
		leave req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		leave idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		leave newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		leave own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		leave last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (has1(k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (has1(k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == len1(k));
		leave bytes: forall k string, i int {has(l.cacheIdx, k), at1(k, i)} :: has(l.cacheIdx, k) && has1(k) && 0 <= i && i < len1(k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == at1(k, i);
		leave stored: forall k string {has(l.cacheIdx, k)} :: !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> has1(k)) && (has1(k) ==> stLen(l.store, lkSet(k), lkKey(k)) == len1(k));
		leave kept: forall k string, i int {has(l.cacheIdx, k), at1(k, i)} :: !has(l.cacheIdx, k) && has1(k) && 0 <= i && i < len1(k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == at1(k, i);
		leave left: forall e *list.Element {atloop(queued(l.cache, e))} :: atloop(queued(l.cache, e)) && atloop(asA(e.Value, updateItemRequest).saving) ==> queued(l.cache, e) && e.Value == atloop(e.Value) && (forall i int {asA(e.Value, updateItemRequest).b[i]} :: 0 <= i && i < len(asA(e.Value, updateItemRequest).b) ==> asA(e.Value, updateItemRequest).b[i] == atloop(asA(e.Value, updateItemRequest).b[i]));
		leave order: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !atloop(queued(l.cache, e)) ==> !asA(e.Value, updateItemRequest).saving && asA(e.Value, updateItemRequest).set == set && asA(e.Value, updateItemRequest).key == key && (atloop(has(l.cacheIdx, lk(set, key))) ==> asA(e.Value, updateItemRequest).after == atloop(asA(l.cacheIdx[lk(set, key)].Value, updateItemRequest).done));
	}
	ensures accepted: err == nil;
}
# Handing the oldest entry to a saver: it is marked, and sent once.
contract blobstore.LazySaver.saveFront(l) (n) {
	noterm;
	requires l != nil && l.cacheIdx != nil && l.cache != nil && l.store != nil;
	modifies map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), all(byte);
	monitor LazySaver.mu {
		locked map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), others(byte);
		unlocked map(l.cacheIdx), all(list.Element), queued(l.cache), others(byte);
		enter req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && foreign(asA(e.Value, updateItemRequest).b) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		enter idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		enter newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		enter own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		enter last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (has0(k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (has0(k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == len0(k));
		enter bytes: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == at0(k, i);
		enter stored: forall k string {has(l.cacheIdx, k)} :: !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> has0(k)) && (has0(k) ==> stLen(l.store, lkSet(k), lkKey(k)) == len0(k));
		enter kept: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: !has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == at0(k, i);
		leave req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		leave idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		leave newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		leave own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		leave last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (has0(k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (has0(k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == len0(k));
		leave bytes: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == at0(k, i);
		leave stored: forall k string {has(l.cacheIdx, k)} :: !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> has0(k)) && (has0(k) ==> stLen(l.store, lkSet(k), lkKey(k)) == len0(k));
		leave kept: forall k string, i int {has(l.cacheIdx, k), at0(k, i)} :: !has(l.cacheIdx, k) && has0(k) && 0 <= i && i < len0(k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == at0(k, i);
		leave left: forall e *list.Element {atloop(queued(l.cache, e))} :: atloop(queued(l.cache, e)) && atloop(asA(e.Value, updateItemRequest).saving) ==> queued(l.cache, e) && e.Value == atloop(e.Value) && (forall i int {asA(e.Value, updateItemRequest).b[i]} :: 0 <= i && i < len(asA(e.Value, updateItemRequest).b) ==> asA(e.Value, updateItemRequest).b[i] == atloop(asA(e.Value, updateItemRequest).b[i]));
		leave handed: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && asA(e.Value, updateItemRequest).saving && !atloop(asA(e.Value, updateItemRequest).saving) && queued(l.cache, f) && !asA(f.Value, updateItemRequest).saving ==> place(e) < place(f);
		leave only: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && asA(e.Value, updateItemRequest).saving && !atloop(asA(e.Value, updateItemRequest).saving) && queued(l.cache, f) && asA(f.Value, updateItemRequest).saving && !atloop(asA(f.Value, updateItemRequest).saving) ==> e == f;
		leave same: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> atloop(queued(l.cache, e)) && asA(e.Value, updateItemRequest).b == atloop(asA(e.Value, updateItemRequest).b) && asA(e.Value, updateItemRequest).set == atloop(asA(e.Value, updateItemRequest).set) && asA(e.Value, updateItemRequest).key == atloop(asA(e.Value, updateItemRequest).key) && asA(e.Value, updateItemRequest).done == atloop(asA(e.Value, updateItemRequest).done) && asA(e.Value, updateItemRequest).after == atloop(asA(e.Value, updateItemRequest).after);
		leave all: forall e *list.Element {atloop(queued(l.cache, e))} :: atloop(queued(l.cache, e)) ==> queued(l.cache, e);
	}
	sends e: e != nil && atloop(queued(l.cache, e)) && atloop(asA(e.Value, updateItemRequest).saving);
	loop 0 {
		invariant e == nil || queued(l.cache, e);
		invariant forall x *list.Element {queued(l.cache, x)} :: queued(l.cache, x) && (e == nil || place(x) < place(e)) ==> asA(x.Value, updateItemRequest).saving;
	}
}
# What a reader must see, as state that writers change; the entry being handled, and whether the one before it is done.
ghost seen(q *list.List, k string) bool;
ghost seenLen(q *list.List, k string) int;
ghost seenAt(q *list.List, k string, i int) byte;
ghost cur(q *list.List) *list.Element;
ghost waited(q *list.List) bool;
ghost settled(q *list.List) bool;
# Saving entries: in order, the entry's bytes under its key; the entry is forgotten only when the store has it.
contract blobstore.LazySaver.startSaver(l, n) () {
	noterm;
	requires l != nil && l.cacheIdx != nil && l.cache != nil && l.store != nil;
	requires forall s string, t string {lk(s, t)} :: lkSet(lk(s, t)) == s && lkKey(lk(s, t)) == t;
	requires cur(l.cache) == nil;
	modifies settled(l.cache),  map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), all(byte), attempts(l.store), lastErr(l.store), triedAgain(l.store), dropFailed(l.store), cur(l.cache), waited(l.cache), seen(l.cache), seenLen(l.cache), seenAt(l.cache), maps(l.cacheIdx), *l;
	monitor LazySaver.mu {
		locked map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), others(byte), seen(l.cache), seenLen(l.cache), seenAt(l.cache);
		unlocked map(l.cacheIdx), all(list.Element), queued(l.cache), others(byte), seen(l.cache), seenLen(l.cache), seenAt(l.cache);
		enter req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		enter idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		enter newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		enter own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		enter last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (seen(l.cache, k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (seen(l.cache, k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == seenLen(l.cache, k));
		enter bytes: forall k string, i int {has(l.cacheIdx, k), seenAt(l.cache, k, i)} :: has(l.cacheIdx, k) && seen(l.cache, k) && 0 <= i && i < seenLen(l.cache, k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == seenAt(l.cache, k, i);
		enter stored: forall k string {has(l.cacheIdx, k)} :: !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> seen(l.cache, k)) && (seen(l.cache, k) ==> stLen(l.store, lkSet(k), lkKey(k)) == seenLen(l.cache, k));
		enter kept: forall k string, i int {has(l.cacheIdx, k), seenAt(l.cache, k, i)} :: !has(l.cacheIdx, k) && seen(l.cache, k) && 0 <= i && i < seenLen(l.cache, k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == seenAt(l.cache, k, i);
		leave req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		leave idx: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> queued(l.cache, l.cacheIdx[k]) && l.cacheIdx[k] != nil && isA(l.cacheIdx[k].Value, updateItemRequest) && k == lk(asA(l.cacheIdx[k].Value, updateItemRequest).set, asA(l.cacheIdx[k].Value, updateItemRequest).key);
		leave newest: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) && !asA(e.Value, updateItemRequest).saving ==> has(l.cacheIdx, lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(e.Value, updateItemRequest).set, asA(e.Value, updateItemRequest).key)] == e;
		leave own: forall e *list.Element, f *list.Element {queued(l.cache, e), queued(l.cache, f)} :: queued(l.cache, e) && queued(l.cache, f) && e != f ==> arr(asA(e.Value, updateItemRequest).b) == 0 || arr(asA(e.Value, updateItemRequest).b) != arr(asA(f.Value, updateItemRequest).b);
		leave last: forall k string {has(l.cacheIdx, k)} :: has(l.cacheIdx, k) ==> (seen(l.cache, k) <==> asA(l.cacheIdx[k].Value, updateItemRequest).b != nil) && (seen(l.cache, k) ==> len(asA(l.cacheIdx[k].Value, updateItemRequest).b) == seenLen(l.cache, k));
		leave bytes: forall k string, i int {has(l.cacheIdx, k), seenAt(l.cache, k, i)} :: has(l.cacheIdx, k) && seen(l.cache, k) && 0 <= i && i < seenLen(l.cache, k) ==> asA(l.cacheIdx[k].Value, updateItemRequest).b[i] == seenAt(l.cache, k, i);
		leave stored: forall k string {has(l.cacheIdx, k)} :: (cur(l.cache) == nil || lastErr(l.store) == nil) && !has(l.cacheIdx, k) ==> (stHas(l.store, lkSet(k), lkKey(k)) <==> seen(l.cache, k)) && (seen(l.cache, k) ==> stLen(l.store, lkSet(k), lkKey(k)) == seenLen(l.cache, k));
		leave kept: forall k string, i int {has(l.cacheIdx, k), seenAt(l.cache, k, i)} :: (cur(l.cache) == nil || lastErr(l.store) == nil) && !has(l.cacheIdx, k) && seen(l.cache, k) && 0 <= i && i < seenLen(l.cache, k) ==> stAt(l.store, lkSet(k), lkKey(k), i) == seenAt(l.cache, k, i);
		leave left: forall e *list.Element {atloop(queued(l.cache, e))} :: atloop(queued(l.cache, e)) && atloop(asA(e.Value, updateItemRequest).saving) && e != cur(l.cache) ==> queued(l.cache, e) && e.Value == atloop(e.Value) && (forall i int {asA(e.Value, updateItemRequest).b[i]} :: 0 <= i && i < len(asA(e.Value, updateItemRequest).b) ==> asA(e.Value, updateItemRequest).b[i] == atloop(asA(e.Value, updateItemRequest).b[i]));
		rely mine: cur(l.cache) != nil && atloop(queued(l.cache, cur(l.cache))) && atloop(asA(cur(l.cache).Value, updateItemRequest).saving) ==> queued(l.cache, cur(l.cache)) && cur(l.cache).Value == atloop(cur(l.cache).Value) && (forall i int {asA(cur(l.cache).Value, updateItemRequest).b[i]} :: 0 <= i && i < len(asA(cur(l.cache).Value, updateItemRequest).b) ==> asA(cur(l.cache).Value, updateItemRequest).b[i] == atloop(asA(cur(l.cache).Value, updateItemRequest).b[i]));
		rely store: cur(l.cache) != nil && queued(l.cache, cur(l.cache)) && has(l.cacheIdx, lk(asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key)) && l.cacheIdx[lk(asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key)] == cur(l.cache) ==> stHas(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key) == atloop(stHas(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key)) && stLen(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key) == atloop(stLen(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key)) && (forall i int {stAt(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key, i)} :: stAt(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key, i) == atloop(stAt(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key, i)));
		leave gone: cur(l.cache) != nil ==> !queued(l.cache, cur(l.cache));
		leave rest: forall e *list.Element {atloop(queued(l.cache, e))} :: atloop(queued(l.cache, e)) && e != cur(l.cache) ==> queued(l.cache, e) && e.Value == atloop(e.Value);
	}
	receives e modifies cur(l.cache), waited(l.cache), settled(l.cache): cur(l.cache) == e && e != nil && queued(l.cache, e) && isA(e.Value, updateItemRequest) && !settled(l.cache) && asA(e.Value, updateItemRequest).saving && asA(e.Value, updateItemRequest).done != nil && allocated(asA(e.Value, updateItemRequest).b) && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0);
	awaits c modifies waited(l.cache): c == asA(cur(l.cache).Value, updateItemRequest).after ==> waited(l.cache);
	closed c modifies settled(l.cache): settled(l.cache);
	closes c: c == asA(cur(l.cache).Value, updateItemRequest).done && queued(l.cache, cur(l.cache)) && (lastErr(l.store) == nil ==> (stHas(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key) <==> asA(cur(l.cache).Value, updateItemRequest).b != nil) && (asA(cur(l.cache).Value, updateItemRequest).b != nil ==> stLen(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key) == len(asA(cur(l.cache).Value, updateItemRequest).b) && (forall i int {stAt(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key, i)} :: 0 <= i && i < len(asA(cur(l.cache).Value, updateItemRequest).b) ==> stAt(l.store, asA(cur(l.cache).Value, updateItemRequest).set, asA(cur(l.cache).Value, updateItemRequest).key, i) == asA(cur(l.cache).Value, updateItemRequest).b[i])));
	calls blobstore.Store.Set: s == l.store && cur(l.cache) != nil && queued(l.cache, cur(l.cache)) && set == asA(cur(l.cache).Value, updateItemRequest).set && key == asA(cur(l.cache).Value, updateItemRequest).key && (asA(cur(l.cache).Value, updateItemRequest).after == nil || waited(l.cache));
	calls blobstore.Store.Delete: s == l.store && cur(l.cache) != nil && queued(l.cache, cur(l.cache)) && set == asA(cur(l.cache).Value, updateItemRequest).set && key == asA(cur(l.cache).Value, updateItemRequest).key && (asA(cur(l.cache).Value, updateItemRequest).after == nil || waited(l.cache));
	loop 0 {
		invariant l.cache == old(l.cache) && l.cacheIdx == old(l.cacheIdx) && l.store == old(l.store);
		invariant settled: cur(l.cache) == nil || settled(l.cache);
	}
}
# The loop that hands out entries ends, closing the savers' channel, only once every entry is with a saver.
contract blobstore.LazySaver.requestHandler(l) () {
	noterm;
	requires l != nil && l.cacheIdx != nil && l.cache != nil && l.store != nil;
	modifies map(l.cacheIdx), all(list.Element), queued(l.cache), stHas(l.store), stLen(l.store), stAt(l.store), all(byte), maps(l.cacheIdx);
	monitor LazySaver.mu {
		locked all(list.Element), queued(l.cache), map(l.cacheIdx), stHas(l.store), stLen(l.store), stAt(l.store), others(byte);
		unlocked map(l.cacheIdx), all(list.Element), queued(l.cache), others(byte);
		enter req: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> e != nil && (arr(asA(e.Value, updateItemRequest).b) == 0 ==> len(asA(e.Value, updateItemRequest).b) == 0) && allocated(asA(e.Value, updateItemRequest).b) && isA(e.Value, updateItemRequest) && asA(e.Value, updateItemRequest).done != nil;
		leave same: forall e *list.Element {queued(l.cache, e)} :: queued(l.cache, e) ==> atloop(queued(l.cache, e)) && e.Value == atloop(e.Value);
		leave kept: forall e *list.Element {atloop(queued(l.cache, e))} :: atloop(queued(l.cache, e)) ==> queued(l.cache, e);
	}
	closes c: atloop(l.shuttingDown) && (forall e *list.Element {atloop(queued(l.cache, e))} :: atloop(queued(l.cache, e)) ==> atloop(asA(e.Value, updateItemRequest).saving));
	loop 1 {
		invariant e == nil || queued(l.cache, e);
		invariant forall x *list.Element {queued(l.cache, x)} :: queued(l.cache, x) && (e == nil || place(x) < place(e)) ==> asA(x.Value, updateItemRequest).saving;
	}
	loop 2 {
		invariant next == nil || queued(l.cache, next);
	}
}
