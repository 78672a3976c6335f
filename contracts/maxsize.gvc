package blobstore;

// Decimal numbers, of which only their difference matters here.
uf itoa(n int) string injective;
extern strconv.Itoa(n) (s) { ensures s == itoa(n); }
pred isExt(k string, key string, i int) { k == key + "+" + itoa(i) }

# The first three bytes of a written number, as the varint format defines them.
pred uvarintIs(b []byte, n int, size int) {
	(size == 1 <==> n < 128) && (size == 2 <==> 128 <= n && n < 16384) && (size == 3 <==> 16384 <= n) && 0 <= n && n < 2097152 && size <= len(b) &&
	(size == 1 ==> b[0] == n) && (size == 2 ==> b[0] == n % 128 + 128 && b[1] == n / 128) &&
	(size == 3 ==> b[0] == n % 128 + 128 && b[1] == (n / 128) % 128 + 128 && b[2] == n / 16384)
}
extern binary.Uvarint(b) (n, size) {
	ensures size <= len(b);
	ensures len(b) >= 1 && b[0] < 128 ==> n == b[0] && size == 1;
	ensures len(b) >= 2 && b[0] >= 128 && b[1] < 128 ==> n == b[0] - 128 + b[1] * 128 && size == 2;
	ensures len(b) >= 3 && b[0] >= 128 && b[1] >= 128 && b[2] < 128 ==> n == b[0] - 128 + (b[1] - 128) * 128 + b[2] * 16384 && size == 3;
}
extern binary.PutUvarint(b, n) (size) {
	requires n < 2097152 && len(b) >= 3;
	modifies elems(b);
	ensures uvarintIs(b, n, size);
}

// The blob under consideration: its length and bytes; the part size, the header and the number of further parts it was written with.
uf wLen() int;
uf wAt(i int) byte;
uf wSize() int;
uf wHead() int;
uf wMore() int;
pred written() {
	wLen() >= 0 && wSize() >= 3 && 0 <= wMore() && wMore() < 65535 && 1 <= wHead() && wHead() <= 3 &&
	(wHead() == 1 <==> wMore() < 128) && (wHead() == 2 <==> 128 <= wMore() && wMore() < 16384) &&
	(wMore() + 1) * wSize() >= wHead() + wLen()
}
pred partLen(l int, i int) { l == ite((i + 1) * wSize() <= wHead() + wLen(), wSize(), ite(i * wSize() <= wHead() + wLen(), wHead() + wLen() - i * wSize(), 0)) }
pred first(st Store, set string, key string) {
	stHas(st, set, key) && partLen(stLen(st, set, key), 0) &&
	(wHead() == 1 ==> stAt(st, set, key, 0) == wMore()) &&
	(wHead() == 2 ==> stAt(st, set, key, 0) == wMore() % 128 + 128 && stAt(st, set, key, 1) == wMore() / 128) &&
	(wHead() == 3 ==> stAt(st, set, key, 0) == wMore() % 128 + 128 && stAt(st, set, key, 1) == (wMore() / 128) % 128 + 128 && stAt(st, set, key, 2) == wMore() / 16384) &&
	(forall j int {stAt(st, set, key, j)} :: wHead() <= j && j < stLen(st, set, key) ==> stAt(st, set, key, j) == wAt(j - wHead()))
}
pred laid(st Store, set string, key string) {
	first(st, set, key) && (forall i int {itoa(i)} :: 0 <= i && i < wMore() ==> partAt(st, set, key + "+" + itoa(i), i + 1))
}
pred partAt(st Store, set string, k string, i int) {
	stHas(st, set, k) && partLen(stLen(st, set, k), i) &&
	(forall j int {stAt(st, set, k, j)} :: 0 <= j && j < stLen(st, set, k) ==> stAt(st, set, k, j) == wAt(i * wSize() + j - wHead()))
}

contract blobstore.MaxSizeStore.Get(r, ctx, set, key) (val, err) {
	requires r.parts != nil && r.running != nil;
	requires written();
	requires r.maxsize >= 1024;
	modifies attempts(r.store), lastErr(r.store), triedAgain(r.store), map(r.parts), map(r.running), *r;
	loop 0 {
		invariant laid(r.store, set, key) ==> int(n) == wMore();
		invariant laid(r.store, set, key) ==> len(b) == ite((i + 1) * wSize() <= wHead() + wLen(), (i + 1) * wSize() - wHead(), wLen());
		invariant laid(r.store, set, key) ==> (forall j int {b[j]} :: 0 <= j && j < len(b) ==> b[j] == wAt(j));
		invariant fresh(b) || cap(b) == len(b);
		invariant i >= 0;
	}
	ensures whole: err == nil && laid(r.store, set, key) ==> len(val) == wLen();
	ensures bytes: err == nil && laid(r.store, set, key) ==> (forall j int {val[j]} :: 0 <= j && j < len(val) ==> val[j] == wAt(j));
}

# Where a write fits, it is cut into parts of the largest size, and the header says how many follow.
pred mapKeyIs(m string, set string, key string) { m == itoa(len(set)) + "/" + set + "/" + key }
pred untouched(st Store, set string, key string) {
	(forall k string {stHas(st, set, k)} :: k != key && (forall x int {itoa(x)} :: x >= 0 ==> k != key + "+" + itoa(x)) ==> (stHas(st, set, k) <==> old(stHas(st, set, k)))) &&
	(forall k string {stLen(st, set, k)} :: k != key && (forall x int {itoa(x)} :: x >= 0 ==> k != key + "+" + itoa(x)) ==> stLen(st, set, k) == old(stLen(st, set, k))) &&
	(forall k string, j int {stAt(st, set, k, j)} :: k != key && (forall x int {itoa(x)} :: x >= 0 ==> k != key + "+" + itoa(x)) ==> stAt(st, set, k, j) == old(stAt(st, set, k, j)))
}
pred inPlace(r *MaxSizeStore, b []byte) {
	wLen() == len(b) && wSize() == r.maxsize && (forall j int {b[j]} :: 0 <= j && j < len(b) ==> b[j] == wAt(j))
}
contract blobstore.MaxSizeStore.Set(r, ctx, set, key, b) (err) {
	requires r.parts != nil && r.running != nil;
	requires r.maxsize >= 1024;
	requires inPlace(r, b);
	requires wMore() == (len(b) + 2 + r.maxsize) / r.maxsize - 1;
	requires (wHead() == 1 <==> wMore() < 128) && (wHead() == 2 <==> 128 <= wMore() && wMore() < 16384) && 1 <= wHead() && wHead() <= 3;
	modifies attempts(r.store), lastErr(r.store), triedAgain(r.store), map(r.parts), map(r.running), *r, dropFailed(r.store), stHas(r.store, set), stLen(r.store, set), stAt(r.store, set);
	loop 0 {
		invariant i >= total;
		invariant untouched(r.store, set, key);
		invariant gone: !dropFailed(r.store) ==> (forall x int {itoa(x)} :: total - 1 <= x && x < i - 1 ==> !stHas(r.store, set, key + "+" + itoa(x)));
		invariant dropFailed(r.store) || !old(dropFailed(r.store));
	}
	loop 1 {
		invariant 0 <= i && i <= total;
		invariant untouched(r.store, set, key);
		invariant len(b2) == ite(i * r.maxsize <= wHead() + wLen(), wHead() + wLen() - i * r.maxsize, 0);
		invariant rest: forall j int {b2[j]} :: 0 <= j && j < len(b2) && i * r.maxsize + j >= wHead() ==> b2[j] == wAt(i * r.maxsize + j - wHead());
		invariant head: i == 0 ==> (wHead() == 1 ==> b2[0] == wMore()) && (wHead() == 2 ==> b2[0] == wMore() % 128 + 128 && b2[1] == wMore() / 128) &&
			(wHead() == 3 ==> b2[0] == wMore() % 128 + 128 && b2[1] == (wMore() / 128) % 128 + 128 && b2[2] == wMore() / 16384);
		invariant one: i > 0 ==> first(r.store, set, key);
		invariant moreHas: forall x int {itoa(x)} :: 0 <= x && x < i - 1 ==> stHas(r.store, set, key + "+" + itoa(x)) && partLen(stLen(r.store, set, key + "+" + itoa(x)), x + 1);
		invariant moreAt: forall x int, j int {stAt(r.store, set, key + "+" + itoa(x), j)} :: 0 <= x && x < i - 1 && 0 <= j && j < stLen(r.store, set, key + "+" + itoa(x)) ==> stAt(r.store, set, key + "+" + itoa(x), j) == wAt((x + 1) * wSize() + j - wHead());
		invariant fresh(b2);
		invariant gone: !dropFailed(r.store) ==> (forall x int {itoa(x)} :: total - 1 <= x && x < prev - 1 ==> !stHas(r.store, set, key + "+" + itoa(x)));
	}
	ensures refused: wMore() + 1 >= 65535 ==> err == ErrBlobTooBig && attempts(r.store) == old(attempts(r.store));
	ensures laid: err == nil ==> laid(r.store, set, key) && written();
	ensures stale: err == nil && !dropFailed(r.store) && old(has(r.parts, itoa(len(set)) + "/" + set + "/" + key)) ==> (forall x int {itoa(x)} :: wMore() <= x && x < old(r.parts[itoa(len(set)) + "/" + set + "/" + key]) - 1 ==> !stHas(r.store, set, key + "+" + itoa(x)));
	ensures others: untouched(r.store, set, key);
	ensures known: err == nil ==> forall m string {has(r.parts, m)} :: m == itoa(len(set)) + "/" + set + "/" + key ==> (has(r.parts, m) <==> wMore() > 0) && (wMore() > 0 ==> r.parts[m] == wMore() + 1);
}

contract blobstore.MaxSizeStore.Delete(r, ctx, set, key) (err) {
	requires r.parts != nil && r.running != nil;
	requires r.maxsize >= 1024;
	requires written() && wSize() >= 1024;
	requires laid(r.store, set, key) || !stHas(r.store, set, key);
	requires forall m string {has(r.parts, m)} :: m == itoa(len(set)) + "/" + set + "/" + key && has(r.parts, m) ==> 1 <= r.parts[m] && r.parts[m] <= 65535;
	modifies attempts(r.store), lastErr(r.store), triedAgain(r.store), dropFailed(r.store), map(r.parts), map(r.running), *r, stHas(r.store, set), stLen(r.store, set), stAt(r.store, set);
	loop 0 {
		invariant untouched(r.store, set, key);
		invariant i < int(n);
		invariant gone: forall x int {itoa(x)} :: x >= 0 && i <= x && x < int(n) - 1 ==> !stHas(r.store, set, key + "+" + itoa(x));
		invariant whole: i < 0 && int(n) > 0 ==> !stHas(r.store, set, key);
	}
	ensures others: untouched(r.store, set, key);
	ensures first: err == nil ==> !stHas(r.store, set, key);
	ensures more: err == nil && (old(has(r.parts, itoa(len(set)) + "/" + set + "/" + key)) ==> old(r.parts[itoa(len(set)) + "/" + set + "/" + key]) == wMore() + 1) && old(laid(r.store, set, key)) ==>
		(forall x int {itoa(x)} :: 0 <= x && x < wMore() ==> !stHas(r.store, set, key + "+" + itoa(x)));
	ensures forgotten: err == nil ==> forall m string {has(r.parts, m)} :: m == itoa(len(set)) + "/" + set + "/" + key ==> !has(r.parts, m) || !old(has(r.parts, m));
}
contract blobstore.NewMaxSizeStore(store, maxSize) (r, err) {
	ensures limit: err == nil <==> maxSize >= 1024;
	ensures ready: err == nil ==> r != nil && r.store == store && r.maxsize == maxSize && r.parts != nil && r.running != nil;
	ensures unknown: err == nil ==> forall m string {has(r.parts, m)} :: !has(r.parts, m);
}
