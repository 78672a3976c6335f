package memstore;

# The in-memory store, against the map it keeps. Blobs have no spare room that a caller could write into.
pred memOK(m *MemBlobStore) {
	m.blobs != nil && m.reads != nil && m.writes != nil && m.deletes != nil && m.reads != m.writes && m.reads != m.deletes && m.writes != m.deletes &&
	(forall k blobKey {has(m.blobs, k)} :: has(m.blobs, k) ==> cap(m.blobs[k]) == len(m.blobs[k]))
}
contract memstore.NewMemStore() (m) {
	ensures ok: memOK(m) && fresh(m);
	ensures empty: forall k blobKey {has(m.blobs, k)} :: !has(m.blobs, k);
}
contract memstore.MemBlobStore.Get(m, ctx, set, key) (val, err) {
	requires memOK(m);
	modifies map(m.reads);
	ensures memOK(m);
	ensures found: forall k blobKey {has(m.blobs, k)} :: k.set == set && k.key == key ==> (has(m.blobs, k) <==> err == nil) && (err == nil ==> val == m.blobs[k]);
	ensures exact: err == nil ==> cap(val) == len(val);
	ensures missing: err != nil ==> err == blobstore.ErrBlobNotFound && val == nil;
}
contract memstore.MemBlobStore.Set(m, ctx, set, key, val) (err) {
	requires memOK(m);
	modifies map(m.blobs), map(m.writes);
	ensures memOK(m);
	ensures limit: len(val) > blobstore.MaxSize <==> err == blobstore.ErrBlobTooBig;
	ensures accepted: err == nil <==> len(val) <= blobstore.MaxSize && len(key) >= 2;
	ensures stored: forall k blobKey {has(m.blobs, k)} :: err == nil && k.set == set && k.key == key ==> has(m.blobs, k) && len(m.blobs[k]) == len(val) && (forall i int :: 0 <= i && i < len(val) ==> m.blobs[k][i] == val[i]);
	ensures copied: forall k blobKey {has(m.blobs, k)} :: err == nil && k.set == set && k.key == key ==> fresh(m.blobs[k]);
	ensures others: forall k blobKey {has(m.blobs, k)} :: !(k.set == set && k.key == key) ==> (has(m.blobs, k) <==> old(has(m.blobs, k))) && m.blobs[k] == old(m.blobs[k]);
	ensures refused: err != nil ==> mapUnchanged(m.blobs);
}
contract memstore.MemBlobStore.Delete(m, ctx, set, key) (err) {
	requires memOK(m);
	modifies map(m.blobs), map(m.deletes);
	ensures memOK(m);
	ensures ok: err == nil;
	ensures gone: forall k blobKey {has(m.blobs, k)} :: k.set == set && k.key == key ==> !has(m.blobs, k);
	ensures others: forall k blobKey {has(m.blobs, k)} :: !(k.set == set && k.key == key) ==> (has(m.blobs, k) <==> old(has(m.blobs, k))) && m.blobs[k] == old(m.blobs[k]);
}
