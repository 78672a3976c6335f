package blobstore;

// What a store holds, as specification state: presence, length and bytes of the blob of each set and key.
ghost stHas(s Store, set string, key string) bool;
ghost stLen(s Store, set string, key string) int;
ghost stAt(s Store, set string, key string, i int) byte;
// How the operations on a store went: their number, the last one's error,
// whether one was attempted although the one before failed with a permanent error, and whether a deletion failed.
ghost attempts(s Store) int;
ghost lastErr(s Store) error;
ghost triedAgain(s Store) bool;
ghost dropFailed(s Store) bool;
uf isPerm(err error) bool;

# An error of a store is never the marker the back-off library itself uses.
pred plainErr(err error) { !isA(err, *backoff.PermanentError) }
pred attempted(a int, o int, e error, oe error, t bool, ot bool, err error) {
	plainErr(err) && a == o + 1 && e == err && (t <==> (ot || (o > 0 && oe != nil && isPerm(oe))))
}

// The interface, as every store in the repository implements it.
extern blobstore.Store.Get(s, ctx, set, key) (val, err) {
	modifies attempts(s), lastErr(s), triedAgain(s);
	ensures attempted(attempts(s), old(attempts(s)), lastErr(s), old(lastErr(s)), triedAgain(s), old(triedAgain(s)), err);
	ensures err == nil ==> stHas(s, set, key) && len(val) == stLen(s, set, key);
	ensures err == nil ==> forall i int :: 0 <= i && i < len(val) ==> val[i] == stAt(s, set, key, i);
	ensures err == nil ==> fresh(val) || cap(val) == len(val);
	ensures err == ErrBlobNotFound ==> !stHas(s, set, key);
}
extern blobstore.Store.Set(s, ctx, set, key, val) (err) {
	modifies attempts(s), lastErr(s), triedAgain(s), stHas(s, set, key), stLen(s, set, key), stAt(s, set, key);
	ensures attempted(attempts(s), old(attempts(s)), lastErr(s), old(lastErr(s)), triedAgain(s), old(triedAgain(s)), err);
	ensures err == nil ==> stHas(s, set, key) && stLen(s, set, key) == len(val);
	ensures err == nil ==> forall i int {stAt(s, set, key, i)} :: 0 <= i && i < len(val) ==> stAt(s, set, key, i) == val[i];
}
extern blobstore.Store.Delete(s, ctx, set, key) (err) {
	modifies attempts(s), lastErr(s), triedAgain(s), dropFailed(s), stHas(s, set, key), stLen(s, set, key), stAt(s, set, key);
	ensures attempted(attempts(s), old(attempts(s)), lastErr(s), old(lastErr(s)), triedAgain(s), old(triedAgain(s)), err);
	ensures err == nil ==> !stHas(s, set, key);
	ensures dropFailed(s) <==> (old(dropFailed(s)) || err != nil);
}

// Binding a store to a set addresses that set and that key, and nothing else.
contract blobstore.storeWithSet.Get(s, ctx, key) (val, err) {
	modifies attempts(s.store), lastErr(s.store), triedAgain(s.store);
	ensures one: attempts(s.store) == old(attempts(s.store)) + 1 && lastErr(s.store) == err;
	ensures got: err == nil ==> stHas(s.store, s.set, key) && len(val) == stLen(s.store, s.set, key);
	ensures bytes: err == nil ==> forall i int :: 0 <= i && i < len(val) ==> val[i] == stAt(s.store, s.set, key, i);
	ensures err == nil ==> fresh(val) || cap(val) == len(val);
	ensures missing: err == ErrBlobNotFound ==> !stHas(s.store, s.set, key);
}
contract blobstore.storeWithSet.Set(s, ctx, key, val) (err) {
	modifies attempts(s.store), lastErr(s.store), triedAgain(s.store), stHas(s.store, s.set, key), stLen(s.store, s.set, key), stAt(s.store, s.set, key);
	ensures one: attempts(s.store) == old(attempts(s.store)) + 1 && lastErr(s.store) == err;
	ensures stored: err == nil ==> stHas(s.store, s.set, key) && stLen(s.store, s.set, key) == len(val);
	ensures bytes: err == nil ==> forall i int :: 0 <= i && i < len(val) ==> stAt(s.store, s.set, key, i) == val[i];
}
contract blobstore.storeWithSet.Delete(s, ctx, key) (err) {
	modifies attempts(s.store), lastErr(s.store), triedAgain(s.store), dropFailed(s.store), stHas(s.store, s.set, key), stLen(s.store, s.set, key), stAt(s.store, s.set, key);
	ensures one: attempts(s.store) == old(attempts(s.store)) + 1 && lastErr(s.store) == err;
	ensures gone: err == nil ==> !stHas(s.store, s.set, key);
}
contract blobstore.storeWithSet.Store(s) (st) {
	ensures same: st == s.store;
}
contract blobstore.StoreWithSet(s, set) (w) {
	ensures bound: isA(w, storeWithSet) && asA(w, storeWithSet).store == s && asA(w, storeWithSet).set == set;
}

// The back-off library, verified from its source.
pred usable(b backoff.BackOff) { isA(b, *backoff.backOffContext) ==> asA(b, *backoff.backOffContext) != nil }
extern blobstore.retryStoreOptions.get() (b) { ensures usable(b); }
extern blobstore.retryStoreOptions.set() (b) { ensures usable(b); }
extern blobstore.retryStoreOptions.del() (b) { ensures usable(b); }
extern context.Background() (c) { ensures c != nil; }
extern time.NewTimer(d) (t) { ensures t != nil; }
contract backoff.WithContext(b, ctx) (r) {
	requires some: ctx != nil;
	requires usable: usable(b);
	ensures wrapped: isA(r, *backoff.backOffContext) && asA(r, *backoff.backOffContext) != nil && asA(r, *backoff.backOffContext).ctx == ctx;
}

// Retries. The precondition on the counters only says from where the attempts are observed.
pred watching(r *RetryStore) {
	attempts(r.store) == 0 && !triedAgain(r.store) && (forall e error {isPerm(e)} :: isPerm(e) <==> has(r.permanent, e))
}
contract blobstore.RetryStore.Get(r, ctx, set, key) (val, err) {
	requires ctx != nil;
	requires watching(r);
	modifies attempts(r.store), lastErr(r.store), triedAgain(r.store);
	loop backoff.RetryNotify 0 {
		invariant attempts(r.store) >= 0 && !triedAgain(r.store);
		invariant attempts(r.store) > 0 ==> lastErr(r.store) != nil && !isPerm(lastErr(r.store));
	}
	ensures got: err == nil ==> stHas(r.store, set, key) && len(val) == stLen(r.store, set, key);
	ensures bytes: err == nil ==> forall i int :: 0 <= i && i < len(val) ==> val[i] == stAt(r.store, set, key, i);
	ensures tried: attempts(r.store) >= 1;
	ensures result: err == lastErr(r.store);
	ensures permanent: !triedAgain(r.store);
}
contract blobstore.RetryStore.Set(r, ctx, set, key, b) (err) {
	requires ctx != nil;
	requires watching(r);
	modifies attempts(r.store), lastErr(r.store), triedAgain(r.store), stHas(r.store, set, key), stLen(r.store, set, key), stAt(r.store, set, key);
	loop backoff.RetryNotify 0 {
		invariant attempts(r.store) >= 0 && !triedAgain(r.store);
		invariant attempts(r.store) > 0 ==> lastErr(r.store) != nil && !isPerm(lastErr(r.store));
	}
	ensures stored: err == nil ==> stHas(r.store, set, key) && stLen(r.store, set, key) == len(b);
	ensures bytes: err == nil ==> forall i int :: 0 <= i && i < len(b) ==> stAt(r.store, set, key, i) == b[i];
	ensures tried: attempts(r.store) >= 1;
	ensures result: err == lastErr(r.store);
	ensures permanent: !triedAgain(r.store);
}
contract blobstore.RetryStore.Delete(r, ctx, set, key) (err) {
	requires ctx != nil;
	requires watching(r);
	modifies attempts(r.store), lastErr(r.store), triedAgain(r.store), dropFailed(r.store), stHas(r.store, set, key), stLen(r.store, set, key), stAt(r.store, set, key);
	loop backoff.RetryNotify 0 {
		invariant attempts(r.store) >= 0 && !triedAgain(r.store);
		invariant attempts(r.store) > 0 ==> lastErr(r.store) != nil && !isPerm(lastErr(r.store));
	}
	ensures gone: err == nil ==> !stHas(r.store, set, key);
	ensures tried: attempts(r.store) >= 1;
	ensures result: err == lastErr(r.store);
	ensures permanent: !triedAgain(r.store);
}

# Options: each changes the options it is given and nothing else, so that no store's settings reach another.
extern blobstore.RetryStoreOption(o) (err) {
	modifies *o;
}
contract blobstore.RetryOpt.Backoff$1(get, set, del, o) (err) {
	requires o != nil;
	modifies *o;
	ensures ok: err == nil;
	ensures kept: o.permanent == old(o.permanent) && o.opTimeout == old(o.opTimeout);
	ensures unset: (get == nil ==> o.get == old(o.get)) && (set == nil ==> o.set == old(o.set)) && (del == nil ==> o.del == old(o.del));
	ensures put: (get != nil ==> o.get == get) && (set != nil ==> o.set == set) && (del != nil ==> o.del == del);
}
contract blobstore.RetryOpt.PermanentErr$1(errs, o) (err) {
	requires o != nil;
	modifies *o;
	loop 0 {
		invariant copied: forall k error {has(perm, k)} :: has(perm, k) <==> has($seen, k);
		invariant fresh(perm) && perm != nil && o.permanent == old(o.permanent) && mapUnchanged(o.permanent);
	}
	loop 1 {
		invariant added: forall k error {has(perm, k)} :: has(perm, k) <==> (old(has(o.permanent, k)) || (k != nil && (exists j int {errs[j]} :: 0 <= j && j < $i && errs[j] == k)));
		invariant fresh(perm) && perm != nil && o.permanent == old(o.permanent) && mapUnchanged(o.permanent);
	}
	ensures ok: err == nil;
	ensures added: forall k error {has(o.permanent, k)} :: has(o.permanent, k) <==> (old(has(o.permanent, k)) || (k != nil && (exists j int {errs[j]} :: 0 <= j && j < len(errs) && errs[j] == k)));
	ensures others: o.opTimeout == old(o.opTimeout) && o.get == old(o.get) && o.set == old(o.set) && o.del == old(o.del);
}
contract blobstore.RetryOpt.OpTimeout$1(duration, o) (err) {
	requires o != nil;
	modifies *o;
	ensures put: err == nil && o.opTimeout == duration;
	ensures others: o.permanent == old(o.permanent) && o.get == old(o.get) && o.set == old(o.set) && o.del == old(o.del);
}
contract blobstore.NewRetryStore(store, opts) (r, err) {
	requires forall k int {opts[k]} :: 0 <= k && k < len(opts) ==> opts[k] != nil;
	loop 0 { invariant r.store == store && ($i == 0 ==> r.permanent == defaultRetryStoreOptions.permanent); }
	ensures either: (err == nil) <==> (r != nil);
	ensures bound: err == nil ==> r.store == store && fresh(r);
	ensures defaults: len(opts) == 0 ==> r.permanent == defaultRetryStoreOptions.permanent;
}
