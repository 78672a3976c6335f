package api;

# The token the security middleware put into the context, and the parts of a comma separated claim.
uf tokenOf(ctx context.Context) *jwt.Token;
uf parts(s string) []string;
extern jwt.ContextJWT(ctx) (t) {
  ensures token: t == tokenOf(ctx);
}
extern jwt.ErrJWTError(message, keyvals) (err) {
  ensures some: err != nil;
}
extern strings.Split(s, sep) (r) {
  ensures parts: sep == "," ==> r == parts(s);
}

pred listed(claim string, id rankdb.ListID) { exists k int {parts(claim)[k]} :: 0 <= k < len(parts(claim)) && trimmed(parts(claim)[k]) == id }
pred listedElem(claim string, id rankdb.ElementID) { exists k int {parts(claim)[k]} :: 0 <= k < len(parts(claim)) && isDecimal(trimmed(parts(claim)[k])) && decimal(trimmed(parts(claim)[k])) == id }

# The claims of a token.
pred restricted(t *jwt.Token, claim string) { isA(t.Claims, jwt.MapClaims) && has(asA(t.Claims, jwt.MapClaims), claim) && isA(asA(t.Claims, jwt.MapClaims)[claim], string) }

contract api.HasAccessToList(ctx, ids) (err) {
  ensures open: tokenOf(ctx) == nil ==> err == nil;
  ensures shape: tokenOf(ctx) != nil && !isA(tokenOf(ctx).Claims, jwt.MapClaims) ==> err != nil;
  ensures free: tokenOf(ctx) != nil && isA(tokenOf(ctx).Claims, jwt.MapClaims) && !restricted(tokenOf(ctx), "only_lists") ==> err == nil;
  ensures only: tokenOf(ctx) != nil && restricted(tokenOf(ctx), "only_lists") ==> (err == nil <==> (forall k int {ids[k]} :: 0 <= k < len(ids) ==> listed(asA(asA(tokenOf(ctx).Claims, jwt.MapClaims)["only_lists"], string), ids[k])));
  loop 0 { invariant done: forall k int {ids[k]} :: 0 <= k < $i ==> listed(val, ids[k]); }
  loop 1 { invariant none: !ok && (forall k int {lists[k]} :: 0 <= k < $i ==> trimmed(lists[k]) != id); }
}

contract api.HasAccessToElement(ctx, ids) (err) {
  ensures open: tokenOf(ctx) == nil ==> err == nil;
  ensures shape: tokenOf(ctx) != nil && !isA(tokenOf(ctx).Claims, jwt.MapClaims) ==> err != nil;
  ensures free: tokenOf(ctx) != nil && isA(tokenOf(ctx).Claims, jwt.MapClaims) && !restricted(tokenOf(ctx), "only_elements") ==> err == nil;
  ensures only: tokenOf(ctx) != nil && restricted(tokenOf(ctx), "only_elements") ==> (err == nil <==> (forall k int {ids[k]} :: 0 <= k < len(ids) ==> listedElem(asA(asA(tokenOf(ctx).Claims, jwt.MapClaims)["only_elements"], string), ids[k])));
  loop 0 { invariant done: forall k int {ids[k]} :: 0 <= k < $i ==> listedElem(val, ids[k]); }
  loop 1 { invariant none: !ok && (forall k int {lists[k]} :: 0 <= k < $i ==> !(isDecimal(trimmed(lists[k])) && decimal(trimmed(lists[k])) == id)); }
}
