package rankdb;

pred alnum(c uint8) { (48 <= c && c <= 57) || (65 <= c && c <= 90) || (97 <= c && c <= 122) }

# crypto/rand.Read fills the whole slice and never returns an error (documented since Go 1.24; the code panics otherwise).
extern rand.Read(b) (n, err) {
  modifies elems(b);
  ensures err == nil;
}

contract rankdb.RandString(numRnd) (s) {
  requires len(numRnd) > 0 ==> 0 <= numRnd[0] && numRnd[0] <= 1000000000000;
  ensures length: len(s) == ite(len(numRnd) > 0, numRnd[0], 8) + 8;
  ensures chars: forall i int :: 0 <= i < len(s) ==> alnum(s[i]);
  loop 1 { invariant done: len(out) == len(rnd) && (forall j int :: 0 <= j < $i ==> alnum(out[j])); }
}
