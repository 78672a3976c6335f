package sortfloat;

# k is the sort key of a: 0 for not-a-number, 2^63 for either zero, the complemented bits of a negative number,
# the bits with the sign set for a positive one.
pred isKey(a float64, k uint64) {
  (float_is_nan(a) && k == 0) ||
  (float_is_zero(a) && k == 9223372036854775808) ||
  (!float_is_nan(a) && a < float_of(0) && float_same(float_of(MaxUint64 - k), a)) ||
  (!float_is_nan(a) && a > float_of(0) && k > 9223372036854775808 && float_same(float_of(k - 9223372036854775808), a))
}

# Order preservation follows for any keys satisfying isKey.
lemma key_order(a float64, b float64, j uint64, k uint64) {
  requires isKey(a, j) && isKey(b, k);
  mode bv;
  ensures less: a < b ==> j < k;
  ensures equal: a == b ==> j == k;
  ensures nanLowest: float_is_nan(a) && !float_is_nan(b) ==> j < k;
  ensures nanOne: float_is_nan(a) && float_is_nan(b) ==> j == k;
  ensures injective: j == k ==> a == b || (float_is_nan(a) && float_is_nan(b));
}

contract sortfloat.SortableFloat64(a) (r) {
  mode bv;
  ensures key: isKey(a, r);
}

contract sortfloat.ReverseFloat64(a) (r) {
  mode bv;
  ensures nan: a == 0 ==> float_is_nan(r);
  ensures zero: a == 9223372036854775808 ==> float_same(r, float_of(0));
  ensures back: forall f float64 :: isKey(f, a) && !float_is_zero(f) ==> float_same(f, r);
}
