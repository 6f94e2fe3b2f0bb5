"""What decides each property."""
import json, os
_H = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harnesses.json')
def kani_expected(filters):
    """Full names of the harnesses selected by `filters` (suffix or substring), from the committed list."""
    names = json.load(open(_H))
    out = [n for n in names if any(f in n for f in filters)]
    assert out, filters
    return out

SI = 'values of secret integers are observed through their public field / declassify'
PROPS = {
 'S01': dict(kani=['s01_ops', 's01_mul'], level='proof', assume=[SI]),
 'S02': dict(kani=['s02_masks'], level='proof', assume=[SI]),
 'S03': dict(kani=['s03_'], level='proof', assume=[SI]),
 'S05': dict(kani=['s05_'], level='proof', assume=[SI]),
 'H01': dict(kani=['h01_'], level='proof', assume=[SI]),
 'H02': dict(kani=['h02_'], level='proof', assume=[SI]),
}
NOTE = 'Every obligation is discharged over the full input domain on the code compiled from /repo; trusts the verifier, its solvers and the contracts. If the code changes so that an obligation cannot be decided, the run is reported as exploration (concrete search only).'
TODO = {}
PROPS['S04'] = dict(verus=['s04'], kani=['stdlib::'], kani_thorough=['s04_from'], level='proof', assume=[SI, 'little-endian target'])
PROPS['H05'] = dict(verus=['h05'], level='proof', assume=['usize is 64 bits', 'range bounds whose sum leaves usize are arithmetic overflow panics (debug profile), outside the contracts'])
PROPS['H06'] = dict(verus=['h05'], level='proof', assume=['usize is 64 bits', 'chunk bounds whose product leaves usize are arithmetic overflow panics (debug profile), outside the contracts'])
PROPS['H07'] = dict(verus=['h07'], kani=['stdlib::'], level='proof', assume=[SI, 'usize is 64 bits', 'little-endian target'])
PROPS['H03'] = dict(verus=['h03'], kani=['h03_panic'], level='proof', assume=[SI, 'arithmetic overflow checks as in the debug profile'])
MLEN = 'message lengths l with 8*l + 64 (plus header lengths) beyond usize are outside the contracts'
PROPS['C01'] = dict(verus=['c01'], level='proof', assume=[SI, MLEN, 'usize is 64 bits', 'little-endian target'])
PROPS['C02'] = dict(verus=['c02'], level='proof', assume=[SI, MLEN, 'usize is 64 bits', 'little-endian target'])
PROPS['C03'] = dict(verus=['c03'], kani=['c03_div_ceil'], level='proof', assume=[SI, MLEN, 'usize is 64 bits', 'little-endian target'])
PROPS['C04'] = dict(verus=['c04'], level='proof', assume=[SI, 'message lengths within 64 of usize::MAX are outside the contracts', 'usize is 64 bits', 'little-endian target'])
PROPS['C11'] = dict(verus=['c11'], level='proof', assume=[SI, 'message lengths within 128 of usize::MAX are outside the contracts', 'usize is 64 bits', 'little-endian target'])
NUM = "the num crate's BigInt/BigUint operations are assumed to be exact integer arithmetic (contracts in verus/bigint.vu)"
PROPS['A01'] = dict(verus=['a01'], level='proof', assume=[NUM, 'str::len, str::contains, slicing and matching of str behave as documented (str_len, str_has_plus, str_sub, str_sign_)', 'declared widths within 7 of usize::MAX are outside the contracts', 'usize is 64 bits'])
PROPS['A02'] = dict(verus=['a02'], level='proof', assume=[NUM, 'the declared modulus is hexadecimal text of a positive number within the canvas', 'str::len, str::contains, slicing and matching of str behave as documented (str_len, str_has_plus, str_sub, str_sign_)', 'usize is 64 bits'])
STR = 'str::len, str::contains and slicing of str behave as documented (the modulus literal is parsed by the code under contract)'
MOD = 'hexadecimal literals passed to from_hex in the curve code denote the number they write (from_hex_)'
PROPS['C05'] = dict(verus=['c05'], level='proof', assume=[SI, NUM, STR, 'message lengths within 16 of usize::MAX are outside the contracts', 'usize is 64 bits', 'little-endian target'])
PROPS['C06'] = dict(verus=['c06'], level='proof', assume=[SI, NUM, STR, 'message and associated-data lengths whose sum is within 128 of usize::MAX are outside the contracts', 'usize is 64 bits', 'little-endian target'])
PROPS['C10'] = dict(verus=['c10'], level='proof', assume=[SI, 'message lengths within 200 of usize::MAX are outside the contracts', 'usize is 64 bits', 'little-endian target'])
PROPS['C07'] = dict(verus=['c07'], level='proof', assume=[SI, 'message lengths within 16 of usize::MAX are outside the contracts', 'usize is 64 bits', 'little-endian target'])
PROPS['C08'] = dict(verus=['c08'], level='proof', assume=[SI, 'message lengths within 16 of usize::MAX are outside the contracts', 'usize is 64 bits', 'little-endian target'])
PROPS['C09'] = dict(verus=['c09'], level='proof', assume=[SI, 'message and associated-data lengths whose sum is within 64 of usize::MAX are outside the contracts', 'usize is 64 bits', 'little-endian target'])
PROPS['C12'] = dict(verus=['c12'], level='proof', assume=[SI, NUM, STR, 'usize is 64 bits', 'little-endian target'])
PROPS['C13'] = dict(verus=['c13'], level='proof', assume=[SI, NUM, STR, MOD, 'the chord-and-tangent law on the curve is closed and associative (axiom_ec_group); that the field modulus and the order are primes and that G has that order are proved (Pocklington certificates and (n-1)*G computed by Verus evaluator)', 'from_hex of the base point literals is the hexadecimal number', 'usize is 64 bits', 'little-endian target'])
PROPS['H04'] = dict(verus=['h04'], kani=['h04_select'], level='proof', assume=[SI, 'usize is 64 bits'])
PROPS['H08'] = dict(verus=['h08'], level='proof', assume=[SI, 'the modulus of the modular forms is not negative and the sums, differences and products they form fit the type (signed differences, and i128, within i128)', 'usize is 64 bits'])
PROPS['P01'] = dict(verus=['poly', 'h03'], level='proof', assume=[SI, 'moduli n > 1 whose products (n-1)^2 and sums 2(n-1) fit the coefficient type; coefficients over the integers (n = 0) are outside the contracts', 'polynomial inverses: every non-zero residue modulo n is invertible (n prime), degree below 2^38', 'poly! types: the declared modulus and polynomial are as in the declaration, with indices up to the length; random() is outside the contracts', 'usize is 64 bits'])
PROPS['H09'] = dict(verus=['h09'], kani=['h09_'], level='proof', assume=[SI, 'str::len, str::contains, slicing of str and <[String]>::join behave as documented (str_len, str_has_plus, str_sub, join_empty)', 'usize is 64 bits'])
