// Instances of the exported macros, expanded by the compiler.  7919 stands for
// the length; the extraction replaces it by a const generic parameter.
use hacspec::prelude::*;
bytes!(ArrU8, 7919);
array!(ArrU32, 7919, U32);
public_bytes!(ArrP8, 7919);
array!(ArrP32, 7919, u32);
generic_array!(ArrG, 7919);
array!(ArrU16, 7919, U16);
array!(ArrU64, 7919, U64);
array!(ArrU128, 7919, U128);
array!(ArrP16, 7919, u16);
array!(ArrP64, 7919, u64);
array!(ArrP128, 7919, u128);
unsigned_public_integer!(PubU, 7919);
signed_public_integer!(PubS, 7919);
unsigned_integer!(SecU, 7919);
signed_integer!(SecS, 7919);
public_nat_mod!(PubFe, PubFeCanvas, 7919, "0d");
nat_mod!(SecFe, SecFeCanvas, 7919, "0d");
const POLYM: [(usize, u128); 1] = [(0, 1)];
poly!(PolyM, u128, 7919, 7907, POLYM);
