import json
A="src/bv/arithmetic.rs"; O="src/bv/ops.rs"; S="src/bv/io/strings.rs"; W="src/bv/owned.rs"; B="src/bv/borrowed.rs"; X="src/bv/indexed.rs"; R="src/array/owned.rs"; BY="src/bv/io/bytes.rs"; BI="src/bv/io/bigint.rs"
props=[]
def P(id,title,statement,over,q,why,mech,state=(),observe=()):
    assert len(title)<=80,title
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":sorted({w.split(":")[0] for _,w in mech}),"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],"observe_at":list(observe),"hook_needed":None}})
I=["inputs"]; C=["inputs","configurations"]; H=["inputs","histories"]
CAN=("unused bits","the bits of the most significant word at and above the width are zero",W+": BitVecValue")
T="The existing proptests compare random values of random widths (mostly in debug mode) with a big-integer library; "
P("C01","Addition, subtraction and negation are exact modulo 2^width",
  "Adding, subtracting or negating bit vectors of w bits yields the w-bit vector whose number is the mathematical result modulo 2^w, whichever mix of owned, borrowed and mutable operands is used, with and without debug assertions. The result has width w and no bits set outside of it, and the operands are unchanged.",
  C,"every width in the bound, every pair of values, every operand representation, debug and release semantics",
  T+"a carry that is lost only for one word count, one width modulo 64 or one operand pattern is sampled with negligible probability.",
  [("add",A+": add"),("sub",A+": sub"),("negate",A+": negate, negate_in_place"),("one-word fast path",O+": declare_arith_bin_fn"),("operators",W+": Add, Sub")],[CAN])
P("C02","Multiplication is exact modulo 2^width up to 64 bits",
  "Multiplying two bit vectors of the same width w, at most 64 bits, yields the w-bit vector whose number is the mathematical product modulo 2^w, with no bits set outside of the width.",
  C,"every width of 1..=64, every pair of values",
  T+"128 bits of operands cannot be enumerated, and masking errors show only for some widths.",
  [("mul",A+": mul"),("mul dispatch",O+": declare_arith_bin_fn!(mul)")],[CAN])
P("C03","Bitwise operations act on every bit independently",
  "Each bit of the result of and, or, xor and not is the corresponding function of the operands' bits at the same position. The result has the operands' width and no bits set outside of it.",
  C,"every width in the bound, every pair of values, every representation",
  T+"the claim is about every bit of every width.",
  [("bitwise_bin_op",A+": and, or, xor"),("not",A+": not"),("one-word fast path",O+": declare_bit_arith_bin_fn, not")],[CAN])
P("C04","Shifts multiply and divide by powers of two for every shift amount",
  "Shifting left by an amount s yields a*2^s modulo 2^w, shifting right yields floor(a/2^s) and shifting right arithmetically yields floor(a/2^s) of the signed number, where s is any number of the same width: amounts at or above the width give zero or all sign bits. The result is exact for multiples of the word size too and has no bits set outside of the width.",
  C,"every width in the bound, every value, every shift amount, including those above the width and above 2^64",
  T+"the interesting amounts (multiples of 64, the width itself, amounts with only high words set) are rare among random ones; a left shift by a multiple of 64 was in fact wrong.",
  [("shift_left",A+": shift_left"),("shift_right",A+": shift_right"),("arithmetic_shift_right",A+": arithmetic_shift_right"),("get_shift_amount",A+": get_shift_amount")],[CAN])
P("C05","Slicing selects exactly the requested bits",
  "The slice from bit lsb to bit msb has width msb-lsb+1, its bit i is bit lsb+i of the source, and no bits are set outside of its width.",
  C,"every source width in the bound, every lsb <= msb < width, every value",
  T+"slices that straddle words in one particular alignment are a quadratic number of cases for every width.",
  [("slice",A+": slice"),("slice dispatch",O+": slice")],[CAN])
P("C06","Concatenation and extension place bits exactly",
  "Concatenating a and b yields a*2^width(b)+b in width(a)+width(b) bits; zero and sign extension by n bits keep the unsigned and the signed number, respectively, in n more bits. No bits are set outside of the result's width.",
  C,"every pair of widths in the bound, every value, every extension amount in the bound",
  T+"the result depends on both widths modulo 64, and on both word counts.",
  [("concat",A+": concat"),("zero_extend",A+": zero_extend"),("sign_extend",A+": sign_extend"),("dispatch",O+": concat, zero_extend, sign_extend")],[CAN])
P("C07","Equality and unsigned comparisons order values by their number",
  "For two values of the same width, equal, not equal, less, less or equal, greater and greater or equal give exactly the answer of comparing the unsigned numbers, for every mix of operand representations.",
  C,"every width in the bound, every pair of values",
  T+"random wide values nearly never agree in their high words, so equal and almost-equal operands are never sampled; greater-or-equal of equal wide values was in fact wrong.",
  [("is_greater_and_not_less",A+": is_greater_and_not_less, cmp_greater, cmp_greater_equal"),("cmp_equal",A+": cmp_equal"),("dispatch",O+": is_equal, is_greater, is_less")])
P("C08","Signed comparisons order values by their two's complement number",
  "For two values of the same width, the signed less, less or equal, greater and greater or equal give exactly the answer of comparing the two's complement numbers.",
  C,"every width in the bound, every pair of values",
  T+"operands that share a sign and all but one word are not sampled; the code itself asks whether the negative case works.",
  [("cmp_greater_signed",A+": cmp_greater_signed, cmp_greater_equal_signed"),("is_neg",A+": is_neg")])
P("C09","Equality, hashing and ordering of values are consistent",
  "Two values are equal exactly if width and all bits agree, for every mix of owned and borrowed values; equal values, owned or borrowed, hash equally, and the ordering of owned values is a total order that is consistent with equality.",
  C,"every pair (triple for transitivity) of values of every mix of widths in the bound",
  T+"hash and ordering are tested on a few values against themselves; no test quantifies over pairs and triples with different widths.",
  [("PartialEq",W+": PartialEq for BitVecValue"),("PartialEq of references",B+": PartialEq for BitVecValueRef"),("Hash",W+": derive(Hash)"),("Ord",W+": derive(Ord)")])
P("C10","Single-bit access and bulk assignment touch exactly the addressed bits",
  "Setting or clearing a bit changes that bit and no other; testing a bit, the sign, zero, true and false report exactly the stored bits. Assigning a value, clearing and filling with ones leave exactly the requested content, with no bits set outside of the width.",
  H,"every width in the bound, every value, every bit position, every previous content",
  T+"bit operations have next to no tests, and none checks that the other bits stay.",
  [("is_bit_set, set_bit, clear_bit",A+": is_bit_set, set_bit, clear_bit"),("assign, clear, assign_ones",O+": BitVecMutOps"),("is_neg",A+": is_neg")],[CAN])
P("C11","Conversions from and to machine integers and booleans are exact or refused",
  "A 64-bit integer that fits the width becomes the value of that number (two's complement for signed ones), and one that does not fit is refused by a panic with debug assertions or reduced modulo 2^width without. Reading back returns the number exactly if it is representable and nothing otherwise, and likewise for booleans of one-bit values.",
  C,"every width in the bound, every 64-bit integer, every value, debug and release semantics",
  T+"only widths up to 64 bits are exercised and only with representable numbers; reading a negative number of more than 64 bits was in fact wrong.",
  [("from_u64, from_i64",W+": from_u64, from_i64"),("assign_from_u64, assign_from_i64",O+": BitVecMutOps"),("to_u64, to_i64, to_bool",O+": BitVecOps")],[CAN])
P("C12","Little-endian byte conversion is exact in both directions",
  "The bytes of a value are its ceil(width/8) little-endian bytes. Building a value from at most that many bytes yields their number modulo 2^width, with no bits set outside of the width, and the two directions invert each other.",
  C,"every width in the bound, every value, every byte string that is not longer than the width needs",
  T+"the proptest derives the width from the bytes, so widths that cut a byte or exceed the bytes are never tested.",
  [("to_bytes_le",BY+": to_bytes_le"),("from_bytes_le",BY+": from_bytes_le")],[CAN])
P("C13","Big-integer conversion is exact in both directions",
  "Converting to an unsigned or signed big integer yields the value's unsigned or two's complement number. Converting a big integer that fits into the width yields the value of that number, and without a given width the result has as many bits as the magnitude, plus a sign bit for signed numbers.",
  C,"every width in the bound, every value, every big integer in the bound",
  T+"the round trip always uses the minimal width, so wider targets, smallest negative numbers and cross-checks of single directions are not covered.",
  [("to_big_uint, to_big_int",BI+": to_big_uint, to_big_int"),("from_big_uint, from_big_int",BI+": iter_to_word, from_big_int"),("width",BI+": count_big_int_bits, count_big_uint_bits")],[CAN])
P("C14","Unsigned binary and hexadecimal strings spell out every bit",
  "The binary string has exactly width characters and the hexadecimal one ceil(width/4), both most significant digit first and in lower case, and each digit is exactly the corresponding bits of the value.",
  C,"every width in the bound, every value",
  T+"strings are only tested by converting back and forth, which hides errors made in both directions, and for sampled widths.",
  [("to_bit_str",S+": to_bit_str_internal"),("to_hex_str",S+": to_hex_str_internal")])
P("C15","Signed strings spell out sign and magnitude of the number",
  "The signed binary and hexadecimal strings carry a minus exactly for negative numbers, followed by the digits of the magnitude; this holds for the smallest number of every width too.",
  C,"every width in the bound, every value",
  T+"the smallest number of a width is never sampled, nor are widths of one more than a multiple of 64; both were in fact wrong.",
  [("to_bit_str_signed",S+": to_bit_str_signed"),("to_hex_str_signed",S+": to_hex_str_signed"),("negate_in_place",A+": negate_in_place")])
P("C16","Decimal strings are the number without leading zeros",
  "For every value of at most 128 significant bits, whatever its width, the decimal string is the canonical decimal spelling of its unsigned number: only digits, no leading zeros, and 0 for zero.",
  C,"every value of at most 128 significant bits, widths in the bound",
  T+"the choice of the conversion depends on the number of words in use, which small samples in wide vectors do not exercise.",
  [("to_dec_str",S+": to_dec_str_internal, words_used, words_to_u128")])
P("C17","Parsing accepts exactly the numbers that fit and rejects everything else",
  "Parsing a string of a given radix into a given width yields the number it spells (two's complement if there is a minus) exactly if the string is an optional sign followed by at least one valid digit and the magnitude fits into the width; otherwise it reports an error that names the reason, and never panics. Nothing of an earlier content survives in an assigned value, and without a given width the width is that of the digits (plus one for a minus).",
  C,"every string of the listed lengths (any ASCII characters for short ones; any sign and digits for longer ones), every width of the listed word counts",
  T+"tests only parse well-formed strings that fit; malformed and too long ones are unexplored, and several were in fact accepted or panicked.",
  [("from_str_radix",S+": from_str_radix, parse_base_2, parse_base_16"),("determine_width",S+": determine_width_from_str_radix"),("from_bit_str, from_hex_str",W+": from_bit_str, from_hex_str, from_str_radix")],[CAN])
P("C18","Printing and parsing invert each other",
  "Parsing the binary, hexadecimal or signed string of a value with the value's width returns the same value, and the constructors that take the width from the digits return the same number in the width of those digits.",
  C,"every value of the widths in the bound, all four string forms",
  T+"round trips run on random values only, none of them with a sign and the smallest number.",
  [("to_bit_str, to_hex_str",S+": to_bit_str, to_hex_str, to_bit_str_signed, to_hex_str_signed"),("from_str_radix",S+": from_str_radix")])
P("C19","Fixed-point conversion is exact or refused",
  "Reading a value as a fixed-point number with f fractional bits yields exactly its unsigned or two's complement number divided by 2^f, or nothing. A result is given for every value of at most 64 bits with fewer than 64 fractional bits.",
  C,"every width in the bound, every number of fractional bits up to the width, every value",
  T+"a handful of fixed examples; negative numbers, the smallest number and wide fractions are not sampled (64 fractional bits overflowed).",
  [("to_unsigned_fixed_point, to_signed_fixed_point",O+": to_unsigned_fixed_point, to_signed_fixed_point")])
P("C20","Operations obey the laws that tie them to each other",
  "Chains of operations obey the algebra of bit vectors, judged by the library's own equality: subtraction undoes addition, negation is its own inverse, De Morgan's laws hold, cutting a value and concatenating the parts restores it, shifts equal slices joined with zeros or sign bits, and extension followed by slicing is the identity.",
  H,"every width in the bound, every value, every cut position, results of one operation as operands of the next",
  "Tests apply one operation to freshly parsed values; operands that come out of other operations (whose invisible bits may differ) are never used.",
  [("arithmetic",A+": add, sub, negate, not, slice, concat, sign_extend, zero_extend, shift_left, shift_right"),("equality",O+": is_equal")],[CAN])
P("C21","Views into a value store read and write exactly the addressed words",
  "A reference into a shared word store shows exactly the addressed words in the given width, and writing through a mutable one changes those words and no others, also when one or two readable references into the same store are taken together with it. References that overlap the mutable one or reach beyond the store are refused by a panic, never handed out.",
  H,"every store content, every position and width of up to three references",
  "The tests use two fixed layouts; the relative order and distance of the references select different code paths.",
  [("split_borrow_1, split_borrow_2",X+": split_borrow_1, split_borrow_2"),("get_ref, get_mut_ref",X+": IndexToRef, IndexToMutRef"),("to_range",X+": BitVecValueIndex::to_range")])
P("C22","Interning returns the same index exactly for the same value",
  "Every value given to the interner can be read back unchanged through its index, at once and after any further values were interned; two values get the same index exactly if they have the same width and bits. The predicates for zero and one hold exactly for the indices of the values zero and one.",
  H,"every sequence of up to three values of the listed word counts, with independent widths",
  "Tests intern a few fixed values; whether two values collide depends on their contents, widths and order.",
  [("get_index",X+": ValueInterner::get_index"),("is_zero, is_one",X+": ValueInterner::is_zero, is_one"),("constants",X+": ValueInterner::new")],
  [("words","all interned words",X+": ValueInterner"),("small, large","index of each word or word sequence",X+": ValueInterner")])
AR=("representation","one bit, bytes, 64-bit words or word sequences per element, by data width",R+": DenseArrayImpl")
P("C23","Dense arrays return the last value stored at each index",
  "Reading a dense array at any index returns the value stored there last, or the initial value (zero after clearing); stores leave all other elements and the array's type unchanged, and a copy is independent of its original. Arrays built from slices hold the slice's elements in order, padded with zeros to the next power of two.",
  H,"every initial value, every sequence of up to the bound's number of stores with every index and value, every element width class",
  "The existing tests store a few fixed values into arrays of two or three element widths; each width class has its own representation.",
  [("new",R+": DenseArrayValue::new"),("select",R+": select_usize"),("store",R+": DenseArrayValue::store"),("clear",R+": DenseArrayValue::clear"),("from slices",R+": From<&[bool]>, From<&[u8]>, From<&[u64]>")],[AR])
SP=("default","the default value never appears in the map",R+": SparseArrayImpl")
P("C24","Sparse arrays return the last value stored at each index",
  "Reading a sparse array at any index of any width returns the value stored there last, or its default; stores leave all other elements unchanged and clearing makes every element zero. The iterator yields each index whose value differs from the default exactly once, with that value.",
  H,"every index width class including more than 64 bits, every element width class, every default, every sequence of up to the bound's number of stores",
  "Tests use one or two types and fixed indices; storing the default, overwriting and indices of more than 64 bits (which panicked) select different paths.",
  [("store",R+": SparseArrayValue::store, store_u64_u64, store_u64_big"),("select",R+": SparseArrayValue::select"),("clear",R+": SparseArrayValue::clear"),("entries",R+": non_default_entries, SparseArrayEntryIter")],[SP])
P("C25","Converting between sparse and dense arrays keeps every element",
  "Making a sparse array dense, and turning a dense array into a sparse one, keeps the value at every index as well as index and element widths; making a dense array dense changes nothing.",
  H,"every array of the bound's size, reached by every sequence of up to the bound's number of stores",
  "One fixed conversion per direction is tested; the chosen default depends on the most frequent element (ties included), and both directions were in fact wrong for some types.",
  [("to dense",R+": From<&SparseArrayValue> for DenseArrayValue"),("to sparse",R+": From<&DenseArrayValue> for SparseArrayValue"),("make_dense",R+": make_dense")],[SP])
P("C26","Array equality means equal type and equal element at every index",
  "Comparing two arrays of the same index and element width answers whether they agree at every index, whatever mix of sparse and dense representations, defaults and store histories they have. Arrays of different types are not comparable and never equal.",
  H,"every pair of arrays of the bound's size, reached by every pair of store sequences, in all four combinations of representations",
  "Tests compare a few fixed arrays; equal arrays with different histories or defaults (which compared as different) are not among them.",
  [("is_equal",R+": ArrayValue::is_equal, is_equal_mixed"),("dense",R+": DenseArrayValue::is_equal"),("sparse",R+": SparseArrayValue::is_equal, is_equal_with_different_default")],[SP])
P("C27","Serialised values and arrays come back equal",
  "Serialising a bit vector or an array through the serde interface and deserialising the result yields a value of the same type with the same content that behaves the same afterwards, for positional and for field-name based formats.",
  H,"every value of the widths in the bound, every array of the bound's size and store sequences",
  "No test exercises serialisation at all.",
  [("derive",W+": derive(Serialize, Deserialize) for BitVecValue"),("derive",R+": derive(Serialize, Deserialize) for ArrayValue, SparseArrayValue")],[CAN])
P("C28","The value wrapper returns what was put in",
  "A bit vector or array wrapped as a general value can be unwrapped as the same kind, unchanged, and not as the other kind; wrapped values are equal exactly if kind and content are.",
  I,"every value in the bound, arrays of two elements",
  "Only conversions of two fixed values are tested.",
  [("TryFrom","src/lib.rs: TryFrom<Value>"),("PartialEq","src/lib.rs: derive(PartialEq) for Value")])
P("C29","Every view and every copy of a value shows that value",
  "A reference made from an owned value, an owned value made from a reference, a clone, and an owned value borrowed as a reference or as itself all have the width and bits of the value they were made from. What is written through a mutable view is in the viewed value, and copies are independent of their original.",
  I,"every value",
  "The hash test borrows a value as itself only, never as a reference.",
  [("From",B+": From<&BitVecValue> for BitVecValueRef"),("From","src/bv/owned.rs: From<BitVecValueRef> for BitVecValue"),("Borrow",B+": Borrow<BitVecValueRef> for BitVecValue")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in props))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p,sch)
    assert p["statement"].count(". ")<=2,(p["id"],p["statement"])
print(len(props))
