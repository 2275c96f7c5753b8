"""Which harness runs decide which property, within which bounds."""


def J(h, *params, prof=None, **kw):
    return [dict(h=h, p=list(params), prof=p, **kw) for p in ([prof] if prof else ["debug", "release"])]


def grid(h, *lists, **kw):
    out = [[]]
    for l in lists:
        out = [o + [x] for o in out for x in (l if isinstance(l, (list, range, tuple)) else [l])]
    return sum((J(h, *o, **kw) for o in out), [])


def each(h, tuples, **kw):
    return sum((J(h, *t, **kw) for t in tuples), [])


R = [0, 1]       # borrowed, owned
R3 = [0, 1, 2]   # borrowed, owned, mutable view mixed with owned
D = "debug"
W = "every width of 1..=%d bits (each word count is one symbolic job; the width is symbolic within it) and every canonical value"

PROPS = {}


def prop(id, quick, thorough, bounds, outside="", assumptions=(), budget=600, thorough_budget=3000):
    PROPS[id] = dict(quick=quick, thorough=thorough, bounds=bounds, outside=outside, assumptions=list(assumptions), budget=budget, thorough_budget=thorough_budget)


def jobs(id, tier):
    seen, out = set(), []
    for j in PROPS[id]["quick"] + (PROPS[id]["thorough"] if tier == "thorough" else []):
        k = (j["h"], tuple(j["p"]), j["prof"])
        if k not in seen:
            seen.add(k)
            out.append(j)
    return out


prop("C01",
     grid("h_add", range(1, 7), R) + grid("h_sub", range(1, 7), R) + grid("h_negate", range(1, 7), R),
     grid("h_add", range(7, 17), R) + grid("h_sub", range(7, 17), R) + grid("h_negate", range(7, 17), R),
     "quick: " + W % 384 + "; thorough: up to 1024 bits")
prop("C02", grid("h_mul", 1, R), [], W % 64, "more than 64 bits: not implemented in the code (todo!)")
prop("C03", grid("h_bitwise", range(1, 7), R3), grid("h_bitwise", range(7, 17), R3), "quick: " + W % 384 + "; thorough: up to 1024 bits")
prop("C04",
     grid("h_shl", range(1, 4), R3) + grid("h_shr", range(1, 4), R3) + grid("h_ashr", range(1, 4), R3),
     grid("h_shl", range(4, 7), R3) + grid("h_shr", range(4, 7), R3) + grid("h_ashr", range(4, 7), R3),
     "quick: " + W % 192 + " for the shifted value and every shift amount of the same width; thorough: up to 384 bits")
prop("C05", grid("h_slice", range(1, 5), R), grid("h_slice", range(5, 9), R), "quick: " + W % 256 + ", every lsb <= msb < width; thorough: up to 512 bits")
prop("C06",
     grid("h_concat", [1, 2, 3], [1, 2, 3], R) + each("h_zext", [(1, 1, 0), (1, 2, 1), (2, 2, 0), (2, 3, 0), (1, 4, 1), (3, 4, 0), (3, 3, 1), (2, 4, 1)]) + each("h_sext", [(1, 1, 0), (1, 2, 1), (2, 2, 0), (2, 3, 0), (1, 4, 1), (3, 4, 0), (3, 3, 1), (2, 4, 1)]),
     grid("h_concat", [1, 2, 3, 4, 5], [1, 2, 3, 4, 5], R) + grid("h_zext", range(1, 6), range(5, 9), R) + grid("h_sext", range(1, 6), range(5, 9), R),
     "quick: concatenation of every two values of 1..=192 bits, extension of every value of 1..=192 bits by any amount to at most 256 bits; thorough: concatenation up to 320 bits each, extension up to 512 bits")
prop("C07", grid("h_cmp_unsigned", range(1, 7), R3), grid("h_cmp_unsigned", range(7, 13), R3), "quick: every pair of values of the same width, widths 1..=384; thorough: up to 768 bits")
prop("C08", grid("h_cmp_signed", range(1, 7), R3), grid("h_cmp_signed", range(7, 13), R3), "quick: every pair of values of the same width, widths 1..=384; thorough: up to 768 bits")
prop("C09",
     grid("h_eq", [1, 2, 3], [1, 2, 3]) + grid("h_hash", range(1, 5)) + grid("h_ord", [1, 2, 3], [1, 2, 3]),
     grid("h_eq", [1, 2, 3, 4, 5], [1, 2, 3, 4, 5]) + grid("h_hash", range(5, 9)) + grid("h_ord", [1, 2, 3, 4], [1, 2, 3, 4]),
     "quick: every pair (ordering: triple) of values of 1..=192 bits, widths independent of each other; thorough: up to 320 bits",
     assumptions=["hashing is judged by the exact sequence of bytes a value feeds to the hasher"])
prop("C10", grid("h_bits", range(1, 5), R3) + grid("h_assign", range(1, 5), R), grid("h_bits", range(5, 11), R3) + grid("h_assign", range(5, 11), R), "quick: " + W % 256 + ", every bit position; thorough: up to 640 bits")
prop("C11", grid("h_from_int", range(1, 5), R) + grid("h_to_int", range(1, 5), R3) + grid("h_bool", range(1, 4), R3), grid("h_from_int", range(5, 9), R) + grid("h_to_int", range(5, 11), R3),
     "quick: " + W % 256 + " and every 64-bit integer; thorough: up to 640 bits")
prop("C12", grid("h_to_bytes", range(1, 5), R) + grid("h_from_bytes", range(1, 4)), grid("h_to_bytes", range(5, 9), R) + grid("h_from_bytes", range(4, 7)),
     "quick: " + W % 256 + " to bytes; every byte string of at most ceil(width/8) bytes for widths 1..=192; thorough: 512 / 384 bits", "byte strings longer than the width needs (the code panics or ignores them)")
prop("C13", grid("h_big_uint", [1, 2, 3], R) + grid("h_big_int", [1, 2, 3], R) + each("h_from_big", [(1, 2), (2, 2), (2, 4), (3, 5)]) + grid("h_big_auto", range(0, 6)),
     grid("h_big_uint", [4, 5, 6], R) + grid("h_big_int", [4, 5], R) + each("h_from_big", [(3, 6), (4, 8), (4, 6)]) + grid("h_big_auto", range(6, 10)),
     "quick: " + W % 192 + "; big integers of up to 160 bits; thorough: 384 / 288 bits", "big integers that do not fit the requested width")
STR = [(k, c, 8) for k in (1, 2, 3) for c in range(8)]
prop("C14", sum([each("h_bit_str", [(k, c, 8, (k + c) % 2) for k, c, _ in STR], prof=D), each("h_hex_str", [(k, c, 8, (k + c + 1) % 2) for k, c, _ in STR], prof=D)], []),
     sum([each(h, [(k, c, 8, (k + c + o) % 2) for k in (1, 2, 3, 4) for c in range(8)]) for h, o in (("h_bit_str", 1), ("h_hex_str", 0))], []),
     "quick: " + W % 192 + "; thorough: up to 256 bits")
prop("C15", sum([each("h_bit_str_signed", [(k, c, 8, (k + c) % 2) for k, c, _ in STR], prof=D), each("h_hex_str_signed", [(k, c, 8, (k + c + 1) % 2) for k, c, _ in STR], prof=D)], []),
     sum([each(h, [(k, c, 8, (k + c + o) % 2) for k in (1, 2, 3, 4) for c in range(8)]) for h, o in (("h_bit_str_signed", 1), ("h_hex_str_signed", 0))], []),
     "quick: " + W % 192 + "; thorough: up to 256 bits")
prop("C16", grid("h_dec_str", [1, 3], R, range(1, 21), prof=D) + grid("h_dec_str", [1, 2], 0, [1, 2, 10, 19, 20]) + grid("h_dec_wide", [2, 3, 5], R),
     grid("h_dec_str", [1, 2, 5], R, range(1, 21)),
     "every value of at most 128 significant bits, in widths of 1..=192 bits (65..=320 bits for values of more than 64 significant bits)", "more than 128 significant bits: not implemented in the code (todo!)",
     assumptions=["above 64 significant bits the digits are those the standard library prints for the same 128-bit number (an uninterpreted injective function in the encoding)"])
prop("C17", each("h_parse", [(1, 66, 2, 1), (2, 66, 2, 1), (3, 34, 16, 1), (3, 70, 2, 1), (2, 5, 10, 1), (1, 10, 10, 1), (1, 8, 16, 0), (1, 10, 2, 0), (1, 18, 16, 1), (2, 20, 16, 1), (1, 5, 10, 0), (1, 17, 10, 1), (2, 22, 10, 1), (3, 4, 16, 0), (3, 6, 2, 0), (4, 4, 16, 0), (3, 8, 16, 2), (3, 8, 2, 2), (2, 6, 16, 2), (3, 6, 16, 3), (3, 6, 2, 3), (1, 5, 16, 3), (2, 5, 10, 3), (3, 0, 16, 1), (3, 1, 16, 1)]),
     each("h_parse", [(3, 20, 16, 2), (1, 6, 16, 2), (1, 5, 10, 2), (3, 50, 16, 1), (3, 140, 2, 1), (1, 16, 10, 1), (2, 18, 16, 0), (2, 6, 10, 0), (1, 20, 2, 0), (1, 20, 10, 1), (2, 38, 10, 1)]),
     "quick: strings of the listed lengths")
PROPS["C17"]["quick"] += each("h_auto_width", [(n, r, 0) for n in (0, 1, 2, 5, 6) for r in (2, 16)] + [(64, 2, 2), (65, 2, 2), (16, 16, 2), (40, 16, 2)] + [(66, 2, 1), (17, 16, 1), (33, 16, 1), (130, 2, 1)])
prop("C18", grid("h_round_trip", 1, range(4), 16, range(4), prof=D) + each("h_round_trip", [(3, 0, 1, m) for m in (0, 1, 3)] + [(2, 0, 1, m) for m in range(4)] + [(2, 63, 1, m) for m in range(4)], prof=D),
     grid("h_round_trip", 2, range(1, 63, 6), 1, range(4), prof=D) + each("h_round_trip", [(3, 0, 1, 2), (3, 63, 1, 0), (3, 63, 1, 1), (3, 63, 1, 2), (3, 63, 1, 3)], prof=D), "quick: every value of 1..=64, 65, 128, 129 and 192 bits")
prop("C21", each("h_store", [(3, 1, 0), (3, 2, 0), (3, 1, 1), (2, 2, 1), (3, 2, 1), (1, 3, 1), (2, 3, 1)]), each("h_store", [(3, 3, 1), (4, 2, 1)]), "stores of 8 words, any contents; up to three references to values of 1..=192 bits anywhere in or beyond the store")
prop("C22", each("h_intern", [(1, 1, 1), (2, 2, 1), (1, 2, 1), (2, 2, 2)]) + grid("h_intern_pair", range(1, 6), range(1, 6)) + each("h_intern_const", [(1,), (2,), (3,)]), each("h_intern", [(3, 3, 3), (1, 1, 2), (3, 1, 3)]), "every three values of the listed word counts, with independent widths")
prop("C23",
     grid("h_dense", [0, 1, 2, 3], [0, 1, 2, 3, 4], 2, 0) + grid("h_dense", [1, 2], [0, 1, 2, 3, 4], 3, 1, prof=D) + grid("h_dense", [5, 6, 7], 0, 2, 1) + grid("h_from_slice", [0, 1, 2], range(1, 10)),
     grid("h_dense", [1, 2, 3], [0, 1, 2, 3, 4, 5], 4, [0, 1]) + grid("h_dense", [4, 5], [1, 2, 3], 2, 0) + grid("h_from_slice", [0, 1, 2], range(10, 34)),
     "arrays of 2^0..2^3 elements (one-bit elements: up to 2^7) of 1..=192 bits, every default, every two (some: three) stores at every index, then a select, a clear and another store; slices of 1..=9 elements; thorough: four stores, 2^5 elements, 256 bits")
prop("C24",
     each("h_sparse", [(3, 1, 0, 0), (0, 2, 1, 0), (64, 2, 1, 1), (102, 3, 1, 1), (3, 2, 2, 0), (2, 0, 2, 1), (2, 3, 2, 2), (101, 2, 2, 2), (101, 1, 2, 0), (101, 3, 2, 1), (102, 2, 2, 0), (102, 4, 1, 2), (103, 1, 1, 3), (102, 3, 2, 3)]) +
     each("h_entries", [(3, 2, 2, 0), (102, 2, 2, 0), (2, 3, 2, 1), (64, 1, 2, 0), (2, 0, 3, 1), (101, 3, 2, 0)]),
     each("h_sparse", [(3, 1, 3, 1), (101, 1, 3, 3), (101, 3, 3, 1), (102, 2, 3, 0), (102, 4, 2, 2), (103, 3, 2, 1)]) + each("h_entries", [(101, 3, 3, 0), (3, 1, 3, 0), (102, 2, 3, 0)]),
     "index widths of 0..=192 bits, elements of 1..=192 bits, every default, up to two stores at every index, then select, clear and another store; thorough: three stores")
prop("C25",
     [j for j in grid("h_convert", [0, 1, 2], [0, 1, 2, 3, 4], [0, 1, 2], [0, 1]) if j["p"] not in ([2, 1, 2, 1], [2, 4, 2, 0])] + J("h_convert", 2, 4, 2, 0, prof=D) + each("h_convert", [(3, 0, 2, 0), (3, 0, 2, 1), (3, 2, 1, 1), (3, 3, 1, 1), (1, 3, 3, 1), (1, 2, 3, 1), (1, 0, 3, 1), (2, 3, 3, 1)], prof=D),
     grid("h_convert", [3], [0, 1, 2, 3], [1, 2], [0, 1]) + grid("h_convert", [1, 2], [1, 2, 3], 3, [0, 1]) + each("h_convert", [(2, 1, 2, 1), (2, 4, 2, 0)]),
     "arrays of 1, 2 and 4 elements of 1..=192 bits, every default and up to two stores (8 elements and three stores for some element types); thorough: 8 elements and three stores")
prop("C26",
     each("h_array_eq", [(i, c, na, nb, kd) for i in (0, 1, 2) for c in (0, 1, 2, 3) for na, nb in ((1, 1), (2, 1), (0, 2)) for kd in (0, 1, 2, 3)], prof=D) + each("h_array_eq", [(1, c, 1, 2, kd) for c in (0, 1, 2, 3) for kd in (0, 1, 2, 3)], prof="release") +
     each("h_array_eq", [(101, 2, 1, 1, 4), (102, 2, 1, 1, 4), (64, 1, 1, 1, 0), (101, 3, 1, 1, 0), (102, 3, 1, 1, 0)]) + each("h_array_type", [(k, a, b) for k in range(4) for a, b in ((0, 1), (1, 2), (3, 1), (2, 3), (1, 1))], prof=D),
     each("h_array_eq", [(3, c, 2, 2, kd) for c in (0, 1, 2, 3) for kd in range(8)], prof=D) + each("h_array_eq", [(1, 4, 1, 2, kd) for kd in (0, 1, 2, 3)], prof="release") + each("h_array_eq", [(101, 2, 2, 2, 4), (102, 2, 2, 1, 4)]),
     "two arrays of up to 4 elements (or with indices of up to 128 bits) of 1..=128 bits in every combination of representations, up to two stores each; thorough: 8 elements")
prop("C28", grid("h_value", range(1, 5)), grid("h_value", range(5, 9)), "values of 1..=256 bits and arrays of two elements; thorough: up to 512 bits")

prop("C19",
     each("h_fixed", [(1, sg, f, 8) for sg in (0, 1) for f in range(0, 64, 8)], prof=D) + each("h_fixed", [(1, 1, 0, 4), (1, 0, 60, 10), (1, 1, 60, 10), (2, 0, 60, 10), (2, 1, 60, 10), (2, 1, 28, 8), (3, 1, 60, 6), (3, 1, 124, 8)]),
     each("h_fixed", [(k, sg, f, 16) for k in (2, 3) for sg in (0, 1) for f in range(0, 128, 16)], prof=D),
     "quick: every value of 1..=64 bits with every number of fractional bits, values of 65..=192 bits with selected ranges of fractional bits; thorough: up to 192 bits, every number of fractional bits up to 127",
     "native f64 conversions of the fraction type", assumptions=["the greatest common divisor with a constant power of two 2^f is 2^min(f, trailing zeros) (num-integer's loop is replaced by this definition)"])
prop("C20",
     grid("h_laws_arith", [1, 2, 3, 4]) + grid("h_laws_bits", [1, 2, 3, 4]) + grid("h_laws_cut", [1, 2]) + each("h_laws_cut", [(3,)], prof=D) +
     each("h_laws_ext", [(1, 20), (2, 10), (3, 3)]) + each("h_laws_ext", [(1, 70)], prof=D) + each("h_laws_shift", [(1, 4, i) for i in range(4)] + [(2, 8, i) for i in range(8)], prof=D) + each("h_laws_shift", [(3, 16, i) for i in range(16)], prof=D) +
     J("h_laws_mul", 0) + grid("h_laws_conv", [1, 2, 3]),
     grid("h_laws_arith", [5, 6, 7, 8]) + grid("h_laws_bits", [5, 6, 7, 8]) + grid("h_laws_cut", [3, 4]) + each("h_laws_ext", [(2, 70), (3, 70), (1, 130)]) + each("h_laws_shift", [(2, 8, i) for i in range(8)] + [(3, 16, i) for i in range(16)] + [(4, 16, i) for i in range(16)]) + grid("h_laws_conv", [4, 5]),
     "quick: values of 1..=256 bits for the arithmetic and bitwise laws, 1..=192 bits with every cut, 1..=192 bits and every amount for the shifts, extensions by up to 70 bits; thorough: 512 bits, cuts of 256 bits, every shift amount up to 256 bits")
prop("C27",
     grid("h_serde_value", [1, 2, 3, 4, 5], [0, 1]) + each("h_serde_array", [(iw, dw, n, kd, nm) for iw, dw, n in ((2, 1, 1), (2, 8, 1), (2, 16, 1), (1, 32, 1), (1, 64, 1), (2, 80, 1)) for kd in (0, 1, 2) for nm in (0, 1)], prof=D) +
     each("h_serde_array", [(2, 8, 1, 0, 0), (2, 80, 1, 1, 1), (3, 1, 1, 0, 1), (70, 80, 1, 1, 0), (70, 8, 1, 2, 1), (6, 1, 1, 0, 0), (7, 1, 1, 0, 1), (0, 40, 1, 0, 0)], prof="release"),
     grid("h_serde_value", [6, 7, 8], [0, 1]) + each("h_serde_array", [(iw, dw, n, kd, nm) for iw, dw, n in ((2, 8, 2), (2, 80, 2), (3, 64, 2), (70, 80, 2)) for kd in ((0, 1, 2) if iw < 20 else (1, 2)) for nm in (0, 1)]),
     "values of 1..=320 bits; arrays of up to 128 elements of 1..=80 bits in every representation, any default and any store; a positional and a field-name based format held in memory; thorough: 512 bits, two stores",
     "the text formats of other crates")
prop("C29", grid("h_views", range(1, 6)) + grid("h_borrow", 1), grid("h_views", range(6, 13)), "quick: every value of 1..=320 bits; thorough: 768 bits")

# large arrays: two stores of any values at given places
PROPS["C23"]["quick"] += each("h_large", [(9, c, 0, 300, 44) for c in (0, 1, 2, 3, 4)] + [(17, c, 0, 65580, 44) for c in (0, 1, 2)] + [(20, 0, 0, 65580, 44), (11, 3, 0, 1300, 20)])
PROPS["C23"]["bounds"] += "; arrays of 2^9, 2^11, 2^17 and 2^20 elements with any two values stored at selected places"
PROPS["C25"]["quick"] += each("h_large", [(9, c, d, 300, 44) for c in (0, 1, 2) for d in (1, 2)] + [(8, 2, 2, 130, 2)]) + each("h_large", [(12, 1, 2, 300, 44), (17, 0, 2, 65580, 44)], prof="release")
PROPS["C25"]["bounds"] += "; arrays of 2^8, 2^9, 2^12 and 2^17 elements of up to 64 bits with any two values stored at selected places"
PROPS["C26"]["quick"] += each("h_large", [(9, 0, 3, 300, 44), (9, 1, 3, 300, 44), (4, 2, 3, 10, 8)])
PROPS["C26"]["bounds"] += "; arrays of 2^9 elements of up to 8 bits and of 16 elements of up to 64 bits in different representations with any two values stored at selected places"
PROPS["C28"]["quick"] += grid("h_value_eq", range(1, 5), range(1, 5)) + grid("h_value_array", [0, 1, 2], range(5), range(4))
PROPS["C28"]["thorough"] += grid("h_value_eq", range(5, 8), range(5, 8)) + grid("h_value_array", 3, range(4), range(4))
PROPS["C28"]["bounds"] = "values of 1..=256 bits, each pair with independent widths, and arrays of up to four elements of 1..=192 bits in both representations; thorough: up to 512 bits, eight elements"

# what used to be left to the thorough tier and turned out to be cheap; the thorough tier goes further
def deeper(id, thorough, bounds):
    PROPS[id]["quick"] += PROPS[id]["thorough"]
    PROPS[id]["thorough"] = thorough
    PROPS[id]["bounds"] = bounds


PROPS["C01"]["quick"] += grid("h_add", range(7, 11), R) + grid("h_sub", range(7, 11), R) + grid("h_negate", range(7, 11), R)
PROPS["C01"]["bounds"] = "quick: " + W % 640 + "; thorough: up to 1024 bits"
deeper("C03", grid("h_bitwise", range(17, 20), R3), "quick: " + W % 1024 + "; thorough: up to 1216 bits")
deeper("C06", grid("h_concat", [6, 7], range(1, 8), R) + grid("h_concat", range(1, 6), [6, 7], R) + grid("h_zext", range(6, 9), range(8, 13), R) + grid("h_sext", range(6, 9), range(8, 13), R), "quick: concatenation of every two values of 1..=320 bits, extension of every value of 1..=320 bits by any amount to at most 512 bits; thorough: concatenation up to 448 bits each, extension of values of up to 512 bits to 768 bits")
deeper("C07", grid("h_cmp_unsigned", range(13, 17), R3), "quick: every pair of values of the same width, widths 1..=768; thorough: up to 1024 bits")
deeper("C08", grid("h_cmp_signed", range(13, 17), R3), "quick: every pair of values of the same width, widths 1..=768; thorough: up to 1024 bits")
deeper("C09", grid("h_eq", range(1, 9), range(1, 9)) + grid("h_hash", range(9, 13)) + grid("h_ord", range(1, 7), range(1, 7)), "quick: every pair (ordering: triple) of values of 1..=320 bits (ordering: 256), widths independent of each other; thorough: up to 512 bits (ordering: 384)")
deeper("C10", grid("h_bits", range(11, 17), R3) + grid("h_assign", range(11, 17), R), "quick: " + W % 640 + ", every bit position; thorough: up to 1024 bits")
deeper("C11", grid("h_from_int", range(9, 17), R) + grid("h_to_int", range(11, 17), R3), "quick: " + W % 512 + " and every 64-bit integer; thorough: up to 1024 bits")
deeper("C12", grid("h_to_bytes", range(9, 17), R) + grid("h_from_bytes", range(7, 13)), "quick: " + W % 512 + " to bytes; every byte string of at most ceil(width/8) bytes for widths 1..=384; thorough: 1024 / 768 bits")
deeper("C13", grid("h_big_uint", [7, 8], R) + grid("h_big_int", [6, 7], R) + each("h_from_big", [(4, 9), (5, 10)]) + grid("h_big_auto", range(10, 14)), "quick: " + W % 384 + "; big integers of up to 288 bits; thorough: 512 / 416 bits")
deeper("C14", sum([each(h, [(k, c, 8, (k + c + o) % 2) for k in (5, 6) for c in range(8)]) for h, o in (("h_bit_str", 1), ("h_hex_str", 0))], []), "quick: " + W % 256 + "; thorough: up to 384 bits")
deeper("C16", [], PROPS["C16"]["bounds"])
deeper("C28", grid("h_value", range(9, 13)), "quick: values of 1..=512 bits, each pair with independent widths of 1..=448 bits, and arrays of up to eight elements of 1..=192 bits in both representations; thorough: values of up to 768 bits")
deeper("C29", grid("h_views", range(13, 17)), "quick: every value of 1..=768 bits; thorough: 1024 bits")

# values of many words: given widths, a fixed pattern with symbolic words at both ends and in the middle
BIG = [1000, 4161, 70001]


def wide(id, jobs, text):
    # sizes do not depend on the build profile: alternate between the two
    PROPS[id]["quick"] += [dict(h=h, p=list(p), prof=("debug", "release")[i % 2]) for i, (h, p) in enumerate(jobs)]
    PROPS[id]["thorough"] += [dict(h=h, p=list(p), prof=("release", "debug")[i % 2]) for i, (h, p) in enumerate(jobs)]
    PROPS[id]["bounds"] += "; and " + text


WIDE = "values of 1000, 4161 and 70001 bits whose lowest, middle and two upper words are arbitrary and whose other words are zeros, ones or a fixed pattern"
wide("C01", [("h_wide_add", (w, a, b)) for w in BIG + [65600] for a, b in ((0, 1), (1, 1), (1, 2), (2, 2))], WIDE.replace("lowest, middle and ", "") + " (also 65600 bits)")
wide("C03", [("h_wide_bits", (w, a, b)) for w in BIG + [65600] for a, b in ((0, 1), (2, 3))], WIDE)
wide("C04", [("h_wide_shift", (w, f, s)) for w in BIG for f in (2, 3) for s in sorted({0, 1, 64, 127, w // 2, w - 65, w - 64, w - 1, w, w + 1, 256, 65535, 65536, 70000, 1 << 32, (1 << 32) + 3, 1 << 63})], WIDE + " with shift amounts around 0, half the width, the width, 2^8, 2^16, 2^32 and 2^63")
wide("C05", [("h_wide_slice", (w, f, hi, lo)) for w in BIG for f, hi, lo in ((2, w - 1, 0), (3, w - 1, 1), (2, w - 2, w // 2), (3, w - 1, w - 1), (2, w - 1, w - 64), (3, w - 3, w - 66), (2, 299, 44), (3, w // 2 + 70, w // 2 - 70), (2, 63, 0), (3, w - 1, 256), (2, w - 1, 64))] + [("h_wide_slice", (70001, 2, hi, lo)) for hi, lo in ((65600, 65536), (65599, 65535), (65536, 65536), (69999, 65537), (65535, 0), (65536, 0), (65536, 1))], WIDE + " with slices at both ends, across the middle and around bits 256 and 65536")
wide("C06", [("h_wide_concat", (a, b, 2, 3)) for a, b in ((1000, 1000), (1000, 1024), (1, 4160), (4160, 1), (4161, 63), (70001, 1000), (1000, 70001), (65536, 64), (64, 65536), (33, 65600), (320, 321), (512, 448), (450, 1))], "concatenations and extensions of values of up to 70001 bits whose lowest, middle and two upper words are arbitrary and whose other words follow a fixed pattern")
wide("C07", [("h_wide_cmp", (w, f, at, 0)) for w in BIG for f, at in ((0, 0), (1, 1), (2, (w // 64) // 2), (3, (w - 1) // 64 - 1), (2, (w - 1) // 64), (2, 7))] + [("h_wide_cmp", (70001, 2, at, 0)) for at in (255, 256, 257, 1023, 1024)], "pairs of values of 1000, 4161 and 70001 bits that differ in at most one, arbitrary, word")
wide("C08", [("h_wide_cmp", (w, f, at, 1)) for w in BIG for f, at in ((0, 0), (1, 1), (2, (w // 64) // 2), (3, (w - 1) // 64 - 1), (2, (w - 1) // 64), (2, 7))] + [("h_wide_cmp", (70001, 2, at, 1)) for at in (255, 256, 257, 1023, 1024)], "pairs of values of 1000, 4161 and 70001 bits that differ in at most one, arbitrary, word")
wide("C09", [("h_wide_cmp", (w, f, at, 2)) for w in BIG for f, at in ((0, 0), (1, 1), (2, (w // 64) // 2), (3, (w - 1) // 64 - 1), (2, (w - 1) // 64), (2, 7))] + [("h_wide_cmp", (70001, 2, at, 2)) for at in (255, 256, 257, 1023, 1024)], "pairs of values of 1000, 4161 and 70001 bits that differ in at most one, arbitrary, word")
wide("C10", [("h_wide_assign", (w, f, p)) for w in BIG for f, p in ((2, 0), (3, 63), (2, 64), (3, w // 2), (2, w - 2), (3, w - 1), (2, 255), (3, 256), (2, 257), (3, 320))] + [("h_wide_assign", (70001, 2, p)) for p in (4095, 16384, 65535, 65536, 65537, 65600)], WIDE + ", bits around 0, 64, 256, 65536 and the width")
wide("C11", [("h_wide_int", (w, at)) for w in BIG for at in sorted({1, 2, 7, (w // 64) // 2, (w - 1) // 64 - 1, (w - 1) // 64})] + [("h_wide_int", (70001, at)) for at in (255, 256, 1023, 1024)], "integers from and to 1000, 4161 and 70001 bits, with an arbitrary upper word")
wide("C12", [("h_wide_bytes", (w, f)) for w in BIG + [65600, 65528] for f in (0, 2)], WIDE)
wide("C13", [("h_wide_big", (w, f)) for w in BIG + [1024, 65600] for f in (0, 1, 2) if f != 1 or w < 65536], WIDE.replace("lowest, middle and two upper words are", "highest word (and one in the middle) is"))
wide("C14", [("h_wide_str", (w, f, s)) for w in BIG + [65600] for f in (0, 2) for s in (0, 1)], WIDE)
wide("C15", [("h_wide_str", (w, f, s)) for w in BIG + [65600] for f in (0, 1, 2) for s in (2, 3)], WIDE.replace("lowest, middle and two upper words are", "highest word is"))
wide("C17", [("h_wide_parse", (n, r, sg, x)) for r, n in ((2, 300), (2, 1025), (2, 4161), (16, 70), (16, 257), (16, 1041)) for sg, x in ((0, 0), (1, 5), (2, 1), (0, 70))] + [("h_wide_parse", (n, r, sg, 0)) for r, n in ((2, 65600), (16, 17000)) for sg in (0, 1)], "digit strings of up to 65600 characters with a few arbitrary ones")
wide("C18", [("h_wide_round", (w, f, s)) for w in (1000, 4200) for f, s in ((2, 0), (3, 0), (2, 1), (3, 1), (0, 2), (2, 2), (0, 3), (2, 3))], "values of 1000 and 4200 bits with a few arbitrary words")
wide("C21", [("h_wide_store", p) for p in ((400, 0, 64, 255, 70, 300, 1000), (400, 256, 100, 1, 33, 399, 64), (3000, 1024, 192, 2999, 7, 0, 129), (70000, 65535, 64, 65536, 65, 69998, 128), (70000, 65536, 200, 0, 64, 65535, 3), (70000, 69000, 63999, 5, 6, 66000, 64))], "stores of up to 70000 words with three given values that are arbitrary at their ends")
wide("C22", [("h_wide_intern", p) for p in ((20, 32, 64), (300, 70, 64), (300, 32, 128), (300, 32, 64))], "two arbitrary values (or values with an arbitrary word) after 20 and 300 others")
wide("C29", [("h_wide_views", (w, f)) for w in BIG + [65600] for f in (0, 2)], WIDE)


# ranges of widths, one after the other, with arbitrary contents
def ranges(h, lo, hi, step, *rest):
    return [(h, (a, min(a + step - 1, hi)) + rest) for a in range(lo, hi + 1, step)]


SWEEP = "every width of 1..=%d bits with arbitrary contents"
wide("C01", ranges("h_sweep_add", 1, 2048, 256), "every width of 1..=2048 bits with two arbitrary words (known ones elsewhere)")
wide("C03", ranges("h_sweep_bits", 1, 2048, 256), SWEEP % 2048)
wide("C04", ranges("h_sweep_shift", 1, 1280, 128, 0) + ranges("h_sweep_shift", 129, 384, 32, 1), SWEEP % 1280 + " and amounts around the word borders, half the width and the width (widths of 129..=384: every amount)")
wide("C05", ranges("h_sweep_slice", 1, 1024, 128, 0) + ranges("h_sweep_slice", 1, 64, 64, 1) + [("h_sweep_slice", (a, a + 1, 1)) for a in (127, 190, 255, 257, 319, 383)], SWEEP % 1024 + " and slices that start and end around word borders and both ends")
wide("C06", ranges("h_sweep_concat", 1, 1024, 128), SWEEP % 1024 + " concatenated with and extended by 18 different widths each")
wide("C07", ranges("h_sweep_cmp", 1, 1024, 128, 0), "pairs of values of every width of 1..=1024 bits that differ in at most one, arbitrary, word")
wide("C08", [("h_sweep_cmp", (a, a + 3, 1)) for a in (385, 446, 510, 574, 638, 702, 766, 830, 894, 958, 1022)], "pairs of values of 44 widths between 385 and 1025 bits that differ in at most one, arbitrary, word")
wide("C09", ranges("h_sweep_cmp", 1, 1024, 128, 2), "pairs of values of every width of 1..=1024 bits that differ in at most one, arbitrary, word")
wide("C10", ranges("h_sweep_mutate", 1, 1280, 128, 0) + ranges("h_sweep_mutate", 1, 384, 64, 1), SWEEP % 1280 + " and bits around word borders and both ends (up to 384: every bit)")
wide("C11", ranges("h_sweep_int", 66, 2048, 248), "integers from and to every width of 66..=2048 bits")
wide("C12", ranges("h_sweep_bytes", 1, 2048, 256), SWEEP % 2048)
wide("C13", ranges("h_sweep_big", 3, 1024, 128), "odd numbers of a known sign and length of every width of 3..=1024 bits")
wide("C14", ranges("h_sweep_str", 1, 1024, 128, 0) + ranges("h_sweep_str", 1, 1024, 256, 1), SWEEP % 1024)
wide("C15", ranges("h_sweep_sstr", 2, 768, 64, 2) + ranges("h_sweep_sstr", 2, 1024, 256, 3), "odd numbers of a known sign of every width of 2..=768 bits (hexadecimal: 1024), the smallest number, -1 and numbers with many trailing zeros")
wide("C17", ranges("h_sweep_parse", 1, 512, 64, 2) + ranges("h_sweep_parse", 1, 256, 32, 16), "binary strings of 1..=512 and hexadecimal strings of 1..=256 digits, one of them arbitrary")
wide("C18", sum((ranges("h_sweep_round", 2, 1024, 256, s) for s in range(4)), []), "every width of 2..=1024 bits with two arbitrary bits (signed: known ones), and the smallest value, zero, all ones and values with many trailing zeros")
wide("C29", ranges("h_sweep_views", 1, 2048, 512), SWEEP % 2048)

# long histories: fixed places, arbitrary values
H = "%d histories of %d operations on fixed places that store arbitrary values"
wide("C23", [("h_history", (iw, dw, 0, 40, 11 * iw + dw, 8, 0)) for iw in (1, 2, 3, 5, 9) for dw in (1, 5, 8, 9, 33, 64, 65, 130, 1000)] + [("h_history", (5, 70001, 0, 20, 5, 1, 0)), ("h_history", (13, 64, 0, 40, 5, 2, 0)), ("h_history", (17, 8, 0, 40, 5, 2, 0))], H % (365, 40))
wide("C24", [("h_history", (iw, dw, 1, 40, 11 * iw + dw, 8, 1)) for iw in (1, 3, 8, 32, 63, 64, 65, 128, 200, 1000) for dw in (1, 8, 33, 64, 65, 130, 1000)] + [("h_history", (20, 70001, 1, 20, 5, 1, 1)), ("h_history", (70001, 8, 1, 20, 5, 1, 1))], H % (560, 40))
wide("C25", [("h_history", (iw, dw, sp, 40, 11 * iw + dw, 6, 2)) for iw in (1, 3, 6) for dw in (1, 8, 33, 64, 65, 130, 1000) for sp in (0, 1) if dw != 8 or sp], H % (230, 40) + ", then a conversion")
wide("C26", [("h_history", (iw, dw, sp, 30, 11 * iw + dw, 6, 3)) for iw in (1, 3, 6) for dw in (1, 8, 33, 64, 65, 130, 1000) for sp in (0, 1)] + [("h_history", (iw, dw, 1, 30, 7, 6, 3)) for iw in (32, 64, 65, 200) for dw in (8, 64, 65, 200)], H % (340, 30) + " against an array with the same contents stored in another order")

# very large values, arrays and stores
B5 = 5000001
HUGE = "a few operations on values of 5000001 bits"
wide("C01", [("h_wide_add", (B5, 2, 2)), ("h_wide_add", (B5, 1, 1)), ("h_wide_add", (B5, 0, 1))], HUGE)
wide("C03", [("h_wide_bits", (B5, 2, 3)), ("h_wide_bits", (B5, 0, 1))], HUGE)
wide("C04", [("h_wide_shift", (B5, 2, s)) for s in (1, 65536, 1 << 20, 4200000, 4194304, B5 - 1)], HUGE)
wide("C05", [("h_wide_slice", (B5, f, hi, lo)) for f, hi, lo in ((2, B5 - 1, 64), (3, B5 - 1, 0), (2, B5 - 1, 4900000), (3, 131135, 131070), (2, 262143, 262100), (3, 1048640, 1048570), (2, 4194400, 4194300), (3, 4194303, 131072), (2, 2097152, 2097152))], HUGE)
wide("C06", [("h_wide_concat", (a, b, 2, 3)) for a, b in ((B5, 1000), (1000, B5), (B5, 64), (262144, 131072))], HUGE)
wide("C07", [("h_wide_cmp", (B5, 2, at, 0)) for at in (0, 65535, 65536, 66000, B5 // 64)], HUGE)
wide("C08", [("h_wide_cmp", (B5, 2, at, 1)) for at in (0, 65535, 65536, 66000, B5 // 64)], HUGE)
wide("C09", [("h_wide_cmp", (B5, 2, at, 2)) for at in (0, 65535, 65536, 66000, B5 // 64)], HUGE)
wide("C10", [("h_wide_assign", (B5, 2 + p % 2, p)) for p in (0, 131071, 131072, 131073, 1 << 20, (1 << 22) - 1, 1 << 22, B5 - 1)], HUGE)
wide("C11", [("h_wide_int", (B5, at)) for at in (1, 4096, 65535, 65536, 66000, B5 // 64)], HUGE)
wide("C12", [("h_wide_bytes", (B5, f)) for f in (0, 2)] + [("h_wide_bytes", (524288 + 8, 2))], HUGE)
wide("C13", [("h_wide_big", (B5, 0)), ("h_wide_big", (B5, 2))], HUGE)
wide("C14", [("h_wide_str", (B5, 2, 1)), ("h_wide_str", (300000, 2, 0)), ("h_wide_str", (600000, 0, 1))], HUGE.replace("5000001", "300000, 600000 and 5000001"))
wide("C15", [("h_wide_str", (300000, 2, 2)), ("h_wide_str", (600000, 2, 3)), ("h_wide_str", (600000, 1, 3))], HUGE.replace("5000001", "300000 and 600000"))
wide("C17", [("h_wide_parse", (80000, 16, 1, 1)), ("h_wide_parse", (150000, 2, 0, 3))], "a few strings of 80000 and 150000 digits")
wide("C21", [("h_wide_store", p) for p in ((140000, 66000, 64 * 70000 + 3, 5, 6, 3, 64), (140000, 0, 64 * 65536, 65600, 65, 139000, 64 * 1000), (140000, 131072, 8000 * 64, 65536, 65535 * 64 + 1, 0, 64 * 65535))], "stores of 140000 words with values of up to 70001 words")
wide("C29", [("h_wide_views", (B5, f)) for f in (0, 2)], HUGE)

wide("C16", [("h_dec_near", (k, t, lo, 39, 0)) for k, lo in ((2, 1), (3, 20), (5, 20)) for t in range(5)], "numbers of 1..=39 digits in 5 patterns of which one digit is arbitrary (without the assumption)")
wide("C17", [("h_dec_read", p) for p in ((0, 1, 39, 0, 0), (0, 1, 39, 0, 1), (0, 1, 39, 1, 2), (1, 1, 39, 2, 0), (3, 1, 39, 2, 2), (1, 1, 39, 0, 1))], "decimal strings of 1..=39 digits in 3 patterns of which one digit is arbitrary, in widths that are just large enough, one too small, and 128")
wide("C18", [("h_dec_near", (2, t, 1, 39, 1)) for t in range(5)], "decimal numbers of 1..=39 digits in 5 patterns of which one digit is arbitrary")

RUNS = "%s in which runs of up to 200 neighbouring elements are stored and a part of them overwritten, one arbitrary value in each run"
wide("C23", [("h_burst", p) for p in ((17, 1, 0, 4, 200, 20000, 0, 0), (17, 1, 0, 4, 200, 20000, 0, 1), (13, 8, 0, 4, 130, 1500, 0, 0), (13, 64, 0, 4, 130, 1500, 0, 1), (17, 16, 0, 4, 200, 30000, 0, 0), (17, 32, 0, 4, 200, 30000, 0, 0), (12, 130, 0, 4, 100, 900, 0, 0), (20, 1, 0, 6, 100, 70000, 0, 1))], RUNS % "arrays of 2^12 to 2^20 elements")
wide("C24", [("h_burst", (iw, dw, 1, 6, 40, dist, 1, one)) for iw, dw, dist, one in ((12, 8, 300, 0), (32, 64, 1 << 20, 1), (40, 1, 1 << 33, 0), (64, 8, 5000000000, 1), (64, 64, 1000, 0), (64, 65, 1 << 40, 1), (65, 8, 5000, 0), (128, 64, 1 << 50, 1), (130, 130, 300, 0), (20, 1000, 3000, 0))] + [("h_burst", (64, 64, 1, 8, 120, 1 << 33, 1, 1)), ("h_burst", (66, 200, 1, 4, 100, 200, 1, 0))], RUNS % "arrays with indices of 12 to 130 bits")
wide("C25", [("h_burst", (iw, dw, sp, 4, ln, dist, 2, one)) for iw, dw, ln, dist in ((17, 1, 200, 20000), (12, 8, 100, 200), (12, 64, 40, 200), (12, 65, 40, 200), (13, 32, 130, 1500)) for sp in (0, 1) for one in (0, 1)], RUNS % "arrays of 2^12 to 2^17 elements" + ", then a conversion")
wide("C26", [("h_burst", (iw, dw, sp, 4, 40, dist, 3, one)) for iw, dw, sp, dist in ((12, 8, 1, 200), (64, 8, 1, 1 << 33), (64, 65, 1, 200), (65, 64, 1, 5000), (130, 130, 1, 300), (13, 8, 0, 1500), (13, 64, 0, 1500), (17, 1, 0, 20000)) for one in (0, 1)], RUNS % "arrays with indices of 12 to 130 bits" + ", against the same contents stored in another order")
wide("C27", [("h_serde_wide", (iw, dw, kd, 6, (iw + dw + kd) % 2)) for iw in (33, 64, 65, 200, 256, 300, 1000, 70001) for dw in (1, 33, 64, 65, 256, 300, 1000) for kd in (1, 2)] + [("h_serde_wide", (iw, dw, 0, 6, (iw + dw) % 2)) for iw in (3, 6, 9, 12) for dw in (1, 8, 9, 33, 64, 65, 300, 1000)] + [("h_serde_wide", (B5, 64, 1, 4, 0)), ("h_serde_wide", (B5, 8, 2, 4, 1))] + [("h_serde_wide", (iw, 70001, kd, 2, kd)) for iw, kd in ((4, 0), (70001, 1), (12, 2))] + [("h_serde_wide", (0, dw, 3, 0, nm)) for dw in (256, 257, 1000, 4161, 70001) for nm in (0, 1)], "values of up to 70001 bits and arrays with indices of up to 5000001 and elements of up to 70001 bits that contain six arbitrary values at given places")

# widths that are powers of two or multiples of 64 words
POW = [4096, 36864, 65536]
PT = "a few operations on values of 4096, 36864 and 65536 bits"
wide("C01", [("h_wide_add", (w, a, b)) for w in POW for a, b in ((1, 1), (2, 2))], PT)
wide("C03", [("h_wide_bits", (w, 2, 3)) for w in POW], PT)
wide("C04", [("h_wide_shift", (w, 2 + s % 2, s)) for w in POW for s in (1, 64, 100, w // 2, w - 64, w - 1, w)], PT)
wide("C05", [("h_wide_slice", (w, 2, hi, lo)) for w in POW for hi, lo in ((w - 1, 0), (w - 1, 64), (w - 1, w // 2), (w // 2 - 1, 0), (2048, 2047), (w - 1, w - 1))], PT)
wide("C06", [("h_wide_concat", (a, b, 2, 3)) for a, b in ((4096, 4096), (65536, 65536), (1, 65536), (65536, 1), (32768, 4096))], PT)
for _i, _p in enumerate(("C07", "C08", "C09")):
    wide(_p, [("h_wide_cmp", (w, at % 4, at, _i)) for w in POW for at in (0, 31, 32, 33, 62, 63) + ((64, 255, 511, 512) if w > 4096 else ())], PT)
wide("C10", [("h_wide_assign", (w, 2, p)) for w in POW for p in (0, 2048, 4095, w - 1)], PT)
wide("C11", [("h_wide_int", (w, at)) for w in POW for at in (1, 31, 32, 63, w // 64 - 1)], PT)
wide("C12", [("h_wide_bytes", (w, 2)) for w in POW + [2048, 32768]], PT)
wide("C13", [("h_wide_big", (w, 2)) for w in POW], PT)
wide("C14", [("h_wide_str", (w, 2, s)) for w in POW for s in (0, 1)], PT)
wide("C15", [("h_wide_str", (w, f, s)) for w in POW for f in (0, 2) for s in (2, 3)], PT)
wide("C17", [("h_wide_parse", (n, r, 0, 0)) for r, n in ((2, 4096), (2, 65536), (16, 1024), (16, 16384), (16, 64), (2, 256))], "digit strings of 2^k characters")
wide("C18", [("h_wide_round", (w, f, s)) for w in (4096, 4097, 2049) for f, s in ((2, 0), (2, 1), (0, 2), (2, 2), (0, 3), (2, 3)) if s > 1 or w == 4096], "values of 2049, 4096 and 4097 bits (the odd ones in the signed styles)")
wide("C29", [("h_wide_views", (w, 2)) for w in POW], PT)
