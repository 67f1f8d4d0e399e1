# ---- hexutil ----
HX = "common/hexutil/hexutil.go"; HJ = "common/hexutil/json.go"
P("C01", "Hex byte strings round-trip and accept exactly 0x-hex of even length",
  "Encoding any byte string yields 0x followed by two lower-case hex digits per byte, and decoding that text gives the bytes back. Decoding a text succeeds exactly when it is 0x/0X followed by an even number of hex digits, and then yields the value of the digits; every other text yields the one error that names what is wrong with it (empty, no prefix, odd length, bad digit). The text and JSON forms of the byte type agree with this.",
  ["inputs"], "every byte string and every text within the bound", "Tests list about twenty texts; acceptance, error class and value must agree for every text.",
  [HX, HJ], [("Decode", HX), ("Encode", HX), ("Bytes.UnmarshalText/MarshalText/UnmarshalJSON", HJ)],
  quick=[H("hhex", "BytesEncode", "byte strings of up to 8 bytes", n=8), H("hhex", "BytesDecode", "all texts of up to 8 bytes", n=8), H("hhex", "BytesText", "all texts of up to 6 bytes through the text and JSON decoders", n=6), H("hhex", "NonString", "all JSON inputs of up to 5 bytes that are not strings", 60, lo=3, hi=3, n=5), H("hhex", "BytesEncode", "byte strings of 31 to 33 bytes", 100, **{"from": 31, "n": 33}), H("hhex", "BytesDecode", "all texts of 64 to 67 bytes", 100, shards=2, **{"from": 64, "n": 67}), H("hhex", "BytesText", "all texts of 64 to 66 bytes through the text and JSON decoders", 100, **{"from": 64, "n": 66})],
  thorough=[H("hhex", "BytesEncode", "byte strings of up to 24 bytes", 600, n=24), H("hhex", "BytesDecode", "all texts of up to 16 bytes", 900, n=16), H("hhex", "BytesText", "all texts of up to 12 bytes", 900, n=12), H("hhex", "NonString", "all JSON inputs of up to 7 bytes that are not strings", 300, lo=3, hi=3, n=7), H("hhex", "BytesEncode", "byte strings of 31 to 33 bytes", 600, **{"from": 31, "n": 33}), H("hhex", "BytesDecode", "all texts of 64 to 67 bytes", 600, shards=2, **{"from": 64, "n": 67}), H("hhex", "BytesText", "all texts of 64 to 66 bytes through the text and JSON decoders", 600, **{"from": 64, "n": 66})],
  outside="longer texts (the code treats every digit pair alike)")
P("C02", "uint64 hex quantities are canonical and never wrap",
  "Encoding any 64-bit unsigned value gives 0x and its minimal hex digits (0x0 for zero), which decode to the same value. Decoding accepts exactly a 0x prefix followed by 1 to 16 hex digits without a leading zero (or the single digit 0); every other text is rejected with the error that names its defect, and a value above 64 bits is reported as out of range instead of wrapping.",
  ["inputs"], "every 64-bit value; every text within the bound", "Tests sample a few values; overflow, leading zeros and error class are claims about all texts.",
  [HX, HJ], [("DecodeUint64", HX), ("EncodeUint64", HX), ("Uint64/Uint text and JSON", HJ)],
  quick=[H("hhex", "UintEncode", "all 64-bit values"), H("hhex", "UintDecode", "all texts of up to 19 bytes", n=19), H("hhex", "UintText", "all texts of up to 19 bytes through text and JSON decoders of Uint64 and Uint", n=19), H("hhex", "NonString", "all JSON inputs of up to 5 bytes that are not strings", 60, lo=0, hi=1, n=5), H("hhex", "UintDecode", "all texts of 62 to 66 bytes", 100, **{"from": 62, "n": 66}), H("hhex", "UintText", "all texts of 62 to 66 bytes through text and JSON decoders", 100, **{"from": 62, "n": 66})],
  thorough=[H("hhex", "UintEncode", "all 64-bit values"), H("hhex", "UintDecode", "all texts of up to 24 bytes", 900, n=24), H("hhex", "UintText", "all texts of up to 24 bytes", 900, n=24), H("hhex", "NonString", "all JSON inputs of up to 7 bytes that are not strings", 300, lo=0, hi=1, n=7), H("hhex", "UintDecode", "all texts of 62 to 66 bytes", 600, **{"from": 62, "n": 66}), H("hhex", "UintText", "all texts of 62 to 66 bytes through text and JSON decoders", 600, **{"from": 62, "n": 66})],
  outside="texts longer than 24 bytes")
P("C03", "Big hex quantities round-trip and are bounded by 256 bits",
  "Encoding any integer of up to 256 bits gives its minimal hex quantity, which decodes to the same integer. Decoding accepts exactly 0x followed by hex digits without a leading zero whose value fits 256 bits; longer values are reported as too large, and other texts with the error that names their defect.",
  ["inputs"], "every integer and text within the bound", "Tests sample a handful of integers; word boundaries (64, 128, 192, 256 bits) and all digit positions must be right.",
  [HX, HJ], [("DecodeBig", HX), ("EncodeBig", HX), ("Big text and JSON", HJ)],
  quick=[H("hhex", "BigEncode", "integers of up to 32 bytes", 150, shards=4, bytes=32), H("hhex", "BigDecode", "all texts of up to 20 bytes", n=20), H("hhex", "BigDecode", "well-formed digit strings of 62 to 66 digits (the 256-bit limit)", lo=64, n=68, wf=1), H("hhex", "NonString", "all JSON inputs of up to 5 bytes that are not strings", 60, lo=2, hi=2, n=5), H("hhex", "BigDecode", "all texts of 64 to 67 bytes", 150, shards=2, lo=64, n=67)],
  thorough=[H("hhex", "BigEncode", "integers of up to 32 bytes", 900, bytes=32), H("hhex", "BigDecode", "all texts of up to 36 bytes", 1500, n=36), H("hhex", "BigDecode", "well-formed digit strings up to 68 bytes", 900, lo=36, n=68, wf=1), H("hhex", "NonString", "all JSON inputs of up to 7 bytes that are not strings", 300, lo=2, hi=2, n=7)],
  outside="texts longer than 68 bytes; arbitrary (ill-formed) texts longer than 36 bytes")
P("C04", "Fixed-size hex decoding demands the exact length",
  "Decoding hex text into a fixed-size destination succeeds exactly when the text is valid hex of exactly twice the destination's length (with the prefix where one is required), and then stores exactly the bytes the digits name. On every failure the destination is left as it was.",
  ["inputs"], "every text and destination length within the bound", "Length and partial-write behaviour must hold for each length, text and error position.",
  [HJ], [("UnmarshalFixedText/UnmarshalFixedUnprefixedText/UnmarshalFixedJSON", HJ)],
  quick=[H("hhex", "Fixed", "destinations of 0-3 bytes, all texts of up to 8 bytes", n=8, m=3), H("hhex", "NonString", "all JSON inputs of up to 5 bytes that are not strings", 60, lo=4, hi=4, n=5), H("hhex", "Fixed", "destinations of 20 bytes, all texts of 40 to 42 bytes", 100, m=20, mfrom=20, **{"from": 40, "n": 42}), H("hhex", "Fixed", "destinations of 32 bytes, all texts of 64 to 66 bytes", 100, m=32, mfrom=32, **{"from": 64, "n": 66})],
  thorough=[H("hhex", "Fixed", "destinations of 0-6 bytes, all texts of up to 14 bytes", 1200, n=14, m=6), H("hhex", "NonString", "all JSON inputs of up to 7 bytes that are not strings", 300, lo=4, hi=4, n=7), H("hhex", "Fixed", "destinations of 20 bytes, all texts of 40 to 42 bytes", 600, m=20, mfrom=20, **{"from": 40, "n": 42}), H("hhex", "Fixed", "destinations of 32 bytes, all texts of 64 to 66 bytes", 600, m=32, mfrom=32, **{"from": 64, "n": 66})],
  outside="larger destinations")
P("C05", "Non-string JSON and nil or failed decodes never corrupt hex values",
  "Decoding JSON that is not a string into any of the hex types fails with a type error; that, and every other decode that fails, leaves the destination unchanged. The GraphQL decoders accept the documented types only, and the panicking variants panic exactly on the texts that the plain decoders reject.",
  ["inputs"], "every JSON text and scalar within the bound", "Tests try two or three wrong inputs per type.",
  [HJ, HX], [("UnmarshalJSON family", HJ), ("UnmarshalGraphQL", HJ), ("MustDecode family", HX)],
  quick=[H("hhex", "NonString", "all JSON inputs of up to the bound that are not strings"), H("hhex", "GraphQL", "texts and integers"), H("hhex", "MustPanics", "all texts of up to 6 bytes", n=6), H("hhex", "FailKeep", "all texts of up to 6 bytes, byte strings of up to 4 bytes before", n=6), H("hhex", "FailKeep", "all texts of 17 to 20 bytes, byte strings of up to 4 bytes before", 100, **{"from": 17, "n": 20})],
  thorough=[H("hhex", "NonString", "all JSON inputs of up to the bound that are not strings", 600), H("hhex", "GraphQL", "texts and integers", 600), H("hhex", "MustPanics", "all texts of up to 12 bytes", 900, n=12), H("hhex", "FailKeep", "all texts of up to 12 bytes", 900, n=12), H("hhex", "FailKeep", "all texts of 17 to 20 bytes, byte strings of up to 4 bytes before", 600, **{"from": 17, "n": 20})])

# ---- common ----
CB = "common/bytes.go"; CT = "common/types.go"; CF = "common/format.go"
P("C06", "Byte padding, trimming and copying preserve content",
  "Left and right padding to a length return the original bytes preceded or followed by zeros, never truncate, and copies never share storage with their source (the copy of a nil slice is nil, that of an empty one is empty). Trimming zeros removes exactly the leading or trailing zero bytes.",
  ["inputs"], "every byte string and length within the bound", "Tests use one vector per helper.",
  [CB], [("LeftPadBytes/RightPadBytes", CB), ("TrimLeftZeroes/TrimRightZeroes", CB), ("CopyBytes", CB)],
  quick=[H("hcom", "Pad", "byte strings and lengths up to the bound"), H("hcom", "Trim", "byte strings up to the bound")])
P("C07", "Lenient hex parsing of byte strings",
  "Byte strings written as hex and parsed back are unchanged, with or without the 0x prefix. Parsing drops a 0x/0X prefix, treats an odd number of digits as having a leading zero digit, and the fixed-length and optional-prefix helpers accept and reject exactly the texts their descriptions name.",
  ["inputs"], "every text within the bound", "Tests try a few literal strings.",
  [CB], [("FromHex", CB), ("Bytes2Hex/Hex2Bytes", CB), ("Hex2BytesFixed", CB), ("ParseHexOrString", CB)],
  quick=[H("hcom", "HexBytes", "byte strings up to the bound"), H("hcom", "ParseHex", "texts up to the bound")])
P("C08", "Hash and address values from bytes and integers",
  "Building a hash or address from bytes keeps the last 32 or 20 bytes, left-padded with zeros; from an integer, the big-endian value; and converting back to bytes or an integer returns the same value. Values of different content never compare equal.",
  ["inputs"], "every byte string of up to 34 bytes", "Cropping and padding must be right at every length, tests use a few.",
  [CT], [("BytesToHash/BytesToAddress/SetBytes", CT), ("BigToHash/BigToAddress/Big", CT), ("HexToHash/HexToAddress", CT)],
  quick=[H("hcom", "FromBytes", "byte strings of up to 34 bytes", n=34)])
P("C09", "Hash and address text, JSON, SQL and GraphQL forms round-trip",
  "Every hash and address written as text, JSON, SQL value or string decodes to the same value. The decoders accept exactly prefixed hex of the right length, in any case; anything else is an error and leaves the destination unchanged, and SQL scanning accepts only byte slices of the exact length.",
  ["inputs"], "all 2^160 addresses and 2^256 hashes; texts within the bound", "Tests decode a handful of literals.",
  [CT], [("Hash/Address MarshalText, UnmarshalText, UnmarshalJSON", CT), ("Scan/Value", CT), ("UnmarshalGraphQL", CT), ("UnprefixedHash/UnprefixedAddress", CT)],
  quick=[H("hcom", "RoundTrip", "all values"), H("hcom", "Decoders", "texts around the exact length"), H("hcom", "Scan", "byte slices around the exact length")])
P("C10", "Address checksum follows EIP-55 for every address",
  "The text of an address is 0x followed by its 40 hex digits where each letter is upper case exactly when the matching digit of the Keccak-256 of the lower-case text is at least 8. The checksum form decodes to the same address.",
  ["inputs"], "all 2^160 addresses", "Tests compare eight known addresses.",
  [CT], [("Address.Hex/checksumHex", CT)],
  quick=[H("hcom", "Checksum", "all addresses, with an arbitrary hash function in place of Keccak-256", 120)],
  assume=["golang.org/x/crypto/sha3 is an uninterpreted function of its input"])
P("C11", "Mixed-case addresses keep and judge their original text",
  "A mixed-case address accepts exactly the texts that are valid addresses, keeps the text it was given, and reports the checksum valid exactly when that text equals the checksum form. Its JSON form is the original text with one 0x prefix, and its printed form marks an invalid checksum.",
  ["inputs"], "every address text", "Tests check four literal addresses.",
  [CT], [("NewMixedcaseAddressFromString", CT), ("ValidChecksum", CT), ("MixedcaseAddress.MarshalJSON/UnmarshalJSON", CT)],
  quick=[H("hcom", "MixedJSON", "all 40-digit texts with and without prefix"), H("hcom", "MixedWrite", "all addresses")],
  assume=["golang.org/x/crypto/sha3 is an uninterpreted function of its input"])
P("C12", "Address text recognition",
  "A text is recognised as an address exactly when it consists of 40 hex digits, optionally preceded by 0x or 0X.",
  ["inputs"], "every text of up to 43 bytes", "Tests use ten literals.",
  [CT, CB], [("IsHexAddress", CT)],
  quick=[H("hcom", "IsAddr", "all texts of up to 43 bytes", 120)])
P("C13", "Printing verbs of hashes and addresses",
  "For every hash and address, formatting with %x, %X, %s, %v, %q and %d, with and without the # flag, prints exactly the documented form: lower- or upper-case digits, the prefix when flagged, quotes for %q, the byte list for %d; any other verb prints the bad-verb mark.",
  ["inputs"], "all values, all verbs within the list", "Tests print one address and one hash.",
  [CT], [("Hash.Format/Address.Format", CT)],
  quick=[H("hcom", "Verbs", "all values and the listed verbs", 120)])
P("C14", "Pretty ages name the right units",
  "The pretty form of an age lists the largest non-zero units first, at most three of them, each with the right count, and prints 0 for ages below one second (an age that is an exact multiple of a unit, to the nanosecond, may be given in the next smaller unit).",
  ["inputs"], "every duration within the bound", "Tests use no ages at all.",
  [CF], [("PrettyAge.String", CF)],
  quick=[H("hcom", "Age", "ages whose leading unit is at most days", 100, frozenclock=1, lo=3), H("hcom", "Age", "ages of whole days up to 99 years", 100, frozenclock=1, lo=0, coarse=1)],
  thorough=[H("hcom", "Age", "all ages up to the bound", 1200, frozenclock=1, lo=0)],
  assume=["time.Since is evaluated with a clock that does not advance during the call"])

P("C45", "Storage sizes are printed in the right unit, to the nearest hundredth",
  "A storage size is printed in the largest of the units TiB, GiB, MiB, KiB of which it is more than one, else in bytes, with two decimals, rounded to the nearest; the string form and the console form differ in the blank before the unit only.",
  ["inputs"], "every whole number of bytes and of eighths of bytes within the bound", "There are no tests of this type, and each unit has its own branch and divisor.",
  ["common/size.go"], [("StorageSize.String", "common/size.go"), ("StorageSize.TerminalString", "common/size.go")],
  quick=[H("hcom", "Size", "every whole number of bytes up to 2^52 and of eighths of bytes up to 2^50", 60, nomerge=1, dyadic=1)],
  thorough=[H("hcom", "Size", "every whole number of bytes up to 2^52 and of eighths of bytes up to 2^50", 300, nomerge=1, dyadic=1)],
  outside="sizes with other fractions, infinities and not-a-number",
  assume=["the formatting of floats by strconv is stood in for by its definition on fractions of a power of two (the exact value rounded, ties to even); witness inputs are replayed against the real strconv"])

P("C46", "Durations are shortened to three fraction digits, never rounded or moved",
  "The pretty form of a duration is the standard form with the digits of its fraction after the third one left out: sign, unit, whole part and the first three fraction digits are those of the standard form, and a duration with three digits or fewer is unchanged.",
  ["inputs"], "every duration within the bound, positive and negative", "Nothing tests this type, and the cut depends on how many digits the fraction happens to have.",
  ["common/format.go"], [("PrettyDuration.String", "common/format.go")],
  quick=[H("hcom", "Duration", "every whole number of nanoseconds below one hour, of either sign", 90, nomerge=1, scales=4)],
  thorough=[H("hcom", "Duration", "every whole number of nanoseconds below one hour, of either sign", 200, nomerge=1, scales=4), H("hcom", "Duration", "every whole number of nanoseconds below 100 hours, of either sign", 600, nomerge=1, scales=5)],
  outside="durations of 100 hours and more; the age form (PrettyAge), which depends on the wall clock")

# ---- common/math ----
CM = "common/math/big.go"
P("C15", "256-bit wrap-around and signed interpretation of integers",
  "Reducing an integer to 256 bits gives its value modulo 2^256 (two's complement for negatives), and its byte form is always exactly 32 big-endian bytes. Reading such a value as signed gives the number in [-2^255, 2^255) congruent to it, reducing that again returns the original, and the signed reading leaves its argument unchanged.",
  ["inputs"], "every integer within the bound", "There are no tests of this package at all.",
  [CM], [("U256", CM), ("U256Bytes", CM), ("S256", CM)],
  quick=[H("hmath", "U256", "integers of magnitude up to 33 bytes", 100, n=33), H("hmath", "S256", "all unsigned 256-bit integers")],
  thorough=[H("hmath", "U256", "integers of magnitude up to 40 bytes", 900, n=40), H("hmath", "S256", "all unsigned 256-bit integers", 300)])
P("C16", "Big-endian byte views of integers",
  "The padded byte form of an integer has at least the requested length, no more than needed beyond it, and equals its big-endian value. Storing into a buffer keeps the low-order bytes that fit, the n-th byte query agrees with the padded form, and none of these change the integer.",
  ["inputs"], "every non-negative integer, length and index within the bound", "There are no tests of this package at all.",
  [CM], [("PaddedBigBytes", CM), ("ReadBits", CM), ("Byte", CM), ("FirstBitSet", CM)],
  quick=[H("hmath", "Padded", "integers of up to 33 bytes, lengths 0-9, 20, 32", n=33), H("hmath", "ByteAt", "integers of up to 9 bytes, paddings 0-34, indexes 0-40", n=9), H("hmath", "FirstBit", "integers of up to 8 bytes, both signs", n=8), H("hmath", "ByteAt", "integers of 32 and 33 bytes, paddings 0-34, indexes 0-40", 100, **{"from": 32, "n": 33})],
  thorough=[H("hmath", "Padded", "integers of up to 33 bytes, lengths 0-9, 20, 32", 300, n=33), H("hmath", "ByteAt", "integers of up to 33 bytes, paddings 0-34, indexes 0-40", 1500, n=33), H("hmath", "FirstBit", "integers of up to 8 bytes", 600, n=8)])
P("C17", "Exponentiation modulo 2^256",
  "Exponentiation returns base^exponent modulo 2^256 for every exponent, including those of several machine words. Neither argument is changed.",
  ["inputs"], "symbolic bases with listed exponents; symbolic exponents with listed bases", "There are no tests of this package at all.",
  [CM], [("Exp", CM), ("BigPow", CM)],
  quick=[H("hmath", "Exp", "bases of up to 4 bytes, both signs, ten exponents up to 2^65", nb=4, ne=9), H("hmath", "ExpSym", "bases 0-3, all exponents up to 15", maxe=15), H("hmath", "Pow", "bases 0-255, exponents 0-6"), H("hmath", "Exp", "bases of up to 32 bytes, both signs, exponents 0 to 5", 100, nb=32, ne=4)],
  thorough=[H("hmath", "Exp", "bases of up to 4 bytes, ten exponents up to 2^65", 900, nb=4, ne=9), H("hmath", "ExpSym", "bases 0-3, all exponents up to 31", 900, maxe=31), H("hmath", "Pow", "bases 0-255, exponents 0-6", 300), H("hmath", "Exp", "bases of up to 32 bytes, both signs, exponents 0 to 5", 600, nb=32, ne=4)])
P("C18", "Decimal and hex integers of up to 256 bits parse exactly",
  "A text parses exactly when it is empty (zero), a decimal integer, or 0x/0X followed by a hex integer, optionally signed, with a magnitude of at most 256 bits; the result is the value written. The text decoders built on it accept the same texts and leave the destination unchanged on failure, and every value's text form decodes to the same value.",
  ["inputs"], "every text within the bound", "There are no tests of this package at all.",
  [CM], [("ParseBig256", CM), ("HexOrDecimal256", CM), ("Decimal256", CM)],
  quick=[H("hmath", "Parse", "all texts of up to 5 bytes", n=5), H("hmath", "ParseRange", "hex texts of 63-66 digits"), H("hmath", "RoundTrip", "integers of up to 32 bytes", n=32), H("hmath", "DecRound", "integers of up to 2 bytes in decimal")],
  thorough=[H("hmath", "Parse", "all texts of up to 8 bytes", 1500, n=8), H("hmath", "ParseRange", "hex texts of 63-66 digits", 600), H("hmath", "RoundTrip", "integers of up to 32 bytes", 900, n=32), H("hmath", "DecRound", "integers of up to 3 bytes in decimal", 900, n=3)])
P("C19", "Larger and smaller of two integers",
  "The maximum and minimum of two integers are one of the two arguments, are ordered correctly against both, and leave both unchanged.",
  ["inputs"], "every pair within the bound", "There are no tests of this package at all.",
  [CM], [("BigMax/BigMin", CM)],
  quick=[H("hmath", "MinMax", "integers of magnitude up to 9 bytes, both signs"), H("hmath", "MinMax", "integers of magnitude 32 and 33 bytes, both signs", 100, **{"from": 32, "n": 33})])

# ---- mclock ----
MS = "common/mclock/simclock.go"; MA = "common/mclock/alarm.go"; MC = "common/mclock/mclock.go"
P("C20", "The simulated clock fires exactly the due timers, in order",
  "Running the simulated clock for a duration advances it by exactly that much and fires exactly the timers that were due and neither stopped nor already fired, each once and in order of their due time; channel timers deliver their due time. Stopping a timer reports whether that prevented it from firing, resetting a channel timer moves its due time, and the number of active timers is always right. Goroutines that sleep on the clock, or wait for a number of timers, are woken when that is reached. All of this holds when several goroutines use the clock at the same time, without data races.",
  ["inputs", "histories", "schedules"], "every history of timer operations and every interleaving within the bound", "The package has no tests.",
  [MS, MC], [("Simulated.Run/AfterFunc/NewTimer", MS), ("timer Stop/Reset", MS), ("WaitForTimers/Sleep/After", MS)],
  quick=[H("hclk", "Abs", "all 64-bit times and durations"), H("hclk", "History", "3 timers with arbitrary delays, then one operation and two runs; delays 0-31", 100, shards=8, pre=3, ops=1, nomerge=1, max=31),
         H("hclk", "History", "2 timers, 2 operations, two runs; delays of up to a day", 100, shards=4, pre=2, ops=2, timers=2, nomerge=1), H("hclk", "Nested", "callbacks that start and stop timers; delays of up to a day"), H("hclk", "Wait", "2 sleeping goroutines and a driver, all interleavings", conc=True, exact=1, n=2), H("hclk", "Wake", "a waiter for up to 2 timers and any 2 operations that start or stop one, all interleavings", 60, conc=True, exact=1, ops=2), H("hclk", "Conc", "one or two runs, a stop, a new timer and a query in concurrent goroutines, all interleavings", 60, conc=True, exact=1)],
  thorough=[H("hclk", "Abs", "all 64-bit times and durations"), H("hclk", "History", "4 timers with arbitrary delays, then 2 operations and two runs; delays 0-31", 3000, shards=16, pre=4, ops=2, timers=4, nomerge=1, max=31),
         H("hclk", "History", "any 5 operations on up to 3 timers; delays of up to a day", 3000, shards=16, ops=5, nomerge=1), H("hclk", "Nested", "callbacks that start and stop timers"), H("hclk", "Wait", "4 sleeping goroutines and a driver, all interleavings", 900, conc=True, exact=1, n=4), H("hclk", "Wake", "a waiter for up to 3 timers and any 4 operations that start or stop one, all interleavings", 900, conc=True, exact=1, ops=4, max=3, shards=8), H("hclk", "Conc", "up to three runs, two stops, a new timer and a query in concurrent goroutines, all interleavings", 900, conc=True, exact=1, runs=3, stops=2)],
  outside="longer histories; concurrent resets")
P("C21", "An alarm signals at the earliest requested time and only then",
  "After any sequence of requests the alarm signals once at the earliest requested time that has not passed, requests in the past signal at once, and a later request never delays an earlier pending one. Stopping it cancels the pending signal and clears one that was not read. The goroutine using the alarm and the one running the clock may differ.",
  ["inputs", "histories", "schedules"], "every history of requests, stops, reads and clock runs, and every interleaving with a running clock, within the bound", "The package has no tests.",
  [MA], [("Alarm.Schedule/Stop/C", MA)],
  quick=[H("hclk", "AlarmHistory", "any 4 operations with times of up to a day", ops=4), H("hclk", "AlarmConc", "2 rounds of scheduling and waiting next to a running clock, all interleavings", 60, conc=True, exact=1)],
  thorough=[H("hclk", "AlarmHistory", "any 6 operations with times of up to a day", 3000, shards=16, ops=6), H("hclk", "AlarmConc", "3 rounds of scheduling and waiting next to a running clock, all interleavings", 900, conc=True, exact=1, rounds=3)],
  outside="longer histories; the system clock's own timers")

# ---- crypto ----
CM_ = "crypto/mnemonic.go"; CV = "crypto/curve.go"; K3 = "crypto/sha3/sha3.go"; KF = "crypto/sha3/keccakf.go"; RE = "crypto/randentropy/rand_entropy.go"
P("C22", "Mnemonic words and hex digits convert back and forth",
  "Encoding a message of lower-case hex digits, eight at a time, gives three words per group, and decoding those words gives the message back. Every group of eight digits has its own triple of words, and looking up a text in a list gives the first index at which it stands, or -1.",
  ["inputs"], "all 32-bit groups; messages of up to the bound", "The package has no tests; one wrong word index or sign loses a key.",
  [CM_, "crypto/mnemonic_words.go"], [("MnemonicEncode", CM_), ("MnemonicDecode", CM_), ("IndexOf", CM_)],
  quick=[H("hcry", "MnemEncode", "all messages of up to 2 groups", groups=2, nolindiv=1), H("hcry", "MnemDecode", "all word triples of the first 81 words", 150, max=80, nolindiv=1), H("hcry", "MnemInverse", "all 32-bit groups (arithmetic)"), H("hcry", "Words", "all words; all texts of up to 3 bytes", n=3)],
  thorough=[H("hcry", "MnemEncode", "all messages of up to 4 groups", 600, groups=4, nolindiv=1), H("hcry", "MnemDecode", "all word triples that encode 32 bits", 900, nolindiv=1), H("hcry", "MnemInverse", "all 32-bit groups (arithmetic)"), H("hcry", "Words", "all words; all texts of up to 5 bytes", 300, n=5)],
  outside="texts that are not made of list words or of lower-case hex digits")
P("C23", "Curve point arithmetic obeys the group law",
  "On a Koblitz-style curve y^2 = x^3 + B, the sum of two points, twice a point and the multiple of a point by any scalar are what the group law says, including equal and opposite points, the point at infinity and the zero scalar; the on-curve test decides the curve equation. No operation changes its arguments.",
  ["inputs"], "all points and scalars of small curves with the same equation", "The package has no tests; corner cases such as opposite points or multiples of the order are never sampled.",
  [CV], [("Add/addJacobian", CV), ("Double/doubleJacobian", CV), ("ScalarMult/ScalarBaseMult", CV), ("IsOnCurve", CV)],
  quick=[H("hcry", "On", "all pairs of coordinates on a small curve", curve=1), H("hcry", "Add", "all pairs of points of the first small curve", curve=0), H("hcry", "Add", "all pairs of points of the second small curve", curve=1), H("hcry", "Scalar", "all scalars of up to one byte", curve=0, nomerge=1), H("hcry", "ScalarPoint", "all points, all one-byte scalars", curve=0, nomerge=1), H("hcry", "Scalar", "scalars of two bytes with the first up to 3 and the last up to 31", 100, curve=0, nomerge=1, long=2), H("hcry", "Scalar", "scalars of 33 bytes with the first up to 3, the last up to 31 and one other bit", 100, curve=0, nomerge=1, long=33)],
  thorough=[H("hcry", "On", "all pairs of coordinates on a small curve", curve=1), H("hcry", "Add", "all pairs of points of three small curves", 300, curve=0), H("hcry", "Add", "all pairs of points, second curve", 300, curve=1), H("hcry", "Add", "all pairs of points, third curve", 600, curve=2), H("hcry", "Scalar", "all scalars of up to two bytes", 1500, shards=8, n=2, curve=0, nomerge=1), H("hcry", "ScalarPoint", "all points, all one-byte scalars", 300, curve=0, nomerge=1), H("hcry", "Scalar", "scalars of two bytes with the first up to 3 and the last up to 31", 600, curve=0, nomerge=1, long=2), H("hcry", "Scalar", "scalars of 33 bytes with the first up to 3, the last up to 31 and one other bit", 600, curve=0, nomerge=1, long=33)],
  outside="the field size of the named curves (the code has no branch that depends on it; the arithmetic is on exact integers)",
  assume=["math/big is modelled as exact integer arithmetic, ModInverse by its defining equation"])
P("C24", "Point encoding and key generation",
  "An encoded point is the byte 4 followed by both coordinates, left-padded to the size of the field, and decoding accepts exactly that form and returns the coordinates. Key generation takes every bit of the private key from the random source, yields a non-zero key of the field's size and the matching public key, and reports the source's error with no key. The named curves have their standard parameters.",
  ["inputs", "faults"], "all coordinates within the bound; all random streams and failure points", "The package has no tests; padding, short reads and failing sources are never exercised.",
  [CV], [("Marshal/Unmarshal", CV), ("GenerateKey", CV), ("S160/S192/S224/S256/Params", CV)],
  quick=[H("hcry", "Encode", "coordinates of 0-2 bytes and of full size, on the named curves and two odd sizes", n=3), H("hcry", "DecodePoint", "all byte strings of up to 8 bytes on a 9-bit curve"), H("hcry", "Named", "the four named curves"), H("hcry", "Generate", "all random streams of two attempts on a 9-bit curve, short reads, a failure at any byte", 100, shards=8, sd=2, nomerge=1)],
  thorough=[H("hcry", "Encode", "coordinates of 0-6 bytes and of full size", 600, n=7), H("hcry", "DecodePoint", "all byte strings of up to 8 bytes on a 9-bit curve"), H("hcry", "Named", "the four named curves"), H("hcry", "Generate", "all random streams of two attempts, short reads, a failure at any byte", 600, shards=8, sd=2, nomerge=1)],
  outside="key generation on the named curves")
P("C25", "Keccak digests are those of the specification",
  "The 224, 256, 384 and 512-bit hashes give the digest of the Keccak specification for every message, report the right digest and block sizes, and reset to a fresh state. Asking for the digest appends it to the given bytes and does not disturb the hash.",
  ["inputs"], "all messages of the listed lengths (0 to beyond two blocks), all four variants", "Tests cannot cover all messages; a wrong lane or round constant shows only for some.",
  [K3, KF], [("keccakF1600", KF), ("Write/Sum/Reset", K3), ("NewKeccak224/256/384/512", K3)],
  quick=[H("hcry", "Hash", "all messages of 16 lengths, all four variants", 120, shards=8, sd=2)],
  thorough=[H("hcry", "Hash", "all messages of 16 lengths, all four variants", 600, shards=8, sd=2)],
  outside="other message lengths",
  assume=["the reference permutation in the harness is written from the specification (theta, rho, pi, chi, iota with computed offsets and constants)"])
P("C26", "A digest does not depend on how the message was written",
  "Writing a message in any number of pieces, with digests taken in between, gives the same digest as writing it at once; every piece is taken whole. After a reset nothing of the earlier message remains.",
  ["inputs", "histories"], "all contents, all cuts at the listed positions around the lane and block boundaries", "A test samples a few cuts; faults sit at particular offsets within a lane and block.",
  [K3], [("Write/absorb buffering", K3), ("Sum/Reset", K3)],
  quick=[H("hcry", "Chunks", "two pieces of nine lengths each around the block size, all four variants", 150, shards=16, sd=3, k=2)],
  thorough=[H("hcry", "Chunks", "three pieces of nine lengths each, all four variants", 3000, shards=64, sd=4, k=3)],
  outside="other piece lengths")
P("C27", "System entropy is passed through whole or not at all",
  "Requesting n random bytes returns exactly n bytes of the system source in order and takes no more than n, however the source splits its reads; when the source fails before n bytes, the request panics instead of returning. The hash helper is Keccak-256 of its argument.",
  ["inputs", "faults"], "all contents, splits and failure points within the bound", "The real source never fails or splits in a test.",
  [RE], [("GetEntropyCSPRNG", RE), ("Reader.Read", RE), ("Sha3", RE)],
  quick=[H("hcry", "Entropy", "requests of up to 3 bytes, reads of 1-3 bytes, failures at any position", n=3), H("hcry", "Helper", "messages of up to 3 bytes", n=3)],
  thorough=[H("hcry", "Entropy", "requests of up to 6 bytes", 900, n=6), H("hcry", "Helper", "messages of up to 16 bytes", 300, n=16)])

# ---- event ----
EF = "event/feed.go"; EO = "event/feedof.go"; EM = "event/event.go"; ES = "event/subscription.go"
FEED_ST = "Every value sent is delivered exactly once to every subscription that is active for the whole of the send, in the order of the sends, and at most once to one that starts or ends meanwhile; the send reports how many received it. A cancelled subscription receives nothing more, its error channel is closed, and cancelling it never blocks, not even while a send waits for that receiver. Sends, receivers, subscriptions and cancellations may run concurrently without deadlock."
P("C28", "A feed delivers each value once to every subscriber",
  FEED_ST + " A channel or value of another element type is rejected with a panic and leaves the feed usable.",
  ["histories", "schedules"], "every history and every interleaving within the bound", "Delivery depends on the position of the sender in its list when a subscription comes or goes; tests run a few schedules.",
  [EF], [("Feed.Send/Subscribe/remove", EF), ("feedSub.Unsubscribe", EF), ("caseList.find/delete/deactivate", EF)],
  quick=[H("hevt", "FeedHistory", "any 6 operations on 2 channels, one after the other", 100, ops=6, chs=2), H("hevt", "FeedConc", "2 channels, 1 send, a concurrent subscription and cancellation, all interleavings", 100, conc=True, exact=1), H("hevt", "FeedConc", "2 channels, 2 concurrent sends, a concurrent cancellation, all interleavings", 150, conc=True, exact=1, sends=2, late=0), H("hevt", "FeedTypes", "channels and values of other types")],
  thorough=[H("hevt", "FeedHistory", "any 7 operations on 3 channels", 1500, shards=8, ops=7), H("hevt", "FeedConc", "2 channels, 2 sends, a concurrent subscription and cancellation, all interleavings", 3000, conc=True, exact=1, sends=2, late=1), H("hevt", "FeedConc", "3 channels, 1 send, a concurrent subscription and cancellation, all interleavings", 1500, conc=True, exact=1, subs=3), H("hevt", "FeedTypes", "channels and values of other types")],
  outside="more channels, sends and threads than listed")
P("C29", "A typed feed delivers each value once to every subscriber",
  FEED_ST,
  ["histories", "schedules"], "every history and every interleaving within the bound", "The typed feed is a second implementation of the delivery algorithm; tests run a few schedules.",
  [EO], [("FeedOf.Send/Subscribe/remove", EO), ("feedOfSub.Unsubscribe", EO)],
  quick=[H("hevt", "FeedHistory", "any 6 operations on 2 channels, one after the other", 100, ops=6, chs=2, of=1), H("hevt", "FeedConc", "2 channels, 1 send, a concurrent subscription and cancellation, all interleavings", 100, conc=True, exact=1, of=1), H("hevt", "FeedConc", "2 channels, 2 concurrent sends, a concurrent cancellation, all interleavings", 150, conc=True, exact=1, sends=2, late=0, of=1)],
  thorough=[H("hevt", "FeedHistory", "any 7 operations on 3 channels", 1500, shards=8, ops=7, of=1), H("hevt", "FeedConc", "2 channels, 2 sends, a concurrent subscription and cancellation, all interleavings", 3000, conc=True, exact=1, sends=2, late=1, of=1), H("hevt", "FeedConc", "3 channels, 1 send, a concurrent subscription and cancellation, all interleavings", 1500, conc=True, exact=1, subs=3, of=1)],
  outside="more channels, sends and threads than listed; FeedOf over an interface type")
P("C30", "A type mux delivers posted events to the types' subscribers",
  "A posted event reaches each subscription registered for its type that is active throughout, once, with its data and a time stamp, in the order of the posts, and no subscription of another type. After a stop, posting reports that the mux is closed, new subscriptions are closed at once, and every event channel is closed; cancelling closes that subscription's channel. Concurrent posts, receives, cancellations and stops do not deadlock.",
  ["histories", "schedules"], "every history and every interleaving within the bound", "A post that races with a cancellation or stop is run under a few schedules only.",
  [EM], [("TypeMux.Post/Subscribe/Stop/del", EM), ("TypeMuxSubscription.Unsubscribe/deliver/closewait", EM)],
  quick=[H("hevt", "MuxHistory", "any 4 operations, one after the other", 100, exact=1, frozenclock=1, ops=4), H("hevt", "Mux", "2 subscriptions, 2 posts, a concurrent subscription, cancellation or stop, all interleavings", 100, conc=True, exact=1, frozenclock=1), H("hevt", "Mux", "the same with 2 posters", 100, conc=True, exact=1, frozenclock=1, posters=2)],
  thorough=[H("hevt", "MuxHistory", "any 6 operations", 1500, exact=1, frozenclock=1, ops=6), H("hevt", "Mux", "2 subscriptions, 3 posts, a concurrent subscription, cancellation or stop, all interleavings", 1500, conc=True, exact=1, frozenclock=1, posts=3), H("hevt", "Mux", "the same with 2 posters", 1500, conc=True, exact=1, frozenclock=1, posters=2), H("hevt", "Mux", "with an arbitrary clock", 600, conc=True)],
  outside="events posted in the same clock instant as the subscription; more threads than listed")
P("C31", "A producer subscription ends once, with the producer's error",
  "The producer runs once; its stop channel is closed when the subscription is cancelled and not before. When the producer returns, its error, if any, is delivered once unless the subscription was cancelled first, and the error channel is then closed. Cancelling returns only after the producer ended, any number of cancellations may run concurrently, and none of them panics or deadlocks.",
  ["schedules", "faults"], "all outcomes and all interleavings within the bound", "The race between the producer ending and a cancellation is a matter of schedule.",
  [ES], [("NewSubscription", ES), ("funSub.Unsubscribe", ES)],
  quick=[H("hevt", "NewSub", "up to 2 concurrent cancellations, all producer outcomes, all interleavings", conc=True, exact=1)],
  thorough=[H("hevt", "NewSub", "up to 4 concurrent cancellations, all producer outcomes, all interleavings", 900, conc=True, exact=1, unsubs=4)])
P("C32", "Resubscribe keeps a subscription alive until cancelled",
  "The function is called again after each failure to subscribe and after each failed subscription, with the error of the latter where it asks for it, never while a subscription is active, waiting in between: a tenth of the stated maximum, doubled up to that maximum with every failure to subscribe unless the attempt took longer than the maximum; a subscription that ends without error ends the whole. After cancelling, no further call is made once it returned, the context given to a pending call is cancelled, the current subscription is cancelled (also one that is established at that moment), and the error channel is closed.",
  ["schedules", "faults", "histories"], "all outcomes of up to the bound's number of calls, all interleavings", "The order of cancellation, establishment and failure is a matter of schedule; the existing tests run two of them.",
  [ES], [("Resubscribe/ResubscribeErr", ES), ("resubscribeSub.loop/subscribe/waitForError/backoffWait", ES)],
  quick=[H("hevt", "Resub", "2 calls with every outcome, a concurrent cancellation, all interleavings", 100, conc=True, exact=1, frozenclock=1), H("hevt", "Resub", "the same with an arbitrary clock", 100, conc=True, exact=1), H("hevt", "Backoff", "4 failed attempts of symbolic length", 60, frozenclock=1, exact=1)],
  thorough=[H("hevt", "Resub", "3 calls with every outcome, 2 concurrent cancellations, all interleavings", 1500, conc=True, exact=1, frozenclock=1, tries=3, unsubs=2), H("hevt", "Resub", "3 calls with an arbitrary clock", 1500, conc=True, exact=1, tries=3), H("hevt", "Backoff", "7 failed attempts of symbolic length", 600, frozenclock=1, exact=1, tries=7)],
  outside="more calls than listed")
P("C33", "Closing a subscription scope cancels everything it tracks",
  "Closing a scope cancels each subscription it still tracks, once, and waits for it; afterwards tracking is refused and the number tracked is zero. Cancelling a tracked subscription cancels the original and forgets it, any number of times. Closing, tracking, counting and cancelling concurrently neither deadlocks nor loses a subscription, and has no data races.",
  ["histories", "schedules"], "every history and every interleaving within the bound", "Tests run one history.",
  [ES], [("SubscriptionScope.Track/Close/Count", ES), ("scopeSub.Unsubscribe", ES)],
  quick=[H("hevt", "ScopeHistory", "any 6 operations", 100, exact=1, ops=6), H("hevt", "ScopeConc", "2 tracked subscriptions, concurrent close, cancellation, tracking and counting, all interleavings", 100, conc=True, exact=1)],
  thorough=[H("hevt", "ScopeHistory", "any 8 operations", 900, exact=1, ops=8), H("hevt", "ScopeConc", "3 tracked subscriptions, concurrent close, cancellation, tracking and counting, all interleavings", 900, conc=True, exact=1, subs=3)])

# ---- log ----
LF = "log/format.go"; LH = "log/handler.go"; LL = "log/logger.go"; LG = "log/handler_glog.go"; LR = "log/root.go"
P("C34", "Numbers in log lines are written exactly, with grouped digits",
  "A signed or unsigned number in a log line is its decimal value with its sign; at 100000 and above in magnitude the digits are grouped in threes by commas, below they are not. Big integers and values beyond 64 bits follow the same rule; removing the commas gives back the value. A number with a fraction is shown ungrouped, rounded to the nearest thousandth.",
  ["inputs"], "every 64-bit integer, big integers up to three digits beyond", "Grouping depends on the number of digits and the extremes of the types; tests sample.",
  [LF], [("FormatLogfmtInt64/FormatLogfmtUint64/formatLogfmtUint64", LF), ("formatLogfmtBigInt", LF)],
  quick=[H("hlog", "Int64", "every int64", 100), H("hlog", "Uint64", "every uint64", 100), H("hlog", "Big", "every big integer of up to 22 digits, as a context value", 150, n=3), H("hlog", "Float", "every float32 and float64 that is an integer of up to 24 or 53 bits over 1, 2, 8, 1024 or 2^20, as a context value", 60, nomerge=1, dyadic=1)],
  thorough=[H("hlog", "Int64", "every int64", 300), H("hlog", "Uint64", "every uint64", 300), H("hlog", "Big", "every big integer of up to 30 digits", 1500, n=11), H("hlog", "Float", "every float32 and float64 that is an integer of up to 24 or 53 bits over 1, 2, 8, 1024 or 2^20, as a context value", 300, nomerge=1, dyadic=1)],
  outside="other floating-point values (infinities, not-a-number, tiny fractions)")
P("C35", "A log line can be parsed back unambiguously",
  "A record written in logfmt form is one line of key=value pairs: time, level, message, then the context pairs in order. Texts with blanks, quotes, equals signs or unprintable characters are quoted so that parsing the line gives back the very texts, whatever bytes they hold; nothing in a message, key or value starts a new line or a new pair. A key that is no text is flagged. Padding for alignment is blanks only and never exceeds 40 columns. Formatting in several goroutines at once keeps all of this, without data races.",
  ["inputs", "schedules"], "all texts within the bound as message, key and value; each kind of value; all interleavings of two formatting goroutines", "An escape is missed for one character only; tests sample characters.",
  [LF], [("LogfmtFormat/logfmt", LF), ("formatLogfmtValue/escapeString", LF), ("formatShared", LF)],
  quick=[H("hlog", "Line", "message, key and value of up to 2 bytes each, in turn", 100, nomerge=1, n=2), H("hlog", "Values", "every kind of value with texts of up to 1 byte", 100, nomerge=1, n=1), H("hlog", "Keys", "every kind of key, texts of up to 2 bytes", 100, nomerge=1, n=2), H("hlog", "Align", "two records of the same key with lengths 0-42 and 0-6", 100), H("hlog", "FormatConc", "two goroutines formatting, both forms, with and without origins, all interleavings", 100, conc=True, exact=1)],
  thorough=[H("hlog", "Line", "texts of up to 4 bytes", 1500, shards=8, nomerge=1, n=4), H("hlog", "Values", "texts of up to 2 bytes", 1500, shards=8, nomerge=1, n=2), H("hlog", "Keys", "texts of up to 3 bytes", 900, nomerge=1, n=3), H("hlog", "Align", "two records of the same key", 600, second=42), H("hlog", "FormatConc", "two goroutines formatting, all interleavings", 300, conc=True, exact=1)],
  outside="longer texts; the value of a pair whose key is no text (it is replaced by the flag)")
P("C36", "A terminal line shows the message and every pair",
  "A terminal line has the level in five columns, the time, the message and the pairs in order; a message with unprintable characters is quoted, others are shown as they are and padded with blanks only. Colors add nothing but color codes around the level and the keys.",
  ["inputs"], "all messages and values within the bound, all levels, with and without colors", "An escape or pad is missed for one length or character only.",
  [LF], [("TerminalFormat", LF), ("escapeMessage", LF), ("logfmt", LF)],
  quick=[H("hlog", "Term", "messages and values of up to 1 byte", 60, nomerge=1, n=1), H("hlog", "Term", "messages of 0 to 42 one- to three-byte characters, the last byte arbitrary", 90, nomerge=1, n=1, long=1), H("hlog", "Levels", "names of up to 6 bytes", 60, n=6)],
  thorough=[H("hlog", "Term", "messages and values of up to 2 bytes", 1500, nomerge=1, shards=8, n=2), H("hlog", "Term", "messages of 0 to 43 one- to three-byte characters, the last bytes arbitrary", 1200, nomerge=1, shards=8, n=2, long=1), H("hlog", "Levels", "names of up to 8 bytes", 600, n=8)],
  outside="longer messages")
P("C37", "Filters pass exactly the records they are asked to",
  "A level filter passes a record exactly when its level is at most the maximum. A match filter passes it exactly when the first pair of the key, or the message or level where asked for by their key, equals the value. What passes is the unchanged record, and the handler's error is returned; what is dropped costs nothing.",
  ["inputs"], "all levels, keys, values and messages within the bound", "Boundary levels and repeated keys are sampled by tests.",
  [LH], [("LvlFilterHandler/MatchFilterHandler/FilterHandler", LH)],
  quick=[H("hlog", "LvlFilter", "every level and maximum"), H("hlog", "Match", "up to 3 pairs, messages of one byte")],
  thorough=[H("hlog", "LvlFilter", "every level and maximum"), H("hlog", "Match", "up to 4 pairs, messages of up to 3 bytes", 600, pairs=4, n=3)])
P("C38", "Handlers neither lose, repeat nor mix records",
  "Several handlers each get the record once; a failover tries its handlers in order until one succeeds and tells the later ones why the earlier failed. Deferred values are computed once per written record and never for a dropped one. A stream gets every record in one piece, once, whatever the number of concurrent loggers; a buffered handler accepts as many records as its buffer holds without waiting and writes all of them in order.",
  ["faults", "schedules", "inputs"], "all outcomes of the handlers, all interleavings of two loggers", "Failures of a middle handler and concurrent writes are not sampled by tests.",
  [LH], [("MultiHandler/FailoverHandler", LH), ("LazyHandler/evaluateLazy", LH), ("StreamHandler/SyncHandler", LH), ("BufferedHandler/ChannelHandler", LH)],
  quick=[H("hlog", "Many", "up to 3 handlers, each failing or not"), H("hlog", "LazyVals", "up to 2 pairs of every kind"), H("hlog", "Stream", "2 concurrent loggers, all interleavings", 100, conc=True, exact=1), H("hlog", "Buffered", "2 records, buffers of up to 2, all interleavings", 100, conc=True, exact=1)],
  thorough=[H("hlog", "Many", "up to 5 handlers", 600, n=5), H("hlog", "LazyVals", "up to 4 pairs of every kind", 900, pairs=4), H("hlog", "Stream", "3 concurrent loggers, all interleavings", 1500, conc=True, exact=1, threads=3), H("hlog", "Buffered", "4 records, buffers of up to 4, all interleavings", 900, conc=True, exact=1, recs=4, size=4)],
  outside="file, network and syslog handlers (operating system)")
P("C39", "A logger's records carry its context, and go to its handler",
  "A record has the level of the method, the message, the contexts of the logger's ancestors in order, its own and the call's; an odd argument list is completed and flagged, and a map given as context contributes each of its keys once with its value. It goes to the handler set on the nearest logger towards the root, also when that handler is replaced later; before one is set, records are dropped. A critical message ends the process with status 1 once its record was handled. Loggers derived from one parent do not affect each other. Every way to log reports the file, line and function of its caller. Logging, deriving and replacing the handler at the same time loses no record and has no data races.",
  ["histories", "schedules", "inputs"], "every history of deriving loggers, setting handlers and logging within the bound; every logging method", "Shared context slices and handler swaps show only in particular histories.",
  [LL, LR], [("logger.New/newContext/normalize", LL), ("logger.write", LL), ("swapHandler", "log/handler_go14.go"), ("Root/Output and package functions", LR)],
  quick=[H("hlog", "Tree", "any 3 operations", 100, ops=3), H("hlog", "Site", "every logging method, context handler and terminal form", 60), H("hlog", "Fresh", "every logging method before a handler is set"), H("hlog", "CtxMap", "maps of up to 3 keys with values of four kinds (nil among them) as the context of a logger or a message, every order", 60, maporder=1), H("hlog", "Crit", "critical messages of the root logger and of another"), H("hlog", "TreeConc", "2 goroutines deriving loggers and logging while the handler is replaced, all interleavings", 60, conc=True, exact=1)],
  thorough=[H("hlog", "Tree", "any 4 operations", 1500, shards=8, sd=4, ops=4), H("hlog", "Site", "every logging method, context handler and terminal form", 300), H("hlog", "Fresh", "every logging method before a handler is set"), H("hlog", "CtxMap", "maps of up to 4 keys with values of four kinds (nil among them) as the context of a logger or a message, every order", 300, maporder=1, n=4), H("hlog", "Crit", "critical messages of the root logger and of another"), H("hlog", "TreeConc", "3 goroutines deriving loggers and logging while the handler is replaced, all interleavings", 900, conc=True, exact=1, loggers=3)],
  outside="deeper trees")
P("C40", "Verbosity and per-file overrides decide which records pass",
  "A record passes when the verbosity covers its level, or the first rule matching its file does; without a setting only critical ones pass. A rule names a file, a package suffix, or with stars any package; changing the rules or the verbosity takes effect for the next record, also at places that logged before and while others are logging. Rule lists and trace positions of another form are refused. At the trace position a record is raised to info and carries a stack dump.",
  ["inputs", "histories", "schedules"], "all levels and verbosities, all lists of up to two rules out of fourteen, all rule texts within the bound", "The per-place cache hides a stale decision until the second record.",
  [LG], [("GlogHandler.Log", LG), ("GlogHandler.Vmodule", LG), ("GlogHandler.BacktraceAt/Verbosity", LG)],
  quick=[H("hlog", "Verbosity", "every level and verbosity"), H("hlog", "Module", "lists of up to 2 of fourteen rules, every level and verbosity", 100, rounds=1, rules=2), H("hlog", "Module", "two lists of up to 1 of seven rules in turn, the second with and without blanks", 100, rounds=2, rules=1, pats=7), H("hlog", "RuleText", "all texts of up to 4 bytes", 100, nomerge=1, n=4), H("hlog", "Backtrace", "matching and other positions, every level and verbosity"), H("hlog", "GlogConc", "2 goroutines logging at one place while a setting changes, all interleavings", 60, conc=True, exact=1)],
  thorough=[H("hlog", "Verbosity", "every level and verbosity"), H("hlog", "Module", "two lists of up to 2 of fourteen rules", 1800, shards=8, sd=4, rounds=2, rules=2), H("hlog", "RuleText", "all texts of up to 5 bytes", 900, nomerge=1, n=5), H("hlog", "Backtrace", "matching and other positions"), H("hlog", "GlogConc", "3 goroutines logging at one place while a setting changes, all interleavings", 900, conc=True, exact=1, loggers=3)],
  assume=["call sites are taken from the compiler's position information; matching uses Go's regexp on concrete file names"])

# ---- rlp ----
RS = "rlp/internal/rlpstruct/rlpstruct.go"
P("C41", "Struct tags decide which fields are RLP-encoded and how",
  "Exactly the exported fields not marked \"-\" are encoded, in order. The nil tags need a pointer; \"nil\" encodes a nil pointer as an empty string when it points to a text, boolean, unsigned number or byte string and as an empty list otherwise, the other two say which. A tail must be the last exported field and a slice, and not optional; after an optional field only optional fields or a tail follow. Any other tag or combination is refused with an error naming the field, and never half accepted.",
  ["inputs"], "all types to the bound's depth, all listed tags and all other words within the bound", "The package has no tests; faults depend on the combination of tag, kind and position.",
  [RS], [("ProcessFields/parseTag/lastPublicField", RS), ("Type.DefaultNilValue", RS)],
  quick=[H("/rlp/internal/zzverifrlp", "Nil", "all types of up to 3 levels", depth=3), H("/rlp/internal/zzverifrlp", "Tags", "up to 2 fields with one word each, of up to 4 characters where not a known one", 100, depth=2), H("/rlp/internal/zzverifrlp", "Tags", "one field with up to 2 words", 100, fields=1, words=2, depth=2)],
  thorough=[H("/rlp/internal/zzverifrlp", "Nil", "all types of up to 5 levels", depth=5), H("/rlp/internal/zzverifrlp", "Tags", "up to 2 fields with up to 2 words each", 1500, shards=16, sd=4, depth=2, fields=2, words=2, text=3), H("/rlp/internal/zzverifrlp", "Tags", "up to 3 fields with one word each", 1500, shards=16, sd=4, depth=1, fields=3, words=1, text=4)],
  outside="tags that are not well-formed Go struct tags; the encoder itself, which this repository does not contain")

RG = "rlp/rlpgen/gen.go"; RT = "rlp/rlpgen/types.go"
TY = "types of every supported kind (31 structures)"
P("C42", "Generated RLP code encodes exactly and decodes back",
  "For a structure of supported field types the generator writes code that compiles. The generated encoder writes the list of the encoded fields in order: pointers that are nil as their empty string or list, big integers and parts with own methods as such, raw values as they are, and no optional field after the last one that is not zero; a negative integer or failing part fails the whole and writes nothing. The generated decoder takes exactly one value, gives back what was encoded, accepts nothing else, leaves its receiver unchanged when it fails, and restores nil pointers where the tag says so. Unsupported types and tags are refused.",
  ["inputs"], "all values within the bound of 31 structures covering every kind of field, and all byte strings within the bound as decoder input", "The tests compare generated text; they never run it.",
  [RG, RT], [("buildContext.makeOp/make*Op", RG), ("genWrite/genDecode of all ops", RG), ("nonZeroCheck/typeReflectKind", RT)],
  quick=[H("hrlp", "Plain", "all numbers and booleans, texts of up to 2 bytes", 100, nomerge=1, n=2), H("hrlp", "Pointers", "each pointer kind nil and set, texts of up to 2 bytes", 60, nomerge=1, n=2), H("hrlp", "Nested", "lists of up to 1 element, texts and integers of up to 2 bytes", 100, nomerge=1, n=2, items=1), H("hrlp", "Optional", "each optional field zero or not", 60, nomerge=1, n=2, items=1), H("hrlp", "Negative", "integers of up to 2 bytes"), H("hrlp", "NilThenMore", "one 16-bit and one 8-bit field"), H("hrlp", "Input", "all inputs of up to 4 bytes to 20 decoders", 100, nomerge=1, bytes=4), H("hrlp", "Refused", "16 unsupported structures")],
  thorough=[H("hrlp", "Plain", "texts of up to 4 bytes", 1500, shards=8, nomerge=1, n=4), H("hrlp", "Pointers", "texts of up to 4 bytes, lists of up to 3 elements", 600, nomerge=1, n=4, items=3), H("hrlp", "Nested", "lists of up to 3 elements, texts and integers of up to 2 bytes", 1800, shards=16, sd=4, nomerge=1, n=2, items=3), H("hrlp", "Optional", "texts of up to 4 bytes", 900, shards=8, nomerge=1, n=4, items=3), H("hrlp", "Negative", "integers of up to 9 bytes", n=9), H("hrlp", "NilThenMore", "one 16-bit and one 8-bit field"), H("hrlp", "Input", "all inputs of up to 6 bytes to 20 decoders", 1800, shards=16, sd=3, nomerge=1, bytes=6), H("hrlp", "Refused", "16 unsupported structures")],
  outside="the rlp package itself, which this repository does not contain (the generated code runs against a runtime in the harness written from the RLP definition); structures other than the listed ones; slices and arrays of named byte types; strings beyond 55 bytes",
  assume=["the generator itself runs natively on the listed structures; what it generates is executed symbolically", "the harness's encoding runtime follows RLP and the names the generator calls"])
P("C43", "A JSON log line is one object with the record's pairs",
  "A record in JSON form is one JSON object that holds the time, the level's name, the message and each context pair and nothing else: integers as numbers, texts as texts whatever characters they hold, times in the log's form, errors and values with a String method by their text, other values as fmt prints them; a key that is no text is flagged. The ordered form holds the context as one list of alternating keys and values in order instead. The object is on one line unless the pretty form was asked for, and a line end follows exactly when asked for.",
  ["inputs"], "all ASCII texts within the bound, every kind of value, all options", "One character, kind or option can break the form; there are no tests of it.",
  [LF], [("JSONFormat/JSONFormatEx", LF), ("JSONFormatOrderedEx", LF), ("formatJSONValue/formatShared", LF)],
  quick=[H("hlog", "JSON", "texts of up to 2 bytes, every kind of value", 100, shards=4, nomerge=1, ascii=1, n=2), H("hlog", "JSONOrdered", "up to 2 pairs, texts of up to 1 byte", 100, shards=4, nomerge=1, ascii=1, n=1)],
  thorough=[H("hlog", "JSON", "texts of up to 3 bytes, every kind of value", 1500, shards=16, sd=3, nomerge=1, ascii=1, n=3), H("hlog", "JSONOrdered", "up to 2 pairs, texts of up to 2 bytes", 1500, shards=16, sd=3, nomerge=1, ascii=1, n=2)],
  outside="floating-point values; texts with other than ASCII characters; two pairs with the same key",
  assume=["encoding/json.Marshal and MarshalIndent of maps, lists, texts and integers behave as documented (modelled; the real ones run in the replay of every explored witness)"])
P("C44", "Timers of the system clock fire once, not when stopped",
  "A timer of the system clock runs for the duration asked for; then its function runs once in its own goroutine, or its channel delivers the time at which it fired, once. Stopping tells whether that prevented it from firing, and a timer that was stopped delivers nothing. Resetting one that fired or was stopped makes it fire again. The clock's time never decreases, and an alarm that was set on this clock signals in the end.",
  ["inputs", "schedules"], "all durations within the bound; every moment at which a timer may fire relative to the goroutine using it", "Real timers fire at one moment in a test run.",
  [MC, MA], [("System.NewTimer/After/AfterFunc/Sleep", MC), ("systemTimer.Reset/C", MC), ("AbsTime", MC)],
  quick=[H("hclk", "System", "one timer with a stop and up to 2 resets, all interleavings", 60, conc=True, exact=1)],
  thorough=[H("hclk", "System", "one timer with a stop and up to 5 resets, all interleavings", 600, conc=True, exact=1, resets=5)],
  outside="how precisely timers keep time; several timers at once",
  assume=["the Go runtime's timers: one may fire at any moment after it was started until it is stopped"])
