ORACLES = {
"C01": "hex digits computed per nibble in the harness; acceptance and error class decided from the text alone (prefix, parity, digit set)",
"C02": "canonical form by shortest-digits definition; DecodeUint64 against a per-digit accumulation with an explicit 64-bit limit; JSON/GraphQL entry points against the text one",
"C03": "exact integers (engine big integers) and digit-wise definition; 256-bit limit; error classes from the text alone; both word sizes are covered through the word-boundary lengths",
"C04": "byte-wise hex definition, exact length, destination compared with its copy on failure",
"C05": "destination compared with a copy taken before; rejection of every token kind that is not a string",
"C06": "element-wise definition of padding, trimming, copying; backing arrays compared for aliasing",
"C07": "digit-wise definition with odd-length and prefix rules",
"C08": "low-order bytes by index; integers exact",
"C09": "decode of each encoded form equals the original; wrong lengths and kinds rejected; SQL Scan by type",
"C10": "EIP-55 from its text: digit i upper-case iff nibble i of the digest (uninterpreted function shared by code and oracle) is at least 8",
"C11": "original text kept; validity by comparison with the EIP-55 form; JSON read back",
"C12": "character-wise recogniser",
"C13": "each verb's documented form written out by the harness",
"C14": "largest three non-zero units by integer arithmetic on the duration",
"C15": "exact integers modulo 2^256 and two's complement definition; inverse laws",
"C16": "byte i as shift-and-mask of the exact integer; padding length",
"C17": "square-and-multiply on exact integers modulo 2^256; arguments compared with copies",
"C18": "digit-wise value of the text (decimal through introduced digits, hex per nibble), limit at 2^256, syntax from the text alone",
"C19": "order of exact integers; result is one of the arguments",
"C20": "a reference clock in the harness: set of timers with due times; fired set, order, times, Stop results, ActiveTimers after each operation; in the concurrent harnesses counts per timer and final state",
"C21": "a reference alarm (earliest pending time, flag of a waiting signal) updated per operation",
"C22": "the documented encoding arithmetic on the word list; inverse; word-list uniqueness",
"C23": "the defining equations of the group law over small prime fields, checked by multiplication (no division in the oracle); scalar multiples by repeated addition; parameters of the named curves against their standards",
"C24": "encoding 04‖X‖Y with fixed width; decoding accepts exactly that and only points on the curve; keys below the order, for every random stream",
"C25": "Keccak-f[1600] written from the specification (theta, rho, pi, chi, iota as separate steps) executed symbolically next to the code",
"C26": "the digest of one write; read/sum positions; state after Reset",
"C27": "a faulty entropy source with arbitrary short reads and errors; exactly its bytes in order, or an error",
"C28": "per channel the sequence of values sent between the end of Subscribe and the start of Unsubscribe; counts returned by Send; no send is blocked by an unsubscribed channel",
"C29": "as C28 for the generic feed",
"C30": "per subscription the posted events of its types, after its start and before its end, once each; ErrMuxClosed after Stop; channels closed once",
"C31": "error delivered iff the producer returned one before Unsubscribe; Unsubscribe waits; Err closes once",
"C32": "a reference of attempts, back-off times on a simulated wall clock and cancellations",
"C33": "per subscription the number of cancellations; count; order flags",
"C34": "removing the commas gives the decimal digits of the value (introduced digits); comma positions by index",
"C35": "a logfmt parser in the harness, written from the quoting rules, must give back the very texts; alignment by columns",
"C36": "the line is recomposed from message, padding rule and pairs; level names both ways",
"C37": "the predicate itself (level order, key and value equality)",
"C38": "sequence and multiplicity of records at each sink; failover order with fault flags; buffered order",
"C39": "a reference tree of loggers with contexts and handler cells; file, line, function of the call taken from the compiler's position table",
"C40": "rule matching by a direct reading of the documentation on file and package names; old/new settings around a concurrent change",
"C41": "RLP tag rules written out (which combinations are errors, which fields remain, nil kinds)",
"C42": "an RLP reader/writer written from the RLP definition; the code generated from /repo's current generator for a set of structures is executed symbolically and must produce those bytes, accept exactly them, and give back the value",
"C43": "a JSON reader in the harness, written from the JSON grammar, must give back exactly the record's pairs and kinds",
"C44": "the timer's promise stated directly: counts of runs and deliveries after every interleaving of firing, stopping and resetting",
"C46": "the standard library's form of the same duration, with the fraction's later digits removed by position",
"C45": "n/2^k rounded to hundredths in integer arithmetic, compared character by character",
}
