"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
ENC="eth_abi/encoding.py"; DEC="eth_abi/decoding.py"; REG="eth_abi/registry.py"; GRA="eth_abi/grammar.py"
COD="eth_abi/codec.py"; BASE="eth_abi/base.py"; NUM="eth_abi/utils/numeric.py"; PAD="eth_abi/utils/padding.py"
STRAT="eth_abi/tools/_strategies.py"; PACK="eth_abi/packed.py"; ABI="eth_abi/abi.py"; STRU="eth_abi/utils/string.py"; VAL="eth_abi/utils/validation.py"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
prop("C01","Decoding an encoding gives the values back",
 "For every list of supported ABI types and every list of values encodable for them, decoding the encoded bytes with the same types (strict or not) returns exactly the canonical form of those values. Canonical form: integers, booleans and decimals numerically equal, text and dynamic bytes equal, fixed-width bytes right-padded with zeros to their width, addresses as lower-case 0x-prefixed hex, arrays and tuples as tuples.",
 ["inputs"],"all type lists (any nesting of arrays and tuples), all encodable values of those types, both decoding modes",
 "Hypothesis samples about a hundred small values per type shape; types, nesting depth, lengths and 256-bit values are unbounded, and the tuple/array cases are tested on a fixed table.",
 [ENC,DEC,COD,REG,GRA],[("leaf encoders/decoders",ENC+", "+DEC),("head/tail layout",ENC+":TupleEncoder.encode, BaseArrayEncoder.encode_elements"),("frame stack",DEC+":ContextFramesBytesIO")],
 observe=["eth_abi.encode","eth_abi.decode"])
prop("C02","Encodings are byte for byte what the ABI specification prescribes",
 "For every supported type and every value encodable for it, the standard encoding is exactly the byte string the Solidity contract ABI specification prescribes: 32-byte big-endian words with two's complement sign extension, right-padded fixed bytes, length-prefixed and zero-padded dynamic data, and head/tail layout in which each dynamic component is replaced by its offset from the start of the enclosing tuple or array contents.",
 ["inputs"],"all supported types and all encodable values",
 "The tests compare against a fixed table of encodings and restate padding helpers of the library itself as the oracle; the layout arithmetic for arbitrary component counts, sizes and nesting is only sampled.",
 [ENC,COD,NUM,PAD],[("word encoders",ENC),("head/tail layout",ENC+":TupleEncoder.encode, BaseArrayEncoder.encode_elements"),("padding",PAD),("ceil32",NUM)],
 observe=["eth_abi.encode"])
prop("C03","Packed encodings are minimal-width concatenations",
 "For every supported type and value, packed encoding is the left-to-right concatenation of its leaves, each in exactly the width of its type (integers and fixed-point values as N/8 big-endian two's complement bytes, booleans one byte, addresses 20 bytes, bytesM exactly M bytes, dynamic bytes and text verbatim), with no offsets, no length prefixes and no padding, at every nesting level.",
 ["inputs"],"all supported types and all encodable values",
 "The tests use a fixed table of packed encodings; widths are 1..32 for six families and nesting is unbounded.",
 [ENC,PACK,REG],[("packed encoders",ENC+":Packed*Encoder"),("packed registry",REG+":registry_packed")],observe=["eth_abi.packed.encode_packed"])
prop("C04","Encoding is exact or refused: no value is wrapped, truncated or altered",
 "Encoding accepts a value for a type if and only if the value lies in the domain of that type (integers, not booleans, within the bit width; integers and decimals within the scaled range and without excess fractional digits; booleans; 20-byte or 40-hex-digit addresses; bytes not longer than the width; UTF-8 representable text; sequences of exactly the declared length whose items are all in the domain of the item type). Every other value, of whatever Python type, is refused with an encoding error and never wrapped, truncated or coerced; a number of values different from the number of types is refused too.",
 ["inputs"],"all supported types, all Python values including huge integers, non-finite and extreme decimals, wrong types and wrong lengths",
 "Boundary values exist for 32 bit widths times 80 scales; wrong-typed values at depth, and values adjacent to each bound, are only sampled.",
 [ENC,COD,NUM,STRU],[("validate_value of every encoder",ENC),("bounds",NUM)],observe=["eth_abi.encode","eth_abi.packed.encode_packed"])
prop("C05","The encodability check agrees with what encoding does",
 "For every type string and every Python value, the encodability check returns True exactly when encoding that value as that type succeeds, and returns False (rather than raising) exactly when encoding refuses it or the type is not supported; the type check returns True exactly for the type strings for which an encoder can be obtained. This holds for the standard and the packed codec and for custom registered coders, including plain callables nested in compound types.",
 ["inputs","configurations"],"all type strings, all values, all registries with unambiguous registrations",
 "Tests check a table of positive and negative cases per type; agreement with encode is a relation between two code paths that no test compares in general.",
 [COD,ENC,REG],[("is_encodable",COD),("validate_value vs encode",ENC),("has_encoder",REG)],observe=["eth_abi.is_encodable","eth_abi.packed.is_encodable_packed"])
prop("C06","Strict decoding accepts only canonical words and zero padding",
 "In strict mode a value is returned only if every word it was read from is the canonical one: unused high-order bytes are the zero or sign extension of the value, unused low-order bytes of fixed bytes are zero, booleans are 0 or 1, and the bytes that pad dynamic bytes and text to a multiple of 32 are present and zero; anything else is refused with a decoding error. Hence any payload of static types that decodes re-encodes to exactly the bytes that were read.",
 ["inputs"],"all byte strings, all types, every corrupted padding byte at any position and depth",
 "Padding checks are sampled per leaf decoder with random bytes; the property quantifies over all words for every width (2**256 words for each of 32 widths and six families) and over nesting.",
 [DEC],[("validate_padding_bytes",DEC),("ByteStringDecoder.read_data_from_stream",DEC)],observe=["eth_abi.decode"])
prop("C07","Decoding follows only offsets that stay behind the head and inside the data",
 "Whenever decoding succeeds, every offset it followed, at every nesting level, pointed at or behind the end of the head section (the pointer table) of the tuple or array that contains it and strictly before the end of the data; an offset that points into that head or to or past the end of the data makes decoding fail with a decoding error. Valid encodings are never rejected by this check, whatever the widths of the static components between the pointers.",
 ["inputs"],"all byte strings and all types with dynamic components, any number and width of static components",
 "Seven malformed payloads are tested; the head length depends on every combination of component widths and the offsets range over 2**256 values.",
 [DEC],[("validate_pointers of tuples and arrays",DEC),("HeadTailDecoder.decode",DEC)],observe=["eth_abi.decode"])
prop("C08","Decoding any bytes ends in a value or a decoding error",
 "For every supported type list and every byte string, decoding terminates after reading at most a number of array elements bounded by the length of the data, and either returns one value per type or raises a decoding error (for text that is not valid UTF-8, a Unicode decoding error); in particular truncated data, absurd lengths and absurd offsets never escape as another exception, and missing data is never made up.",
 ["inputs"],"all byte strings (including truncations of valid encodings and adversarial length words up to 2**256-1), all types, both modes",
 "Random short streams are tested per leaf decoder; malformed composites are a short table. Length and offset words range over 2**256 values.",
 [DEC,COD],[("read_data_from_stream",DEC),("array size loops",DEC)],observe=["eth_abi.decode"])
prop("C09","Non-strict decoding only relaxes padding, and only for the call that asks",
 "Whenever strict decoding of some data succeeds, non-strict decoding of it succeeds with the same values; what non-strict mode additionally accepts is only missing or non-zero padding (or truncation) at the end of dynamic bytes and text, never a bad word, pointer, boolean or count. The mode of one call never influences any other call, in any order of strict and non-strict calls, for built-in and for custom registered decoders alike.",
 ["inputs","histories"],"all data, all types, all sequences of decode calls with either mode on one or several codecs, decoders registered as classes or as instances",
 "One test decodes twice with different modes; histories and custom instances are not covered.",
 [DEC,REG,COD],[("strict flag",REG+":_get_decoder_uncached"),("ByteStringDecoder.read_data_from_stream",DEC)],
 state=[("strict","per decoder instance flag",DEC+":BaseDecoder.strict")],observe=["eth_abi.decode"])
prop("C10","Decoded values depend only on the addressed bytes, read in their own frame",
 "Each nested value is read at its own offset relative to the start of the tuple or array contents that contains it, and after it has been read decoding resumes right behind its head slot, for every nesting; so the value of a component does not depend on the contents or layout of its siblings. If strict decoding of some data succeeds, appending arbitrary bytes to the data does not change the result, and bytes and bytearray inputs give equal results.",
 ["inputs"],"all types, all data, all suffixes; all orders and placements of the tails",
 "Stream frames are tested with two hand-written sequences; tails are only ever tested in the order the library itself writes them.",
 [DEC,COD],[("push_frame/pop_frame/seek_in_frame",DEC+":ContextFramesBytesIO"),("HeadTailDecoder",DEC),("TupleDecoder.decode",DEC),("array decoders",DEC)],
 state=[("frame stack and total offset","position of the enclosing object",DEC+":ContextFramesBytesIO")],observe=["eth_abi.decode"])
prop("C11","Type strings parse and print without loss; aliases mean their canonical type",
 "Printing a parsed type string gives the same string back, for every type string the grammar accepts, and taking the item type of an array type drops exactly its last dimension. Normalisation is idempotent, rewrites exactly the documented aliases (int, uint, fixed, ufixed, function, byte) wherever they stand as a whole type name at any nesting, changes nothing else, and every alias is encoded and decoded exactly like its canonical type in both codecs.",
 ["inputs"],"all strings over the type grammar: any nesting, any dimensions, any numbers",
 "Tests round-trip generated strings of bounded size and a handful of aliases; alias handling in each position and codec is not compared.",
 [GRA,REG,BASE],[("NodeVisitor",GRA),("to_type_str / item_type",GRA),("normalize",GRA),("parse_type_str",BASE)],observe=["eth_abi.grammar.parse","eth_abi.grammar.normalize"])
prop("C12","Exactly the valid ABI types are supported, each by the coder of its width",
 "A type string is supported by the default codec if and only if it is a valid ABI type: uintN/intN with N a multiple of 8 in 8..256, fixedMxN/ufixedMxN with M likewise and N in 1..80, bytes1..32, bytes, string, bool, address, function, their aliases, and arrays (fixed sizes at least 1) and non-empty tuples of valid types. Each valid type resolves to exactly one encoder and one decoder, which have precisely that width, scale or length, and a type is classified as dynamic exactly if it is bytes, string, an array with a dynamic dimension, or contains a dynamic type.",
 ["inputs"],"all strings; all valid basic types (finite: 5,200 of them) and all compound types over them",
 "Tests look up fourteen type strings; validity is tested on a table of good and bad strings.",
 [GRA,REG,BASE,ENC,DEC],[("BasicType.validate",GRA),("registrations",REG),("from_type_str",ENC+", "+DEC),("is_dynamic",GRA+", "+ENC+", "+DEC)],observe=["eth_abi.is_encodable_type","ABIRegistry.get_encoder","ABIRegistry.get_decoder","ABIType.is_dynamic"])
prop("C13","A registry lookup returns the unique matching live registration",
 "After any sequence of registrations and unregistrations, looking up a type string returns the coder of the one live registration whose lookup matches it, raises the no-entries error (for strings that are not type strings, the parse error) if none matches and the multiple-entries error if more than one does, independent of registration order. The combined register and unregister apply this rule to the encoders and then to the decoders. Registering a lookup or label that is already live, or removing one that is not, raises an error and changes nothing; removing by label or by an equal lookup removes exactly that registration together with its label, so that both can be registered again. Lookups built on the library's Predicate class are equal exactly if they are of the same class with equal attributes.",
 ["histories"],"all sequences of register and unregister operations (by label, by lookup, for encoders, decoders or both), all lookups, all queries",
 "Tests exercise single add/remove steps; the property is an invariant over all histories.",
 [REG],[("PredicateMapping.add/find/remove_by_label/remove_by_equality",REG),("BaseRegistry._register/_unregister",REG)],
 state=[("live registrations","lookup to coder",REG+":PredicateMapping._values"),("labels","label to lookup",REG+":PredicateMapping._labeled_predicates")],observe=["ABIRegistry.get_encoder","ABIRegistry.get_decoder","PredicateMapping.find"])
prop("C14","Registry caches are never stale and copies are independent",
 "The coder obtained from a registry, directly or as part of a compound type, always reflects the registrations live at that moment, whatever lookups, encodings, decodings and changes (including failed ones) happened before. A copy of a registry starts with the same registrations, and from then on no change to either one is visible through the other.",
 ["histories"],"all interleavings of lookups, register, unregister and copy operations on a registry and its copies",
 "Two tests check one cache invalidation each, and one test compares identities of internal mappings after a copy; nested types, failed changes and later changes to copies are not covered.",
 [REG],[("cache_clear on every mutator",REG+":_clear_encoder_cache, _clear_decoder_cache"),("copy",REG+":ABIRegistry.copy, PredicateMapping.copy")],
 state=[("lookup caches","memoised coders",REG+":ABIRegistry.get_encoder, get_decoder")],observe=["ABIRegistry.get_encoder","ABIRegistry.get_decoder","ABIRegistry.has_encoder"])
prop("C15","Fixed-point coding does not depend on the caller's decimal context",
 "Encoding, encodability checks and decoding of fixed-point types, and the scaling helper used by the strategies, give the same exact results and the same refusals under every ambient decimal context (precision, rounding, exponent limits, clamping) and leave the caller's context as it was. A decoded fixed-point value is exactly the encoded integer divided by ten to the number of decimals.",
 ["inputs","configurations"],"all 2*32*80 fixed-point types, all words, all values, all ambient decimal contexts",
 "The tests run under the default context of precision 28 only, with values drawn by hypothesis.",
 [ENC,DEC,NUM],[("localcontext around every decimal operation",ENC+", "+DEC+", "+NUM),("abi_decimal_context",NUM)],observe=["eth_abi.encode","eth_abi.decode","eth_abi.utils.numeric.scale_places"])
prop("C16","Strategies only generate encodable values, over the whole domain",
 "For every supported type string in canonical form, every value the strategy for it can generate is encodable as that type, and the generator covers the whole numeric range of the type: its bounds are exactly the bounds of the type and its arrays and tuples have exactly the declared shape.",
 ["inputs"],"all supported canonical types, all values the strategies can draw",
 "A test draws examples for a list of types; bounds for 32 widths times 80 scales are not enumerated.",
 [STRAT,NUM],[("get_*_strategy",STRAT),("scale_places",NUM)],observe=["eth_abi.tools.get_abi_strategy"])
prop("C17","Custom coders compose: compound types use registered coders verbatim",
 "In a registry with custom coders (coder classes, coder instances or plain callables), tuples, fixed and dynamic arrays of custom types encode by placing exactly the bytes the custom encoder returned into the head/tail layout (in place if it is not dynamic, behind an offset if it is), call the custom decoder at exactly that position, and return exactly the values it returned, for components of any encoded width. Errors raised by a custom coder propagate to the caller.",
 ["inputs","configurations"],"all custom coders that consume what they produce, any width, dynamic or not, in any compound type",
 "One test uses a custom null type inside one tuple; arrays of custom types and multi-word custom types behind pointers are not covered.",
 [ENC,DEC,REG,COD],[("TupleEncoder/TupleDecoder",ENC+", "+DEC),("array coders",ENC+", "+DEC),("_get_registration",REG)],observe=["ABICodec.encode","ABICodec.decode"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
