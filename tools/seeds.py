D, E, R, G, S, N = ("eth_abi/decoding.py", "eth_abi/encoding.py", "eth_abi/registry.py", "eth_abi/grammar.py",
                    "eth_abi/tools/_strategies.py", "eth_abi/utils/numeric.py")
SEEDS = {
"C07-pointer-at-end": dict(property="C07", edits=[(D, """                    indicated_idx < end_of_offsets
                    or indicated_idx >= total_stream_length
                ):""", """                    indicated_idx < end_of_offsets
                    or indicated_idx > total_stream_length
                ):""")],
  needs="an array of dynamic items of size zero bytes in the data, whose offset points exactly at the end of the data", breaks="an offset to the end of the data is followed (the error is then a different one, or none for a custom decoder that reads nothing)",
  demo='''
from eth_abi.registry import registry
from eth_abi.codec import ABICodec
from eth_abi.exceptions import InvalidPointer, DecodingError
from eth_abi import decode
w = lambda n: n.to_bytes(32, "big")
data = w(32) + w(1) + w(32)   # bytes[] with one item whose offset is the end of the data
try:
    decode(["bytes[]"], data)
except InvalidPointer:
    pass
else:
    raise SystemExit("accepted")
'''),
"C08-preallocate": dict(property="C08", edits=[(D, """            total_stream_length = len(stream.getbuffer())
            for _ in range(array_size):
                offset = decode_uint_256(stream)
""", """            total_stream_length = len(stream.getbuffer())
            offsets = [0] * array_size
            for i in range(array_size):
                offset = offsets[i] = decode_uint_256(stream)
""")],
  needs="a dynamic array of dynamic items with a huge element count", breaks="decoding ends in OverflowError or MemoryError instead of a decoding error",
  demo='''
from eth_abi import decode
from eth_abi.exceptions import DecodingError
w = lambda n: n.to_bytes(32, "big")
try:
    decode(["bytes[]"], w(32) + w(2**70) + w(0))
except DecodingError:
    pass
'''),
"C13-same-coder": dict(property="C13", edits=[(R, """        predicates, values = tuple(zip(*results))

        if len(results) > 1:""", """        predicates, values = tuple(zip(*results))

        if len(set(values)) > 1:""")],
  needs="two live registrations that match the same type string with the same coder", breaks="an ambiguous lookup is not refused",
  demo='''
from eth_abi.registry import registry, BaseEquals
from eth_abi.exceptions import MultipleEntriesFound
from eth_abi import encoding, decoding
r = registry.copy()
r.register_encoder(lambda s: s == "uint8", encoding.UnsignedIntegerEncoder, label="mine")
try:
    r.get_encoder("uint8")
except MultipleEntriesFound:
    pass
else:
    raise SystemExit("ambiguous lookup answered")
'''),
"C14-stale-decoder": dict(property="C14", edits=[(R, """    @_clear_decoder_cache
    def unregister_decoder(""", """    @_clear_encoder_cache
    def unregister_decoder(""")],
  needs="lookup, then unregister_decoder, then lookup again", breaks="the unregistered decoder is still served from the cache",
  demo='''
from eth_abi.registry import registry
from eth_abi.exceptions import NoEntriesFound
r = registry.copy()
r.get_decoder("uint8[]")
r.unregister_decoder("uint")
try:
    r.get_decoder("uint8[]")
except NoEntriesFound:
    pass
else:
    raise SystemExit("stale decoder")
'''),
"C15-bounds-in-ambient": dict(property="C15", edits=[(N, """    with decimal.localcontext(abi_decimal_context):
        exp = TEN**-frac_places
        lower = decimal.Decimal(int_lower) * exp""", """    exp = TEN**-frac_places
    with decimal.localcontext(abi_decimal_context):
        lower = decimal.Decimal(int_lower) * exp""")],
  needs="an ambient decimal context whose exponent range is too small for the fractional places", breaks="signed fixed point values are refused (bounds underflow to zero) depending on the caller's context",
  demo='''
import decimal
from eth_abi import encode
v = decimal.Decimal("-1").scaleb(-18)
a = encode(["fixed128x18"], [v])
with decimal.localcontext(decimal.Context(prec=9, Emin=-10, Emax=10)):
    b = encode(["fixed128x18"], [v])
assert a == b
'''),
"C17-short-custom": dict(property="C17", edits=[(E, "sum(32 if item is None else len(item) for item in raw_head_chunks)",
   "sum(\\n            32 if item is None else ceil32(len(item)) for item in raw_head_chunks\\n        )".replace("\\n", chr(10)))],
  needs="a tuple with a dynamic component and a static custom encoder whose encoding is not a multiple of 32 bytes", breaks="the offsets in the head do not point at the tails",
  demo='''
from eth_abi.registry import registry
from eth_abi.codec import ABICodec
r = registry.copy()
r.register("five", lambda v: b"12345", lambda s: s.read(5))
c = ABICodec(r)
e = c.encode(["five", "bytes"], [0, b"x"])
assert e[5:37] == (37).to_bytes(32, "big"), e[5:37].hex()
'''),
"C06-sign-byte-only": dict(property="C06", edits=[(D, """            expected_padding_bytes = b"\\xff" * padding_size

        if padding_bytes != expected_padding_bytes:
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    @parse_type_str("int")""", """            expected_padding_bytes = b"\\xff" * padding_size

        if not padding_bytes.endswith(expected_padding_bytes[-24:]):
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    @parse_type_str("int")""")],
  needs="an intN narrower than 64 bits, with the stray byte more than 24 bytes from the value", breaks="a word that is not the sign extension of the value is accepted",
  demo='''
from eth_abi import decode
from eth_abi.exceptions import DecodingError
for t, n in (("int8", 1), ("int32", 4)):
    try:
        decode([t], b"\\\\x01" + b"\\\\xff" * 31)
    except DecodingError:
        pass
    else:
        raise SystemExit("accepted " + t)
'''.replace("\\\\", "\\")),
"C16-lowest-value": dict(property="C16", edits=[(S, """    return st.decimals(
        min_value=-(2 ** (bits - 1)),""", """    return st.decimals(
        min_value=1 - (2 ** (bits - 1)),""")],
  needs="looking at the bounds of the strategy of a signed fixed point type", breaks="the most negative value of fixedMxN is never generated",
  demo='''
from decimal import Decimal
from hypothesis import find, settings, HealthCheck, Phase
from eth_abi.tools import get_abi_strategy
s = get_abi_strategy("fixed8x1")
v = find(s, lambda x: x == Decimal("-12.8"), settings=settings(max_examples=20000, database=None, derandomize=True, suppress_health_check=list(HealthCheck)))
assert v == Decimal("-12.8")
'''),
"C11-capital-alias": dict(property="C11", edits=[(G, r"""    rf"\b({'|'.join(re.escape(a) for a in TYPE_ALIASES.keys())})\b"
""", r"""    rf"(?<![a-z])({'|'.join(re.escape(a) for a in TYPE_ALIASES.keys())})(?![a-zA-Z0-9])"
""")],
  needs="a custom type name that has an alias as its end, after a capital letter", breaks="normalisation rewrites a part of a custom type name",
  demo='''
from eth_abi.grammar import normalize
assert normalize("Xint") == "Xint", normalize("Xint")
assert normalize("(Myuint,uint)") == "(Myuint,uint256)"
assert normalize("(MYuint,uint)") == "(MYuint,uint256)"
'''),
"C03-packed-byte": dict(property="C03", edits=[(R, """    BaseEquals("byte"),
    encoding.PackedBytesEncoder,""", """    BaseEquals("byte"),
    encoding.BytesEncoder,""")],
  needs="the alias byte in packed encoding", breaks="byte takes 32 bytes in packed encodings",
  demo='''
from eth_abi.packed import encode_packed
assert encode_packed(["byte"], [b"a"]) == b"a"
'''),
"C04-short-packed-array": dict(property="C04", edits=[(E, "if self.array_size is not None and len(value) != self.array_size:", "if self.array_size is not None and len(value) > self.array_size:")],
  needs="packed encoding of a list shorter than the fixed size", breaks="a list of the wrong length is accepted",
  demo='''
from eth_abi.packed import encode_packed
from eth_abi.exceptions import EncodingError
try:
    encode_packed(["uint8[3]"], [[1, 2]])
except EncodingError:
    pass
else:
    raise SystemExit("accepted")
'''),
}
