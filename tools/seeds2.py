D, E, R, G, S, N, C = ("eth_abi/decoding.py", "eth_abi/encoding.py", "eth_abi/registry.py", "eth_abi/grammar.py",
                    "eth_abi/tools/_strategies.py", "eth_abi/utils/numeric.py", "eth_abi/codec.py")
SEEDS = {
"C01-byte-order-mark": dict(property="C01", edits=[(D, '''data.decode("utf-8", errors=handle''', '''data.decode("utf-8-sig", errors=handle''')],
  needs="text that starts with U+FEFF", breaks="the decoded text lacks its first character",
  demo='''
from eth_abi import encode, decode
v = "\\ufeffabc"
assert decode(["string"], encode(["string"], [v])) == (v,)
'''),
"C02-negative-zero": dict(property="C02", edits=[(E, '''            integer_value = int(scaled_value)

        unsigned_integer_value = integer_value % (2**self.value_bit_size)

        return int_to_big_endian(unsigned_integer_value)

    def encode(self, value):
        self.validate_value(value)
        base_encoded_value = self.encode_fn(value)

        if value >= 0:
            padded_encoded_value = zpad(base_encoded_value, self.data_byte_size)
        else:
            padded_encoded_value = fpad(base_encoded_value, self.data_byte_size)
''', '''            integer_value = int(scaled_value)

        unsigned_integer_value = integer_value % (2**self.value_bit_size)

        return int_to_big_endian(unsigned_integer_value)

    def encode(self, value):
        self.validate_value(value)
        base_encoded_value = self.encode_fn(value)

        if decimal.Decimal(value).is_signed():
            padded_encoded_value = fpad(base_encoded_value, self.data_byte_size)
        else:
            padded_encoded_value = zpad(base_encoded_value, self.data_byte_size)
''')],
  needs="a negative zero as a signed fixed-point value", breaks="minus zero is encoded as ff..ff00",
  demo='''
import decimal
from eth_abi import encode
assert encode(["fixed128x18"], [decimal.Decimal("-0")]) == bytes(32)
'''),
"C04-signaling-nan": dict(property="C04", edits=[(E, "value.is_nan() or value.is_infinite()", "value.is_qnan() or value.is_infinite()")],
  needs="a signaling NaN as a fixed-point value", breaks="InvalidOperation escapes instead of an encoding error",
  demo='''
import decimal
from eth_abi import encode
from eth_abi.exceptions import EncodingError
try:
    encode(["fixed128x18"], [decimal.Decimal("sNaN")])
except EncodingError:
    pass
'''),
"C05-callable-in-tuple": dict(property="C05", edits=[(E, '''                encoder.validate_value(item)
            except AttributeError:
                encoder(item)''', '''                encoder.validate_value(item)
            except AttributeError:
                pass''')],
  needs="a plain callable encoder inside a tuple and a value it refuses", breaks="is_encodable answers True for a value that encoding refuses",
  demo='''
from eth_abi.registry import registry
from eth_abi.codec import ABICodec
from eth_abi.exceptions import EncodingError
def enc(v):
    if v != 1:
        raise EncodingError("no")
    return bytes(32)
r = registry.copy()
r.register("custom", enc, lambda s: s.read(32))
c = ABICodec(r)
assert c.is_encodable("(custom,uint8)", (1, 2)) is True
assert c.is_encodable("(custom,uint8)", (2, 2)) is False
'''),
"C06-boolean-low-bit": dict(property="C06", edits=[(D, '''        elif data == b"\\x01":
            return True''', '''        elif data[0] & 1:
            return True''')],
  needs="a boolean word that is odd and not 1", breaks="a boolean that is neither 0 nor 1 is accepted",
  demo='''
from eth_abi import decode
from eth_abi.exceptions import DecodingError
for b in range(2, 256):
    try:
        decode(["bool"], bytes(31) + bytes([b]))
    except DecodingError:
        pass
    else:
        raise SystemExit("accepted")
'''),
"C07-behind-own-slot": dict(property="C07", edits=[(D, '''            end_of_offsets = current_location + 32 * array_size
            total_stream''', '''            total_stream'''), (D, '''                    indicated_idx < end_of_offsets
                    or indicated''', '''                    indicated_idx < stream.tell()
                    or indicated''')],
  needs="an array of dynamic items whose offset points behind its own slot but into the pointer table", breaks="an offset into the head is followed",
  demo='''
from eth_abi import decode
from eth_abi.exceptions import DecodingError
w = lambda n: n.to_bytes(32, "big")
data = w(32) + w(2) + w(32) + w(64) + w(0)
try:
    decode(["bytes[]"], data)
except DecodingError:
    pass
else:
    raise SystemExit("accepted")
'''),
"C08-repeat": dict(property="C08", edits=[(D, '''        self.validate_pointers(stream, array_size)
        for _ in range(array_size):
            yield self.item_decoder(stream)
        stream.pop_frame()''', '''        self.validate_pointers(stream, array_size)
        for item_decoder in itertools.repeat(self.item_decoder, array_size):
            yield item_decoder(stream)
        stream.pop_frame()'''), (D, "import io\n", "import io\nimport itertools\n")],
  needs="a dynamic array of static items with an element count above the machine word", breaks="OverflowError instead of a decoding error",
  demo='''
from eth_abi import decode
from eth_abi.exceptions import DecodingError
w = lambda n: n.to_bytes(32, "big")
try:
    decode(["uint256[]"], w(32) + w(2**200) + w(1))
except DecodingError:
    pass
'''),
"C09-cache-by-type": dict(property="C09", edits=[(C, '''            self._registry.get_decoder(type_str, strict=strict) for type_str in types
''', '''            (
                self._registry.get_decoder(type_str, strict=strict)
                if strict
                else self._loose_decoder(type_str)
            )
            for type_str in types
'''), (C, '''    stream_class = ContextFramesBytesIO

''', '''    stream_class = ContextFramesBytesIO

    def _loose_decoder(self, type_str):
        decoder = self._registry.get_decoder(type_str)
        if getattr(decoder, "is_dynamic", False):
            decoder.strict = False
        return decoder

''')],
  needs="a strict call after a non-strict call with the same codec and type", breaks="the strict call accepts bad padding",
  demo='''
from eth_abi import decode
from eth_abi.exceptions import DecodingError
w = lambda n: n.to_bytes(32, "big")
data = w(32) + w(1) + b"ab" + bytes(30)
assert decode(["bytes"], data, strict=False) == (b"a",)
try:
    decode(["bytes"], data)
except DecodingError:
    pass
else:
    raise SystemExit("accepted")
'''),
"C10-relative-return": dict(property="C10", edits=[(D, '''        self._frames.append((offset, self.tell()))''', '''        self._frames.append((offset, max(self.tell(), self._total_offset + offset)))''')],
  needs="an offset smaller than the return position", breaks="decoding resumes at the wrong place",
  demo='''
from eth_abi import decode, encode
t, v = ["(uint8,bytes)[2]", "uint8[]"], [((1, b"a"), (2, b"b")), (3, 4)]
assert decode(t, encode(t, v)) == (((1, b"a"), (2, b"b")), (3, 4))
'''),
"C11-two-digit-zero": dict(property="C11", edits=[(G, '''digits = ~"[1-9][0-9]*"''', '''digits = ~"[0-9]+"''')],
  needs="a type string with a leading zero in a size", breaks="the type string is accepted and printed without the zero",
  demo='''
from eth_abi.grammar import parse
from eth_abi.exceptions import ParseError
for t in ("uint08", "bytes01", "uint8[01]", "fixed08x01"):
    try:
        p = parse(t)
    except ParseError:
        continue
    assert p.to_type_str() == t, t
'''),
"C12-inner-dynamic-dim": dict(property="C12", edits=[(G, '''        return self.is_array and any(len(dim) == 0 for dim in self.arrlist)''', '''        return self.is_array and (
            len(self.arrlist[0]) == 0 or len(self.arrlist[-1]) == 0
        )''')],
  needs="an array with at least three dimensions of which only an inner one is dynamic", breaks="the type is classified as static",
  demo='''
from eth_abi.grammar import parse
assert parse("uint8[2][][2]").is_dynamic is True
assert parse("(uint8)[2][][2]").is_dynamic is True
'''),
"C13-equal-by-class": dict(property="C13", edits=[(R, '''        return type(self) is type(other) and tuple(self) == tuple(other)''', '''        return type(self) is type(other) and set(self) == set(other)''')],
  needs="two lookups with the same attributes in another order or number", breaks="lookups that match different types count as equal",
  demo='''
from eth_abi.registry import BaseEquals, Predicate
class Pair(Predicate):
    __slots__ = ("a", "b")
    def __init__(self, a, b):
        self.a, self.b = a, b
    def __call__(self, s):
        return s.startswith(self.a) and s.endswith(self.b)
assert Pair("x", "y") != Pair("y", "x")
'''),
"C13-label-first": dict(property="C13", edits=[(R, '''        if predicate in self._values:
            raise ValueError(
                f"Matcher {repr(predicate)} already exists in {self._name}"
            )

        if label is not None:
            if label in self._labeled_predicates:
                raise ValueError(
                    f"Matcher {repr(predicate)} with label '{label}' already exists "
                    f"in {self._name}"
                )

            self._labeled_predicates[label] = predicate
''', '''        if label is not None:
            if label in self._labeled_predicates:
                raise ValueError(
                    f"Matcher {repr(predicate)} with label '{label}' already exists "
                    f"in {self._name}"
                )

            self._labeled_predicates[label] = predicate

        if predicate in self._values:
            raise ValueError(
                f"Matcher {repr(predicate)} already exists in {self._name}"
            )
''')],
  needs="a refused registration of a live lookup under a new label", breaks="the label stays behind and can remove the live registration",
  demo='''
from eth_abi.registry import registry, BaseEquals
from eth_abi import encoding
r = registry.copy()
try:
    r.register_encoder(BaseEquals("uint"), encoding.UnsignedIntegerEncoder, label="again")
except ValueError:
    pass
try:
    r.unregister_encoder("again")
except KeyError:
    pass
r.get_encoder("uint8")
'''),
"C14-shared-labels": dict(property="C14", edits=[(R, '''        cpy._labeled_predicates = copy.copy(self._labeled_predicates)
''', '''        cpy._labeled_predicates.update(self._labeled_predicates)
'''), (R, '''        self._name = name
        self._values = {}
        self._labeled_predicates = {}
''', '''        self._name = name
        self._values = {}
''',), (R, '''    also be labeled to facilitate removal from the mapping.
    """

''', '''    also be labeled to facilitate removal from the mapping.
    """

    _labeled_predicates: dict[str, Any] = {}

''')],
  needs="any two registries", breaks="labels are shared between all registries",
  demo='''
from eth_abi.registry import registry
from eth_abi import encoding
r = registry.copy()
r.register_encoder("mine", encoding.BooleanEncoder, label="mine")
s = registry.copy()
s.register_encoder("mine", encoding.BooleanEncoder, label="mine")
'''),
"C14-label-alias": dict(property="C14", edits=[(R, '''        cpy._labeled_predicates = copy.copy(self._labeled_predicates)
''', '''        cpy._labeled_predicates = self._labeled_predicates
''')],
  needs="a label removed or added on a copy, then used on the original", breaks="a change to the copy changes the labels of the original",
  demo='''
from eth_abi.registry import registry
r = registry.copy()
s = r.copy()
s.unregister_encoder("uint")
r.unregister_encoder("uint")
'''),
"C15-ambient-exponents": dict(property="C15", edits=[(N, '''    def f(x: decimal.Decimal) -> decimal.Decimal:
        with decimal.localcontext(abi_decimal_context):
            return x * scaling_factor
''', '''    def f(x: decimal.Decimal) -> decimal.Decimal:
        with decimal.localcontext() as ctx:
            ctx.prec = ABI_DECIMAL_PREC
            return x * scaling_factor
''')],
  needs="an ambient decimal context with small exponent limits", breaks="the scaling helper overflows or underflows",
  demo='''
import decimal
from eth_abi.utils.numeric import scale_places
f = scale_places(80)
want = f(decimal.Decimal(3))
with decimal.localcontext(decimal.Context(prec=9, Emin=-20, Emax=20)):
    got = f(decimal.Decimal(3))
assert got == want == decimal.Decimal("3E-80")
'''),
"C15-decoder-ambient-exponents": dict(property="C15", edits=[(D, '''        value = big_endian_to_int(data)

        with decimal.localcontext(abi_decimal_context):
            decimal_value =''', '''        value = big_endian_to_int(data)

        with decimal.localcontext() as ctx:
            ctx.prec = abi_decimal_context.prec
            decimal_value =''')],
  needs="an ambient decimal context with small exponent limits", breaks="decoding fixed-point values overflows or is inexact",
  demo='''
import decimal
from eth_abi import decode
with decimal.localcontext(decimal.Context(prec=9, Emin=-20, Emax=20)):
    (got,) = decode(["ufixed256x80"], (3).to_bytes(32, "big"))
assert got == decimal.Decimal("3E-80")
'''),
"C16-surrogates": dict(property="C16", edits=[(S, "string_strategy = st.text()", "string_strategy = st.text(alphabet=st.characters(exclude_categories=()))")],
  needs="a generated text with a surrogate code point", breaks="the strategy for string generates text that cannot be encoded",
  demo='''
import warnings
warnings.simplefilter("ignore")
from hypothesis import find, settings, HealthCheck
from hypothesis.errors import NoSuchExample
from eth_abi.tools import get_abi_strategy
from eth_abi import is_encodable
try:
    find(get_abi_strategy("string"), lambda v: not is_encodable("string", v), settings=settings(max_examples=3000, deadline=None, database=None, suppress_health_check=list(HealthCheck)))
except NoSuchExample:
    pass
else:
    raise SystemExit("generated text that cannot be encoded")
'''),
"C16-short-range": dict(property="C16", edits=[(S, '''    return st.decimals(
        min_value=0,
        max_value=2**bits - 1,
        places=0,
    ).map(scale_places(places))''', '''    return st.decimals(
        min_value=0,
        max_value=2 ** (bits - 1),
        places=0,
    ).map(scale_places(places))''')],
  needs="generated ufixed values in the upper half of the range", breaks="the strategy does not cover the upper half of the range",
  demo='''
import decimal
from hypothesis import find, settings, HealthCheck
from eth_abi.tools import get_abi_strategy
find(get_abi_strategy("ufixed8x1"), lambda v: v > 13, settings=settings(max_examples=5000, deadline=None, database=None, suppress_health_check=list(HealthCheck)))
'''),
"C17-callable-object": dict(property="C17", edits=[(D, '''            HeadTailDecoder(tail_decoder=d) if getattr(d, "is_dynamic", False) else d
            for d''', '''            (
                HeadTailDecoder(tail_decoder=d)
                if isinstance(d, BaseDecoder) and d.is_dynamic
                else d
            )
            for d''')],
  needs="a dynamic custom decoder that is a plain callable with an is_dynamic attribute", breaks="the custom decoder is called at the offset word, not at the tail",
  demo='''
from eth_abi.registry import registry
from eth_abi.codec import ABICodec
def enc(v):
    return v.rjust(32)
enc.is_dynamic = True
def dec(s):
    return s.read(32).lstrip()
dec.is_dynamic = True
r = registry.copy()
r.register("custom", enc, dec)
c = ABICodec(r)
assert c.decode(["(custom,uint8)"], c.encode(["(custom,uint8)"], [(b"hi", 3)])) == ((b"hi", 3),)
'''),
"C17-encoder-class-only": dict(property="C17", edits=[(E, '''            if getattr(encoder, "is_dynamic", False):
                raw_head''', '''            if isinstance(encoder, BaseEncoder) and encoder.is_dynamic:
                raw_head''')],
  needs="a dynamic custom encoder that is a plain callable with an is_dynamic attribute", breaks="the bytes of a dynamic custom encoder are placed in the head",
  demo='''
from eth_abi.registry import registry
from eth_abi.codec import ABICodec
def enc(v):
    return v.rjust(32)
enc.is_dynamic = True
r = registry.copy()
r.register_encoder("custom", enc)
c = ABICodec(r)
assert c.encode(["custom"], [b"hi"]) == (32).to_bytes(32, "big") + b"hi".rjust(32)
'''),
"C02-offset-of-empty": dict(property="C02", edits=[(E, '''        tail_offsets = (0,) + tuple(accumulate(map(len, tail_chunks[:-1])))
        head_chunks = tuple(
            encode_uint_256(head_length + offset) for offset in tail_offsets
        )
        return b"".join(head_chunks + tail_chunks)''', '''        tail_offsets = {}
        position = head_length
        for chunk in tail_chunks:
            tail_offsets.setdefault(chunk, position)
            position += len(chunk)
        head_chunks = tuple(encode_uint_256(tail_offsets[chunk]) for chunk in tail_chunks)
        return b"".join(head_chunks + tail_chunks)''')],
  needs="an array of dynamic items with two equal items", breaks="both offsets point at the first of the equal items",
  demo='''
from eth_abi import encode
w = lambda n: n.to_bytes(32, "big")
one = w(1) + b"a" + bytes(31)
assert encode(["bytes[]"], [[b"a", b"a"]]) == w(32) + w(2) + w(64) + w(128) + one + one
'''),
"C04-one-shot-check": dict(property="C04", edits=[(E, '''        if len(value) != self.array_size:
            self.invalidate_value(
                value,
                exc=ValueOutOfBounds,
                msg=f"value has {len(value)} items when {self.array_size} were "
                "expected",
            )

    def encode(self, value):
        encoded_elements = self.encode_elements(value)

        return encoded_elements


class DynamicArrayEncoder''', '''        if len(value) % self.array_size != 0 or not value:
            self.invalidate_value(
                value,
                exc=ValueOutOfBounds,
                msg=f"value has {len(value)} items when {self.array_size} were "
                "expected",
            )

    def encode(self, value):
        encoded_elements = self.encode_elements(value)

        return encoded_elements


class DynamicArrayEncoder''')],
  needs="a list whose length is a multiple of the declared size", breaks="too many items are accepted",
  demo='''
from eth_abi import encode
from eth_abi.exceptions import EncodingError
try:
    encode(["uint8[2]"], [[1, 2, 3, 4]])
except EncodingError:
    pass
else:
    raise SystemExit("accepted")
'''),
"C03-packed-negative": dict(property="C03", edits=[(E, '''class PackedSignedFixedEncoder(SignedFixedEncoder):
    @parse''', '''class PackedSignedFixedEncoder(SignedFixedEncoder):
    def encode(self, value):
        self.validate_value(value)
        return self.encode_fn(value).rjust(self.data_byte_size, b"\\x00")

    def encode_fn(self, value):
        encoded = super().encode_fn(value)
        return encoded or b"\\x00"

    @parse''')],
  needs="nothing", breaks="nothing", demo="pass"),
"C03-packed-text": dict(property="C03", edits=[(E, '''        return codecs.encode(value, "utf8")


class BaseArrayEncoder''', '''        return codecs.encode(value, "utf8").rstrip(b"\\x00")


class BaseArrayEncoder''')],
  needs="text that ends in NUL characters, packed", breaks="trailing NUL characters are dropped",
  demo='''
from eth_abi.packed import encode_packed
assert encode_packed(["string"], ["a\\x00"]) == b"a\\x00"
'''),
}
del SEEDS["C03-packed-negative"]
