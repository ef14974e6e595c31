D, E, R, G, S, N, C = ("eth_abi/decoding.py", "eth_abi/encoding.py", "eth_abi/registry.py", "eth_abi/grammar.py",
                    "eth_abi/tools/_strategies.py", "eth_abi/utils/numeric.py", "eth_abi/codec.py")
W = '''
from eth_abi import decode
from eth_abi.exceptions import DecodingError
w = lambda n: n.to_bytes(32, "big")
'''
SEEDS = {
"C09-loose-text": dict(property="C09", edits=[(D, '''        value = self.decoder_fn(data, self.bytes_errors)
''', '''        errors = self.bytes_errors if self.strict else "ignore"
        value = self.decoder_fn(data, errors)
''')],
  needs="non-strict decoding of text whose content is not utf-8", breaks="non-strict mode accepts (and drops) invalid bytes inside the text",
  demo=W + '''
data = w(32) + w(3) + b"a\\xffb" + bytes(29)
try:
    print(decode(["string"], data, strict=False))
except UnicodeDecodeError:
    pass
else:
    raise SystemExit(1)
'''),
"C09-loose-items": dict(property="C09", edits=[(R, '''            decoder.strict = strict

        return decoder
''', '''            parts = [getattr(d, "tail_decoder", d) for d in getattr(decoder, "decoders", ())]
            for part in [decoder] + parts:
                if getattr(part, "is_dynamic", False):
                    part.strict = strict

        return decoder
''')],
  needs="a strict call for a type that was decoded before, non-strictly, as part of a tuple", breaks="the strict call accepts bad padding: the component decoders are shared with other calls",
  demo=W + '''
data = w(32) + w(32) + w(1) + b"ab" + bytes(30)
good = w(32) + w(32) + w(1) + b"a" + bytes(31)
assert decode(["(bytes)"], good) == ((b"a",),)
assert decode(["(bytes)"], good, strict=False) == ((b"a",),)
try:
    decode(["(bytes)"], data)
except DecodingError:
    pass
else:
    raise SystemExit(1)
'''),
"C10-tail-memo": dict(property="C10", edits=[(D, '''        start_pos = decode_uint_256(stream)
        # Jump ahead to the start of the value
        stream.push_frame(start_pos)
''', '''        key = start_pos = decode_uint_256(stream)
        # A value that several pointers share is only decoded once
        key += stream._total_offset
        if key in stream.shared_values:
            return stream.shared_values[key]
        # Jump ahead to the start of the value
        stream.push_frame(start_pos)
'''), (D, '''        # Return the cursor
        stream.pop_frame()

        return value
''', '''        # Return the cursor
        stream.pop_frame()
        stream.shared_values[key] = value

        return value
'''), (D, '''        self._frames = []
        self._total_offset = 0
''', '''        self._frames = []
        self._total_offset = 0
        self.shared_values = {}
''')],
  needs="two pointers to the same place, for components of different types", breaks="the second component gets the value that was read for its sibling",
  demo=W + '''
data = w(64) + w(64) + w(1) + b"a" + bytes(31)
v = decode(["bytes", "string"], data)
assert v == (b"a", "a"), v
'''),
"C14-codec-memo": dict(property="C14", edits=[(C, '''        decoders = [
            self._registry.get_decoder(type_str, strict=strict) for type_str in types
        ]

        decoder = TupleDecoder(decoders=decoders)
        stream = self.stream_class(data)
''', '''        memo = self.__dict__.setdefault("_tuple_decoders", {})
        key = (tuple(types), strict)
        decoder = memo.get(key)
        if decoder is None:
            decoders = [
                self._registry.get_decoder(type_str, strict=strict)
                for type_str in types
            ]
            decoder = memo[key] = TupleDecoder(decoders=decoders)
        stream = self.stream_class(data)
''')],
  needs="a codec that has decoded a list of types before one of them is registered anew", breaks="the codec goes on using the decoder that was unregistered",
  demo='''
from eth_abi.codec import ABICodec
from eth_abi.registry import registry
r = registry.copy()
c = ABICodec(r)
data = (5).to_bytes(32, "big")
assert c.decode(["uint8"], data) == (5,)
r.unregister_decoder("uint")
r.register_decoder("uint8", lambda stream: ("mine", stream.read(32)[-1]))
assert c.decode(["uint8"], data) == (("mine", 5),), c.decode(["uint8"], data)
'''),
"C14-copied-memo": dict(property="C14", edits=[(R, '''        cpy._decoders = copy.copy(self._decoders)

        return cpy
''', '''        # the coders that are known already serve the copy as well
        cpy._decoders, cpy.get_decoder = copy.copy(self._decoders), self.get_decoder

        return cpy
''')],
  needs="a copy of a registry of which a decoder is then replaced", breaks="the copy still gives out the decoders of the original",
  demo='''
from eth_abi.registry import registry
r = registry.copy()
r.unregister_decoder("uint")
mine = lambda stream: 7
r.register_decoder("uint8", mine)
assert r.get_decoder("uint8") is mine
'''),
"C16-large-array": dict(property="C16", edits=[(S, '''        return st.lists(item_strategy, min_size=dim_size, max_size=dim_size)
''', '''        return st.lists(
            item_strategy, min_size=min(dim_size, 64), max_size=dim_size
        )
''')],
  needs="an array type with a fixed length above 64", breaks="the strategy generates lists that are too short for the type",
  demo='''
import warnings
warnings.simplefilter("ignore")
from hypothesis import find, settings
from eth_abi.tools import get_abi_strategy
from eth_abi import is_encodable
try:
    find(get_abi_strategy("bool[80]"), lambda v: not is_encodable("bool[80]", v), settings=settings(database=None, max_examples=300))
except Exception as e:
    assert type(e).__name__ == "NoSuchExample", e
else:
    raise SystemExit(1)
'''),
}
