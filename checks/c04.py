"""C04: serialized choice sequences round-trip and decoding never crashes."""

import binascii
import contextlib
import types
import zlib

from symx.api import Ob, need, quick_plan

BOUNDS = (
    "sequences of up to 3 choices of arbitrary kinds: integers up to 2**72 in magnitude (single choices: up to 2**270), every float bit pattern, text of up to 2 arbitrary code points "
    "(surrogates included), bytes of up to 2 arbitrary bytes; single byte strings and texts of the lengths 29..33, 127..129 (thorough 1100, 16383..16385); "
    "variable-length sizes below 2**64; decoding of every byte string of up to 5 (thorough 7) bytes, and of every 8-byte float payload; failure blobs of up to 2 choices"
)
OUTSIDE = "longer sequences and payloads"
ASSUMPTIONS = [
    "base64 and zlib invert themselves: the blob checks use stand-ins which return arbitrary bytes of arbitrary length for compression and only undo what they did (replays of the round trip use the real ones)"
]
OPTS = {}
DB = "hypothesis.database"
KINDS = ("bool", "int", "float", "bytes", "str")


def value(env, kind, bits=72, lens=(0, 1, 2)):
    if kind == "bool":
        return env.bool("b")
    if kind == "int":
        return env.int("i", -(2**bits), 2**bits)
    if kind == "float":
        return env.float("f")
    n = env.options("len", lens)
    return env.bytes("y", n) if kind == "bytes" else env.str("s", n)


def both(env, choices, msg=""):
    enc, dec = need(DB, "choices_to_bytes", "choices_from_bytes")
    blob = enc(choices)
    env.check(isinstance(blob, bytes), "serialization does not give bytes")
    got = dec(blob)
    env.check(got is not None, "a serialized sequence does not decode" + msg)
    env.check(env.same(tuple(got), tuple(choices)), "decoding gives another sequence" + msg)
    env.reach("round trip")
    return blob


def sequence(env, first, n):
    kinds = [first] + [env.options("kind", KINDS) for _ in range(n - 1)]
    both(env, tuple(value(env, k, lens=(0, 1)) for k in kinds))


def single(env, kind, bits=72, lens=(0, 1, 2)):
    both(env, (value(env, kind, bits, lens),))


def length(env, kind, n):
    """a long payload between two other choices"""
    if kind == "bytes":
        x = env.bytes("y", 2) + bytes(n - 2)
    else:
        x = env.str("s", 1, hi=127) + "a" * (n - 1)
    both(env, (env.bool("b"), x, env.int("i", -200, 200)))


def sizes(env, width):
    pack, unpack = need(DB, "_pack_uleb128", "_unpack_uleb128")
    x = env.int("size", 0, 2**width - 1)
    b = pack(x)
    tail = env.bytes("tail", env.choose("more", 3))
    i, v = unpack(b + tail)
    env.check(v == x, "a size is not read back")
    env.check(i == len(b), "reading a size consumes another number of bytes than writing it")
    env.reach("size")


def arbitrary(env, n, tag=None):
    """any bytes: nothing is raised, and what decodes is a sequence of choices"""
    dec = need(DB, "choices_from_bytes")
    b = env.bytes("blob", n)
    if tag is not None:
        env.assume((b[0] >> 5) == tag)
    got = dec(b)
    if got is None:
        env.reach("rejected")
        return
    env.check(isinstance(got, tuple), "decoding does not give a tuple")
    for x in got:
        env.check(x.__class__ in (bool, int, float, bytes, str), "decoding gives a value that is not a choice")
    env.reach("decoded")
    both(env, got, " (after decoding arbitrary bytes)")


def float_payload(env):
    dec = need(DB, "choices_from_bytes")
    b = env.bytes("payload", 8)
    got = dec(bytes([(1 << 5) | 8]) + b)
    env.check(got is not None and len(got) == 1 and got[0].__class__ is float, "a float does not decode")
    both(env, got)


@contextlib.contextmanager
def stand_ins(env, arbitrary=False):
    mod = need("hypothesis.core")
    need("hypothesis.core", "zlib", "base64")
    memory = []

    def compress(data, *a, **k):
        if arbitrary:
            raise AssertionError
        z = env.bytes("compressed", env.choose("compressed to", len(data) + 2))
        memory.append((z, data))
        return z

    def decompress(data, *a, **k):
        if arbitrary:
            if env.bool("bad data"):
                raise zlib.error("bad data")
            return env.bytes("decompressed", env.choose("decompressed to", 4))
        for z, d in memory:
            if data == z:
                return d
        raise zlib.error("not compressed by us")

    def b64encode(data, *a, **k):
        return b"~" + data

    def b64decode(data, *a, **k):
        if arbitrary:
            if env.bool("not base64"):
                raise binascii.Error("not base64")
            return data
        return data[1:]

    old = mod.zlib, mod.base64
    mod.zlib = types.SimpleNamespace(compress=compress, decompress=decompress, error=zlib.error)
    mod.base64 = types.SimpleNamespace(b64encode=b64encode, b64decode=b64decode)
    try:
        yield
    finally:
        mod.zlib, mod.base64 = old


def blob(env, n):
    enc, dec = need("hypothesis.core", "encode_failure", "decode_failure")
    choices = tuple(value(env, env.options("kind", KINDS), bits=16, lens=(0, 1)) for _ in range(n))
    with stand_ins(env) if env.symbolic else contextlib.nullcontext():
        got = dec(enc(choices))
    env.check(env.same(tuple(got), choices), "the blob of a failure decodes to other choices")
    env.reach("blob")


def compressible(env):
    """a long enough blob is compressed"""
    enc, dec = need("hypothesis.core", "encode_failure", "decode_failure")
    choices = (env.int("i", -200, 200), "a" * 40, env.bool("b"))
    with stand_ins(env) if env.symbolic else contextlib.nullcontext():
        got = dec(enc(choices))
    env.check(env.same(tuple(got), choices), "the blob of a failure decodes to other choices")


def any_blob(env, n):
    dec = need("hypothesis.core", "decode_failure")
    IA = need("hypothesis.errors", "InvalidArgument")
    with stand_ins(env, arbitrary=True):
        try:
            got = dec(env.bytes("blob", n))
        except IA:
            env.reach("rejected")
            return
    for x in got:
        env.check(x.__class__ in (bool, int, float, bytes, str), "decoding gives a value that is not a choice")
    env.reach("decoded")


OBLIGATIONS = [
    *[Ob(f"one {k}", single, 60, kind=k, bits=270, opts=OPTS) for k in KINDS],
    Ob("one longer text", single, 150, tier="thorough", kind="str", lens=(3,), opts=OPTS),
    *[Ob(f"{k}, one more", sequence, 60, first=k, n=2, opts=OPTS) for k in KINDS],
    *[Ob(f"{k}, two more", sequence, 60, first=k, n=3, tier="quick" if k == "bool" else "thorough", opts=OPTS) for k in KINDS],
    *[Ob(f"{k} of length {n}", length, 30, kind=k, n=n, opts=OPTS) for k in ("bytes", "str") for n in (29, 30, 31, 32, 33, 127, 128, 129)],
    *[Ob(f"{k} of length {n}", length, 120, tier="thorough", kind=k, n=n, opts=OPTS) for k in ("bytes", "str") for n in (1100, 16383, 16384, 16385)],
    Ob("sizes", sizes, 60, width=64, opts=OPTS),
    Ob("every float payload", float_payload, 30, opts=OPTS),
    *[Ob(f"{n} arbitrary bytes", arbitrary, 60, n=n, opts=OPTS) for n in range(4)],
    *[Ob(f"4 arbitrary bytes, tag {t}", arbitrary, 60, n=4, tag=t, opts=OPTS) for t in range(8)],
    *[Ob(f"{n} arbitrary bytes, tag {t}", arbitrary, 60 if n < 6 else 200, tier="quick" if n < 6 else "thorough", n=n, tag=t, opts=OPTS) for t in range(8) for n in (5, 6, 7)],
    *[Ob(f"blob of {n}", blob, 60, n=n, opts=OPTS) for n in range(2)],
    Ob("blob of 2", blob, 200, tier="thorough", n=2, opts=OPTS),
    Ob("compressible blob", compressible, 30, opts=OPTS),
    *[Ob(f"arbitrary blob of {n} bytes", any_blob, 60, n=n, opts=OPTS) for n in range(4)],
]

quick_plan(
    OBLIGATIONS,
    deep={
        "5 arbitrary bytes, tag 2",
        "5 arbitrary bytes, tag 3",
    },
)
