"""Bit-slice conversions are lossless."""
import itertools

PROPERTY = "C04"
RULE = (
    "every value of every width up to the bound, every byte, every pair of adjacent "
    "bytes, every list length; each conversion compared with integer bit arithmetic "
    "and composed with its inverse")


def uints(ctx):
  from jaxite.jaxite_bool import type_converters as tc
  top = 12 if ctx.quick else 16
  for n in range(1, top + 1):
    for v in range(2 ** n):
      bits = [bool(v >> i & 1) for i in range(n)]
      ctx.check(tc.uint_to_bit_slice(v, n) == bits, f"uint_to:{n}:{v}",
                got=tc.uint_to_bit_slice(v, n))
      ctx.check(tc.bit_slice_to_uint(bits, n) == v, f"to_uint:{n}:{v}",
                got=tc.bit_slice_to_uint(bits, n))
    ctx.cover(states=2 ** n, transitions=2 ** (n + 1), traces=2 ** n)
    for m in range(0, top + 2):
      if m != n:
        ctx.raises(f"to_uint:len{m}!={n}", ValueError,
                   lambda: tc.bit_slice_to_uint([True] * m, n))
        ctx.cover(states=1, transitions=1)
  # one-hot and its complement for wide words
  for n in (16, 24, 31, 32, 33, 48, 63, 64, 65, 100):
    for i in range(n):
      for v in (1 << i, (1 << n) - 1 - (1 << i)):
        bits = [bool(v >> j & 1) for j in range(n)]
        ctx.check(tc.uint_to_bit_slice(v, n) == bits, f"uint_to:{n}:{v}")
        ctx.check(tc.bit_slice_to_uint(bits, n) == v, f"to_uint:{n}:{v}")
        ctx.cover(states=1, transitions=2, traces=1)
  ctx.outcome("widths", top)
  for v in range(256):
    bits = [bool(v >> i & 1) for i in range(8)]
    ctx.check(tc.u8_to_bit_slice(v) == bits, f"u8_to:{v}")
    ctx.check(tc.bit_slice_to_u8(bits) == v, f"to_u8:{v}")
    ctx.cover(states=1, transitions=2, traces=1)
  for v in (-1, -128, 256, 257, 1000):
    ctx.raises(f"u8_to:{v}", ValueError, lambda: tc.u8_to_bit_slice(v))
    ctx.cover(states=1, transitions=1)
  for m in (0, 1, 7, 9, 16):
    ctx.raises(f"to_u8:len{m}", ValueError, lambda: tc.bit_slice_to_u8([True] * m))
    ctx.cover(states=1, transitions=1)
  ctx.raises("list:empty", ValueError, lambda: tc.u8_list_to_bit_slice([]))
  ctx.raises("bytes:empty", ValueError, lambda: tc.bit_slice_to_bytes([]))
  ctx.raises("list:256", ValueError, lambda: tc.u8_list_to_bit_slice([1, 256]))


def byte_strings(ctx):
  from jaxite.jaxite_bool import type_converters as tc

  def one(bs):
    key = f"bytes:{list(bs)}"
    bits = [bool(v >> i & 1) for v in bs for i in range(8)]
    with ctx.impl(key):
      got = tc.u8_list_to_bit_slice(list(bs))
      ctx.check(got == bits, key + ":to_bits", got=got)
      back = tc.bit_slice_to_bytes(bits)
      ctx.check(bytes(back) == bytes(bs), key + ":to_bytes", got=list(back))
    ctx.cover(states=1, transitions=2, traces=1)

  for v in range(256):
    one([v])
  for a, b in itertools.product(range(256), repeat=2):
    one([a, b])
  corner = (0, 1, 127, 128, 254, 255) if ctx.quick else (0, 1, 2, 64, 127, 128, 170, 254, 255)
  for n in (3, 4):
    for bs in itertools.product(corner, repeat=n):
      one(bs)
  for n in range(5, 40):
    one([(37 * i + n) % 256 for i in range(n)])
  ctx.outcome("pairs", 65536)
  ctx.sample([128, 255])


def strings(ctx):
  from jaxite.jaxite_bool import type_converters as tc
  chars = [chr(c) for c in range(128)]

  def one(s, n=None, pad=None):
    key = f"str:{s!r}:{n}:{pad}"
    with ctx.impl(key):
      kw = {}
      if n is not None:
        kw["static_len"] = n
      if pad is not None:
        kw["padding_byte"] = pad
      bits = tc.str_to_cleartext(s, **kw)
      want = s + (pad or b" ").decode() * ((n or 0) - len(s))
      e = [bool(ord(c) >> i & 1) for c in want for i in range(8)]
      ctx.check([bool(x) for x in bits] == e, key + ":to_bits")
      ctx.check(tc.cleartext_to_str(bits) == want, key + ":back",
                got=repr(tc.cleartext_to_str(bits)))
    ctx.cover(states=1, transitions=2, traces=1)

  for c in chars:
    one(c)
  for a, b in itertools.product(chars, repeat=2):
    one(a + b)
  for s in ("a", "ab", "abc", "z" * 10):
    for n in range(0, 14):
      for pad in (None, b" ", b"x", b"\x00", b"\x7f"):
        one(s, n, pad)
  for bad in ("\x80", "é", "ÿ"):
    ctx.raises(f"str:nonascii:{bad!r}", (UnicodeEncodeError, ValueError),
               lambda: tc.str_to_cleartext(bad))
  ctx.outcome("strings", 128 * 128)


SHARDS = {"uints": uints, "byte_strings": byte_strings, "strings": strings}
