#!/usr/bin/env python3
"""Mines the header corpus harness/data/headers.txt (offline, ~1 h on 8 cores with SHA extensions).
Build first: gcc -O3 -msha -msse4.1 -mssse3 -o /tmp/mine mine.c -lpthread"""
import subprocess, hashlib, struct, sys, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../harness/data/headers.txt")
MAX = 0xFFFF << 208
P = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001  # base prime
have = {}
if os.path.exists(OUT):
    for l in open(OUT):
        if l.strip() and l[0] != "#":
            n, h, _ = l.split(); have[n] = h
def dsha(b): return int.from_bytes(hashlib.sha256(hashlib.sha256(b).digest()).digest(), "little")
def tgt(bits): return (bits & 0xFFFFFF) << (8 * ((bits >> 24) - 3)) if bits >> 24 >= 3 else 0
def compact(t):
    e = (t.bit_length() + 7) // 8
    m = t >> (8 * (e - 3))
    if m & 0x800000: m >>= 8; e += 1
    return e << 24 | m
def mine(name, prev, time, bits, w7=0, lt=None, ge=None):
    if name in have:
        return dsha(bytes.fromhex(have[name]))
    k = 0
    while True:
        merkle = hashlib.sha256(f"{name}/{k}".encode()).digest()
        h = struct.pack("<I", 1) + prev.to_bytes(32, "little") + merkle + struct.pack("<II", time, bits) + b"\0" * 4
        mx = (lt - 1) if lt else (1 << 256) - 1
        o = subprocess.run(["nice", "-n", "19", "/tmp/mine", h.hex(), "%08x" % w7, "%064x" % mx, "8"], capture_output=True, text=True).stdout.split()
        b = bytes.fromhex(o[0]); n = dsha(b)
        assert n == int(o[1], 16)
        k += 1
        if ge is not None and n < ge: continue
        with open(OUT, "a") as f: f.write(f"{name} {b.hex()} {n:064x}\n")
        have[name] = b.hex()
        print(name, "%064x" % n, flush=True)
        return n
def chain(name, first_bits, before, after, num, den, t0, gap):
    """`before` headers at first_bits ending with counter 2015, then `after` at the retargeted bits"""
    prev = int.from_bytes(hashlib.sha256(name.encode()).digest()[:24], "big")
    span = 1209600 * num // den
    bits = first_bits; t = t0
    for i in range(before + after):
        if i == before: bits = compact(tgt(first_bits) * span // 1209600)
        prev = mine(f"{name}.{i}", prev, t, bits, lt=tgt(bits))
        t += gap
anyprev = lambda s: int.from_bytes(hashlib.sha256(s.encode()).digest()[:27], "big")
T = 1300000000
def single(name, bits, **k): mine(name, k.pop("prev", anyprev(name)), k.pop("time", T + 777), bits, **k)
if __name__ == "__main__":
    chain("down70", 0x1D00FFFF, 3, 3, 7, 10, T, 600)
    single("pow-fails", 0x1B04864C)
    single("alias-hash", 0x1D00FFFF, w7=0x40, ge=P, lt=P + MAX)
    single("alias-prev", 0x1D00FFFF, lt=MAX, prev=P + anyprev("alias-prev"))
    single("mantissa-7fff", 0x1D007FFF, lt=tgt(0x1D007FFF))
    single("mantissa-sign", 0x1CFFFFFF, lt=0x7FFFFF << 200)
    single("above-max", 0x1D010000)
    single("exponent-27", 0x1E00FFFF)
    single("regtest", 0x207FFFFF)
    chain("up150", 0x1C600000, 2, 2, 3, 2, T + 5000, 1200)
    single("exponent-33", 0x2200FFFF)
    single("min-mantissa", 0x1D008000, lt=tgt(0x1D008000))
    single("max-mantissa", 0x1C7FFFFF, lt=tgt(0x1C7FFFFF))
    single("odd-mantissa", 0x1D00C0DE, lt=tgt(0x1D00C0DE))
    single("just-above", 0x1C7FFFFF, ge=0x7FFFFF << 200)
    single("sign-alias", 0x1C804000, lt=0x8040 << 208)
    single("time-2^31", 0x1D00FFFF, lt=MAX, time=0x80000000)
    single("time-max", 0x1D00FFFF, lt=MAX, time=0xFFFFFFFF)
    chain("down40", 0x1D00FFFF, 2, 2, 2, 5, T + 99999, 300)
    single("alias-hash2", 0x1D00FFFF, w7=0x40, ge=P, lt=P + MAX)
    single("time-max", 0x1D00FFFF, lt=MAX, time=0xFFFFFFFF)
    single("time-zero-ish", 0x1D00FFFF, lt=MAX, time=1)
    chain("up399", 0x1C400000, 1, 2, 399, 100, T + 7, 600)
    single("prev-zero", 0x1D00FFFF, lt=MAX, prev=0)
    single("prev-max", 0x1D00FFFF, lt=MAX, prev=(1 << 224) - 1)
    single("prev-2^224", 0x1D00FFFF, lt=MAX, prev=(1 << 224) + anyprev("x") % (1 << 223))
    single("time-2^31", 0x1D00FFFF, lt=MAX, time=0x80000000)
    single("above-pow", 0x1D00C000, ge=0xC000 << 208)
    single("exponent-255", 0xFF00FFFF)
    single("exponent-2", 0x0200FFFF)
