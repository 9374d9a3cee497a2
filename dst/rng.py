"""The only source of randomness: a PRNG per (check seed, purpose, index)."""
import hashlib
import random


def make(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))
