"""One PRNG: every choice of a scenario is drawn from a stream that is a pure
function of (VERIF_SEED, property, index, purpose)."""

import hashlib
import random


def stream(*parts) -> random.Random:
    key = "\x1f".join(str(p) for p in parts).encode("utf-8")
    return random.Random(int.from_bytes(hashlib.sha256(key).digest()[:16], "big"))


def digest(obj) -> str:
    import json

    data = json.dumps(obj, sort_keys=True, default=repr, ensure_ascii=True)
    return hashlib.sha256(data.encode("utf-8")).hexdigest()[:24]
