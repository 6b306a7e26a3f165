"""JSON encoding of generated cases (exact for float64 and numpy arrays)."""
import json

import numpy as np


def enc(x):
    if isinstance(x, np.ndarray):
        return {"__nd__": str(x.dtype), "shape": list(x.shape),
                "data": [enc(v) for v in x.ravel().tolist()]}
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, bool) or x is None or isinstance(x, (int, float, str)):
        return x
    if isinstance(x, dict):
        if all(isinstance(k, str) for k in x):
            return {k: enc(v) for k, v in x.items()}
        return {"__map__": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, tuple):
        return {"__tuple__": [enc(v) for v in x]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    raise TypeError("cannot encode %r" % type(x))


def dec(x):
    if isinstance(x, dict):
        if "__nd__" in x:
            return np.array([dec(v) for v in x["data"]],
                            dtype=x["__nd__"]).reshape(x["shape"])
        if "__tuple__" in x:
            return tuple(dec(v) for v in x["__tuple__"])
        if "__map__" in x:
            return {dec(k): dec(v) for k, v in x["__map__"]}
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def dumps(x):
    return json.dumps(enc(x), sort_keys=True)


def loads(s):
    return dec(json.loads(s))
