"""Structural delta debugging of JSON-like cases."""
import copy, json, time


def _lists(case):
    """Paths of lists whose elements may be dropped, biggest structures first."""
    out = []

    def walk(x, path):
        if isinstance(x, list):
            out.append(path)
            for i, y in enumerate(x):
                walk(y, path + [i])
        elif isinstance(x, dict):
            for k, y in x.items():
                if not str(k).startswith("_"):
                    walk(y, path + [k])
    walk(case, [])
    return out


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def shrink(case, fails, valid=lambda c: True, simplify=(), seconds=25, droppable=None):
    """fails(case) -> bool. Keeps the case failing and valid while it gets smaller."""
    end = time.time() + seconds
    best = copy.deepcopy(case)

    def attempt(c):
        try:
            return valid(c) and fails(c)
        except Exception:
            return False
    progress = True
    while progress and time.time() < end:
        progress = False
        for path in sorted(_lists(best), key=len):
            if droppable and not droppable(path):
                continue
            try:
                n = len(_get(best, path))
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, n // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while True:
                    try:
                        l = _get(best, path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if i >= len(l) or time.time() >= end:
                        break
                    c = copy.deepcopy(best)
                    del _get(c, path)[i:i + size]
                    if attempt(c):
                        best, progress = c, True
                    else:
                        i += size
                size //= 2
        for s in simplify:
            for c in s(copy.deepcopy(best)):
                if time.time() >= end:
                    break
                if json.dumps(c, sort_keys=True) != json.dumps(best, sort_keys=True) and attempt(c):
                    best, progress = copy.deepcopy(c), True
                    break
    return best
