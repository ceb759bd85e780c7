"""Memory strides of freshly created tensors and plain views of them (shape functions only)."""
from .poly import P
from .tensor import T


def rowmajor(shape):
    out, k = [], P(1)
    for s in reversed(shape):
        out.append(k)
        k = k * s
    return out[::-1]


def of(t):
    """List of stride polynomials, ("like", tensor) or None."""
    s = getattr(t, "strides", None)
    if s == "dense":
        return rowmajor(t.shape())
    return s


def mark(r, how):
    if isinstance(r, T):
        r.strides = how
    return r


def index(m, t, idx, r):
    st = of(t)
    if not isinstance(st, list) or not isinstance(r, T) or r is t:
        return r
    try:
        ix = m.split_index(t, idx)
        out, ax = [], 0
        for x in ix:
            if x is None:
                out.append(P(1))
            elif isinstance(x, slice):
                if x.step not in (None, 1):
                    return r
                out.append(st[ax])
                ax += 1
            elif isinstance(x, (T, list)) or isinstance(x, bool):
                return r
            else:
                ax += 1
        if len(out) == r.ndim:
            r.strides = out
    except Exception:
        pass
    return r


def method(m, t, name, args, kwargs, r):
    if not isinstance(r, T) or r is t and name != "contiguous":
        return r
    if name == "contiguous" and not args and not kwargs:
        return mark(r, "dense") if r is not t or getattr(t, "strides", None) == "dense" else r
    st = of(t)
    if not isinstance(st, list):
        return r
    try:
        if name in ("transpose", "swapaxes", "swapdims") and len(args) == 2:
            a, b = (int(x) % t.ndim for x in args)
            st = list(st)
            st[a], st[b] = st[b], st[a]
            r.strides = st
        elif name == "permute":
            o = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            r.strides = [st[int(k) % t.ndim] for k in o]
        elif name == "unsqueeze" and len(args) == 1:
            k = int(args[0]) % (t.ndim + 1)
            r.strides = st[:k] + [P(1)] + st[k:]
        elif name == "detach":
            r.strides = st
        elif name == "narrow":
            r.strides = list(st)
        elif name == "select" and len(args) == 2:
            k = int(args[0]) % t.ndim
            r.strides = st[:k] + st[k + 1:]
    except Exception:
        pass
    return r
