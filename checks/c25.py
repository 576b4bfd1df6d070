"""C25: index, slice, IP-address and array-shape strategies yield valid values."""

from symx.api import Ob, need, quick_plan

from checks import draw

BOUNDS = (
    "addresses: no network (all reserved ranges), and 14 networks of both versions with prefixes from /0 to /32 and /128; slices: every size up to 2**40, all steps; "
    "shapes: up to 3 (thorough: 4) dimensions, every side up to 2**40; axes for up to 3 (thorough: 4) dimensions; up to 3 shapes broadcast against base shapes of up to 2 "
    "(thorough: 3) dimensions with arbitrary sides, 8 gufunc signatures; indices of arrays with up to 2 (thorough: 3) dimensions with arbitrary sides"
)
OUTSIDE = "more dimensions, arrays themselves (values and dtypes)"
ASSUMPTIONS = ["the primitive draws return any value within their requested constraints (decided by C06)"]
OPTS = {"ints": "int", "unhashable": True, "symset": True, "symdict": True}
AOPTS = {"unhashable": True, "symset": True, "symdict": True}
BIG = 2**40

NETS = [
    "0.0.0.0/0", "10.0.0.0/8", "127.0.0.0/24", "192.168.1.128/25", "203.0.113.4/30", "198.51.100.6/31", "1.2.3.4/32", "255.255.255.254/31",
    "::/0", "fe80::/10", "2001:db8::/32", "2001:db8::fffe/127", "::1/128", "ffff::/16",
]  # fmt: skip


def addresses(env, nets, v=None, form="network"):
    ip = __import__("ipaddress")
    st = need("hypothesis.strategies")
    kw = {}
    if nets:
        n = ip.ip_network(env.options("network", nets))
        kw["network"] = str(n) if form == "text" else n
    if v is not None:
        kw["v"] = v
    s = draw.build(env, lambda: st.ip_addresses(**kw))
    if nets and v not in (None, n.version):
        env.check(s is None, "a network of the other version was accepted")
        return
    env.check(s is not None, "acceptable arguments were rejected")
    o = draw.draw(env, s)
    env.check(o.kind == "value", "drawing an address was rejected")
    a = o.value
    env.check(type(a) in (ip.IPv4Address, ip.IPv6Address), "the value is not an address")
    env.check(v is None or a.version == v, "the address is of the wrong version")
    x = int(a)
    env.check(env.And(0 <= x, x < (2**32 if a.version == 4 else 2**128)), "the address does not exist")
    if nets:
        env.check(a.version == n.version, "the address is of another version than the network")
        size = 1 << (n.max_prefixlen - n.prefixlen)
        lo = int(n.network_address)
        env.check(env.And(lo <= x, x < lo + size), "the address is not in the network")
        # and every address of the network can be drawn
        y = env.int("y", 0, 2**128)
        env.assume(env.And(lo <= y, y < lo + size))
        if len(o.data.provider.log) == 1 and env.symbolic:
            env.check(env.And(o.data.provider.bounds[0] <= y, y <= o.data.provider.bounds[1]), "an address of the network cannot be drawn")
    env.reach("address")


def slices(env, nonempty):
    st = need("hypothesis.strategies")
    size = env.int("size", 1, BIG) if nonempty else 0
    s = draw.build(env, lambda: st.slices(size))
    env.check(s is not None, "the size was rejected")
    o = draw.draw(env, s)
    env.check(o.kind == "value" or not nonempty, "drawing a slice was rejected")
    if o.kind != "value":
        return
    v = o.value
    env.check(type(v) is slice, "the value is not a slice")
    a, b, c = v.start, v.stop, v.step
    env.reach("slice")
    if c is not None:
        env.check(env.Not(c == 0), "the step is zero")
    if not nonempty:
        env.check(a is None and b is None, "a slice of nothing has ends")
        return
    if a is not None:
        env.check(env.And(-size <= a, a <= size - 1), "the start is out of range")
    if b is not None:
        env.check(env.And(-size <= b, b <= size), "the stop is out of range")
    # what it selects (as in the definition of slice.indices)
    step = 1 if c is None else c
    up = step > 0
    pos = lambda x: env.ite(x < 0, x + size, x)  # noqa: E731
    start = env.ite(up, 0, size - 1) if a is None else pos(a)
    stop = env.ite(up, size, -1) if b is None else pos(b)
    empty = env.Not(env.ite(up, start < stop, start > stop))
    same = (0 if a is None else pos(a)) == (0 if b is None else pos(b))
    env.check(env.Implies(empty, same), "a slice whose ends differ selects nothing")


def limits(env, name, n):
    if type(n) is tuple:
        return n
    lo = env.choose("min_" + name, n)
    hi = env.choose("max_" + name, n + 1) - 1
    return lo, None if hi < 0 else hi


def side_limits(env):
    lo = env.int("min_side", -2, BIG)
    hi = env.int("max_side", -2, BIG) if env.bool("has max_side") else None
    return lo, hi


def side_kw(lo, hi):
    return {"min_side": lo} if hi is None else {"min_side": lo, "max_side": hi}


def dim_kw(lo, hi):
    return {"min_dims": lo} if hi is None else {"min_dims": lo, "max_dims": hi}


def check_shape(env, v, dlo, dhi, slo, shi):
    env.check(type(v) is tuple, "the shape is not a tuple")
    env.check(dlo <= len(v), "the shape has too few dimensions")
    if dhi is not None:
        env.check(len(v) <= dhi, "the shape has too many dimensions")
    for s in v:
        env.check(type(s) is int, "a side is not an integer")
        env.check(slo <= s, "a side is too small")
        if shi is not None:
            env.check(s <= shi, "a side is too large")


def array_shapes(env, n=3):
    f = need("hypothesis.extra._array_helpers", "array_shapes")
    dlo, dhi = limits(env, "dims", n)
    slo, shi = side_limits(env)
    s = draw.build(env, lambda: f(**dim_kw(dlo, dhi), **side_kw(slo, shi)))
    bad = env.Or(dhi is not None and dhi < dlo, slo < 0, shi is not None and shi < slo)
    env.check(env.Iff(s is None, bad), "limits were wrongly accepted or rejected")
    if s is None:
        return
    o = draw.draw(env, s, max_choices=24)
    env.check(o.kind == "value", "drawing a shape was rejected")
    check_shape(env, o.value, dlo, dlo + 2 if dhi is None else dhi, slo, slo + 5 if shi is None else shi)
    env.reach("shape")


def tuple_axes(env, ndim, cap):
    f = need("hypothesis.extra._array_helpers", "valid_tuple_axes")
    lo = env.choose("min_size", ndim + 2)
    hi = env.choose("max_size", ndim + 3) - 1
    kw = {"min_size": lo}
    if hi >= 0:
        kw["max_size"] = hi
    s = draw.build(env, lambda: f(ndim, **kw))
    bad = (hi >= 0 and (hi < lo or hi > ndim)) or lo > ndim
    env.check((s is None) == bad, "sizes were wrongly accepted or rejected")
    if s is None:
        return
    o = draw.draw(env, s, max_choices=cap)
    if o.kind != "value":
        env.check(o.kind == "overrun" or ndim > 0, "drawing axes was rejected")
        return
    v = o.value
    env.check(type(v) is tuple, "the axes are not a tuple")
    env.check(lo <= len(v) and len(v) <= (ndim if hi < 0 else hi), "the number of axes is out of bounds")
    for a in v:
        env.check(env.And(-ndim <= a, a < ndim), "an axis does not exist")
    for i in range(len(v)):
        for j in range(i):
            env.check(env.Not(env.Or(v[i] == v[j], v[i] == v[j] + ndim, v[j] == v[i] + ndim)), "an axis is repeated")
    env.reach("axes")


def broadcast_check(env, shapes, result):
    """numpy's rule: at each position from the right, all sides other than 1 are equal, and the result has that side or 1"""
    n = max(len(s) for s in shapes)
    env.check(len(result) == n, "the result shape has the wrong number of dimensions")
    for k in range(1, n + 1):
        sides = [s[-k] for s in shapes if len(s) >= k]
        r = result[-k]
        env.check(env.And(*[env.Or(s == 1, s == r) for s in sides]), "the shapes do not broadcast to the result shape")
        env.check(env.Or(*[s == r for s in sides]), "the result shape has a side that comes from nowhere")


def mutually(env, num, base, dims=3, one_bound=False):
    f = need("hypothesis.extra._array_helpers", "mutually_broadcastable_shapes")
    b = tuple(env.int("base", 0, BIG) for _ in range(base))
    dlo, dhi = limits(env, "dims", dims)
    slo, shi = side_limits(env)
    s = draw.build(env, lambda: f(num_shapes=num, base_shape=b, **dim_kw(dlo, dhi), **side_kw(slo, shi)))
    if s is None:
        ok = env.And(slo >= 0, shi is None or slo <= shi, dhi is None or dlo <= dhi)
        # any base shape of the required dimensions is compatible with itself, if it is within the limits
        env.check(env.Not(env.And(ok, *[env.And(slo <= x, shi is None or x <= shi) for x in b])), "satisfiable arguments were rejected")
        return
    env.check(env.And(slo >= 0, shi is None or slo <= shi, dhi is None or dlo <= dhi), "limits that admit nothing were accepted")
    o = draw.draw(env, s, max_choices=40)
    env.check(o.kind == "value", "drawing shapes was rejected")
    v = o.value
    env.check(len(v.input_shapes) == num, "the number of shapes is wrong")
    hi = max(len(b), dlo) + 2 if dhi is None else dhi
    top = shi
    if top is None:
        top = slo + 2
        for x in b:
            top = env.ite(x + 2 > top, x + 2, top)
    for x in v.input_shapes:
        check_shape(env, x, dlo, hi, slo, top)
    broadcast_check(env, [b, *v.input_shapes], v.result_shape)
    env.reach("broadcast")


def broadcastable(env, base, dims=3):
    f = need("hypothesis.extra._array_helpers", "broadcastable_shapes")
    b = tuple(env.int("base", 0, BIG) for _ in range(base))
    dlo, dhi = limits(env, "dims", dims)
    slo, shi = side_limits(env)
    s = draw.build(env, lambda: f(b, **dim_kw(dlo, dhi), **side_kw(slo, shi)))
    if s is None:
        ok = env.And(slo >= 0, shi is None or slo <= shi, dhi is None or dlo <= dhi)
        env.check(env.Not(env.And(ok, *[env.And(slo <= x, shi is None or x <= shi) for x in b])), "satisfiable arguments were rejected")
        return
    o = draw.draw(env, s, max_choices=40)
    env.check(o.kind == "value", "drawing a shape was rejected")
    v = o.value
    hi = max(len(b), dlo) + 2 if dhi is None else dhi
    top = shi
    if top is None:
        top = slo + 2
        for x in b:
            top = env.ite(x + 2 > top, x + 2, top)
    check_shape(env, v, dlo, hi, slo, top)
    for k in range(1, min(len(b), len(v)) + 1):
        env.check(env.Or(b[-k] == 1, v[-k] == 1, b[-k] == v[-k]), "the shape does not broadcast with the given one")
    env.reach("broadcast")


SIGNATURES = [
    ("(),()->()", [[], []], []),
    ("(i)->()", [["i"]], []),
    ("(i),(i)->()", [["i"], ["i"]], []),
    ("(m,n),(n,p)->(m,p)", [["m", "n"], ["n", "p"]], ["m", "p"]),
    ("(n),(n,p)->(p)", [["n"], ["n", "p"]], ["p"]),
    ("(3),(3)->(3)", [[3], [3]], [3]),
    ("(m?,n),(n,p?)->(m?,p?)", [["m?", "n"], ["n", "p?"]], ["m?", "p?"]),
    ("(i?)->(i?)", [["i?"]], ["i?"]),
]


def core_matches(env, shape, core, dims, present):
    """the trailing dimensions are the core dimensions: number of them, or None"""
    want = [d for d in core if not (type(d) is str and d.endswith("?") and not present[d[:-1]])]
    if len(shape) < len(want):
        return None
    cs = []
    for s, d in zip(shape[len(shape) - len(want) :], want):
        d = d.rstrip("?") if type(d) is str else d
        cs.append(s == (dims[d] if type(d) is str else d))
    return len(want), env.And(*cs)


def signature(env, which):
    """gufunc signatures: the core dimensions agree and the rest broadcasts"""
    f = need("hypothesis.extra._array_helpers", "mutually_broadcastable_shapes")
    sig, ins, out = SIGNATURES[which]
    slo, shi = env.int("min_side", 0, BIG), env.int("max_side", 0, BIG)
    env.assume(slo <= shi)
    dlo = env.choose("min_dims", 2)
    dhi = dlo + env.choose("more", 2)
    s = draw.build(env, lambda: f(signature=sig, min_dims=dlo, max_dims=dhi, min_side=slo, max_side=shi))
    env.check(s is not None, "a valid signature was rejected")
    o = draw.draw(env, s, max_choices=40)
    env.check(o.kind == "value", "drawing shapes was rejected")
    v = o.value
    env.check(len(v.input_shapes) == len(ins), "the number of shapes is wrong")
    names = sorted({d.rstrip("?") for c in ins for d in c if type(d) is str})
    optional = sorted({d[:-1] for c in ins for d in c if type(d) is str and d.endswith("?")})
    ways = []
    shapes = [*v.input_shapes, v.result_shape]
    # some assignment of sizes (and absences) to the core dimensions explains all shapes
    for mask in range(1 << len(optional)):
        present = {d: bool(mask >> i & 1) for i, d in enumerate(optional)}
        dims = {}
        for c, x in zip(ins, v.input_shapes):
            want = [d for d in c if not (type(d) is str and d.endswith("?") and not present[d[:-1]])]
            if len(x) >= len(want):
                for y, d in zip(x[len(x) - len(want) :], want):
                    if type(d) is str:
                        dims.setdefault(d.rstrip("?"), y)
        if any(n not in dims for n in names if n not in optional or present[n]):
            continue
        rs = [core_matches(env, x, c, dims, present) for x, c in zip(shapes, [*ins, out])]
        if any(r is None for r in rs):
            continue
        loops = [x[: len(x) - r[0]] for x, r in zip(shapes, rs)]
        *lin, lout = loops
        n = max(len(x) for x in lin)
        if len(lout) != n or any(len(x) > dhi for x in lin):
            continue
        conds = [r[1] for r in rs]
        for k in range(1, n + 1):
            sides = [x[-k] for x in lin if len(x) >= k]
            conds += [env.Or(y == 1, y == lout[-k]) for y in sides] + [env.Or(*[y == lout[-k] for y in sides])]
        for x in lin:
            conds += [env.And(slo <= y, y <= shi) for y in x]
        conds += [env.And(slo <= y, y <= shi) for y in dims.values()]
        ways.append(env.And(*conds))
    env.check(env.Or(*ways), "the shapes do not fit the signature")
    env.reach("signature")


def indices(env, n, lo, hi, ell, new):
    f = need("hypothesis.extra.numpy", "basic_indices")
    shape = tuple(env.int("side", 0, BIG) for _ in range(n))
    s = draw.build(env, lambda: f(shape, min_dims=lo, max_dims=hi, allow_ellipsis=ell, allow_newaxis=new))
    env.check(s is not None, "valid arguments were rejected")
    st = need("hypothesis.strategies")
    real = st.slices
    if n > 1:
        # each slice is decided on its own above: here only whether it is a whole-dimension one matters
        st.slices = lambda size: st.sampled_from([slice(None), slice(0, None, 1)])
    try:
        o = draw.draw(env, s, max_choices=40)
    finally:
        st.slices = real
    if o.kind != "value":
        env.check(o.kind == "invalid" or o.kind == "overrun", "no index")
        return
    v = o.value
    t = v if type(v) is tuple else (v,)
    nell = sum(x is Ellipsis for x in t)
    nnew = sum(x is None for x in t)
    env.check(nell == 0 or ell and nell == 1, "an ellipsis where none is allowed")
    env.check(nnew == 0 or new, "a new axis where none is allowed")
    env.check(len(t) - nell - nnew <= n, "more indices than dimensions")
    dims = 0
    rest = n - (len(t) - nell - nnew)
    axis = 0
    for x in t:
        if x is None:
            dims += 1
        elif x is Ellipsis:
            dims += rest
            axis += rest
        elif type(x) is slice:
            dims += 1
            axis += 1
            env.check(x.step is None or env.Not(x.step == 0), "the step is zero")
        else:
            env.check(type(x) is int, "an index is neither an integer, a slice, None nor an ellipsis")
            env.check(env.And(-shape[axis] <= x, x < shape[axis]), "an index is out of range")
            axis += 1
    if not nell:
        dims += rest
    env.check(lo <= dims and dims <= hi, "the result has the wrong number of dimensions")
    env.reach("index")


BASES = [(n, d) for n in range(3) for d in ((0, 1), (1, 2), (0, 2), (2, 2), (1, 1), (0, None), (1, None))]
INDEX = [(n, lo, hi, e, w) for n, lo, hi in ((0, 0, 1), (0, 1, 2), (1, 0, 1), (1, 1, 1), (1, 0, 2), (1, 2, 2), (2, 0, 2), (2, 1, 1), (2, 2, 3), (2, 2, 2), (3, 0, 3), (3, 1, 2), (3, 3, 3)) for e in (0, 1) for w in (0, 1) if w or hi <= n]

OBLIGATIONS = [
    Ob("addresses", addresses, 40, nets=None, opts=AOPTS),
    Ob("addresses v4", addresses, 40, nets=None, v=4, opts=AOPTS),
    Ob("addresses v6", addresses, 40, nets=None, v=6, opts=AOPTS),
    Ob("addresses in networks", addresses, 40, nets=NETS, opts=AOPTS),
    Ob("addresses in networks, by name", addresses, 40, nets=NETS, form="text", opts=AOPTS),
    Ob("addresses in networks v4", addresses, 40, nets=NETS, v=4, opts=AOPTS),
    Ob("addresses in networks v6", addresses, 40, nets=NETS, v=6, opts=AOPTS),
    Ob("slices", slices, 40, nonempty=True, opts=OPTS),
    Ob("slices of nothing", slices, 20, nonempty=False, opts=OPTS),
    Ob("array_shapes", array_shapes, 40, opts=OPTS),
    Ob("array_shapes 4", array_shapes, 40, tier="thorough", n=4, opts=OPTS),
    *[Ob(f"tuple axes {n}", tuple_axes, 60, ndim=n, cap=c, opts=OPTS) for n, c in ((1, 14), (2, 8), (3, 7))],
    *[Ob(f"tuple axes {n} longer", tuple_axes, 60, tier="thorough", ndim=n, cap=c, opts=OPTS) for n, c in ((2, 14), (3, 12), (4, 12))],
    *[Ob(f"broadcastable {n} dims {d}", broadcastable, 40, base=n, dims=d, opts=OPTS) for n, d in BASES if d[1] is not None or n < 2],
    *[Ob(f"broadcastable 3 dims {d}", broadcastable, 40, tier="thorough", base=3, dims=d, opts=OPTS) for d in ((0, 3), (1, 4), (3, 3), (2, None))],
    *[Ob(f"mutually {k} base {n} dims {d}", mutually, 40, num=k, base=n, dims=d, opts=OPTS) for n, d in BASES for k in (1, 2) if k == 1 or d in ((0, 1), (1, 2), (0, 2), (2, 2), (1, 1)) and n + k < 4],
    *[Ob(f"mutually {k} base {n} dims {d} (longer)", mutually, 60, tier="thorough", num=k, base=n, dims=d, opts=OPTS) for k, n, d in ((1, 2, (0, None)), (2, 2, (0, 2)), (2, 2, (1, 2)), (3, 1, (0, 1)), (3, 1, (1, 2)), (2, 2, (0, None)), (2, 1, (1, 3)), (2, 3, (0, 3)), (3, 0, (0, 2)))],
    *[Ob(f"signature {SIGNATURES[i][0]}", signature, 40, which=i, opts=OPTS) for i in range(len(SIGNATURES))],
    *[Ob(f"indices {n} to {lo}-{hi}{' ellipsis' * e}{' newaxis' * w}", indices, 40, n=n, lo=lo, hi=hi, ell=bool(e), new=bool(w), opts=OPTS) for n, lo, hi, e, w in INDEX if n < 3 and (n, hi) != (1, 2)],
    *[Ob(f"indices {n} to {lo}-{hi}{' ellipsis' * e}{' newaxis' * w} (longer)", indices, 60, tier="thorough", n=n, lo=lo, hi=hi, ell=bool(e), new=bool(w), opts=OPTS) for n, lo, hi, e, w in INDEX if n == 3 or (n, hi) == (1, 2)],
]

quick_plan(
    OBLIGATIONS,
    deep={
        "tuple axes 3",
        "mutually 1 base 2 dims (0, None)",
        "indices 2 to 2-3 ellipsis newaxis",
        "indices 1 to 0-1 ellipsis",
        "indices 1 to 1-1 ellipsis",
        "indices 1 to 1-1 ellipsis newaxis",
    },
)
