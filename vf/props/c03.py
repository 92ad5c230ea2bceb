"""C03: numbering of multi-indices."""

from hypothesis import strategies as st

from ..core import Prop, Recorder, Sub


@st.composite
def cases(draw):
    top = draw(st.sampled_from([3, 12, 200, 20000, 1000000]))
    m = draw(st.integers(0, top))
    j = draw(st.sampled_from(["first", "last", "any"]))
    y = 0 if j == "first" else m if j == "last" else draw(st.integers(0, m))
    return {"a": [m - y, y], "b": [draw(st.integers(0, 50)), draw(st.integers(0, 50))]}


def number(x, y):
    m = x + y
    return m * (m + 1) // 2 + y


def check(s, r: Recorder):
    import puncturedfem as pf
    from puncturedfem.locfun.poly.monomial import Monomial
    from puncturedfem.locfun.poly.multi_index import MultiIndex

    x, y = s["a"]
    k = number(x, y)
    a = MultiIndex([x, y])
    r.eq("components", (a.x, a.y, a.order), (x, y, x + y))
    r.eq("index", a.idx, k)
    b = MultiIndex()
    b.set_from_idx(k)
    r.eq("from the index", (b.x, b.y, b.order, b.idx), (x, y, x + y, k))
    r.true(a == b, "equal")
    c = MultiIndex()
    c.set_from_idx(k + 1)
    nxt = (x - 1, y + 1) if x > 0 else (x + y + 1, 0)
    r.eq("next index", (c.x, c.y, c.idx), nxt + (k + 1,))
    r.true(not a == c, "equal to the next one")
    m = Monomial()
    m.set_multidx_from_idx(k)
    r.eq("monomial", (m.alpha.x, m.alpha.y), (x, y))
    p = pf.Polynomial()
    p.add_monomial_with_idx(2.0, k)
    r.eq("polynomial", [(t.coef, t.alpha.x, t.alpha.y) for t in p.monos], [(2.0, x, y)])
    o = MultiIndex(list(s["b"]))
    t = a + o
    r.eq("sum", (t.x, t.y, t.idx), (x + o.x, y + o.y, number(x + o.x, y + o.y)))
    d = a.copy()
    r.true(d is not a, "a copy is an object of its own")
    r.eq("copy", (d.x, d.y, d.order, d.idx), (x, y, x + y, k))
    r.true(a == d and d == a, "equal to its copy")
    d.set(list(s["b"]))
    r.eq("the original of a modified copy", (a.x, a.y, a.order, a.idx), (x, y, x + y, k))
    r.eq("modified copy", (d.x, d.y, d.order, d.idx), (o.x, o.y, o.x + o.y, number(o.x, o.y)))
    r.eq("equality with another", a == o, (x, y) == (o.x, o.y))
    d.set_from_idx(k)
    r.eq("components set anew", (d.x, d.y, d.order, d.idx), (x, y, x + y, k))
    e = MultiIndex()
    r.eq("without arguments", (e.x, e.y, e.order, e.idx), (0, 0, 0, 0))
    given = [x, y]
    f = MultiIndex(given)
    given[0] += 1
    r.eq("after changing the list it was made from", (f.x, f.y, f.order, f.idx), (x, y, x + y, k))
    # monomials
    m = Monomial(a, 2.5)
    c = m.copy()
    r.eq("copy of a monomial", (c.alpha.x, c.alpha.y, c.coef), (x, y, 2.5))
    c.set_coef(-1.0)
    c.set_multidx(o)
    r.eq("monomial of which a copy was changed", (m.alpha.x, m.alpha.y, m.coef), (x, y, 2.5))
    z = Monomial()
    r.eq("monomial without arguments", (z.alpha.idx, z.coef), (0, 0.0))
    r.eq("order of monomials", (m > Monomial(o, 1.0), Monomial(o, 1.0) > m), (k > number(o.x, o.y), k < number(o.x, o.y)))
    r.label(f"order 1e{len(str(x + y)) - 1}")
    r.nt(x + y > 1)


@st.composite
def lists(draw):
    return {"idx": draw(st.lists(st.integers(0, 60), min_size=2, max_size=10))}


def check_list(s, r: Recorder):
    """A polynomial keeps one monomial per index, in increasing order."""
    import puncturedfem as pf

    idx = s["idx"]
    p = pf.Polynomial()
    p.add_monomials_with_idxs([1.0] * len(idx), list(idx))
    got = [(t.alpha.idx, t.coef) for t in p.monos]
    want = [(k, float(idx.count(k))) for k in sorted(set(idx))]
    r.eq("terms", got, want)
    r.nt(len(set(idx)) > 1)


@st.composite
def bad(draw):
    return {"k": draw(st.integers(1, 9)), "what": draw(st.sampled_from(["neg", "float", "long", "short", "tuple", "sum", "cmp"]))}


def check_bad(s, r: Recorder):
    from puncturedfem.locfun.poly.multi_index import MultiIndex
    from puncturedfem.locfun.poly.poly_exceptions import MultiIndexError

    k, what = s["k"], s["what"]
    r.label(what)
    r.nt()
    a = MultiIndex([k, 1])
    from puncturedfem.locfun.poly.monomial import Monomial

    mono = Monomial(MultiIndex([1, k]), 1.5)
    if what == "neg":
        r.raises("negative component", ValueError, MultiIndex, [k, -k])
        r.raises("negative component", ValueError, MultiIndex, [-k, k])
        r.raises("negative component", ValueError, a.set, [k, -k])
        r.raises("negative component", ValueError, a.set, [-k, k])
    elif what == "float":
        r.raises("fractional component", TypeError, MultiIndex, [k + 0.5, 1])
        r.raises("fractional component", TypeError, MultiIndex, [1, k + 0.5])
        r.raises("fractional component", TypeError, a.set, [k + 1, float(k)])
        r.raises("fractional component", TypeError, a.set, [k + 0.5, k])
    elif what == "long":
        r.raises("three components", MultiIndexError, MultiIndex, [k, k, k])
        r.raises("three components", MultiIndexError, a.set, [k, k, k])
    elif what == "short":
        r.raises("one component", MultiIndexError, MultiIndex, [k])
        r.raises("one component", MultiIndexError, a.set, [k])
        r.raises("no component", MultiIndexError, a.set, [])
    elif what == "tuple":
        r.raises("not a list", TypeError, MultiIndex, k)
        r.raises("not a list", TypeError, a.set, (k, k))
    elif what == "sum":
        r.raises("sum with a number", TypeError, lambda: a + k)
        r.raises("sum of a monomial with a number", TypeError, lambda: mono + k)
        r.raises("sum of different monomials", ValueError, lambda: mono + Monomial(MultiIndex([k, 2]), 1.0))
    elif what == "cmp":
        r.raises("comparison with a number", TypeError, lambda: a == k)
        r.raises("comparison of a monomial with a number", TypeError, lambda: mono == k)
        r.raises("comparison of a monomial with a multi-index", TypeError, lambda: mono == a)
        r.raises("order of a monomial and a number", TypeError, lambda: mono > k)
        r.raises("order of a monomial and a multi-index", TypeError, lambda: mono > a)
    r.eq("unchanged", (a.x, a.y, a.order, a.idx), (k, 1, k + 1, number(k, 1)))
    r.eq("unchanged monomial", (mono.alpha.x, mono.alpha.y, mono.coef), (1, k, 1.5))


PROP = Prop(
    "C03",
    [
        Sub("numbering", cases(), check, quick=1500, thorough=30000, shards=2,
            rule="multi-indices of order up to 10^6 (first, last and inner ones of every order); non-trivial: order at least 2"),
        Sub("lists", lists(), check_list, quick=400, thorough=5000, shards=1,
            rule="polynomials from lists of indices with repetitions; non-trivial: at least 2 different indices"),
        Sub("rejected", bad(), check_bad, quick=100, thorough=500, shards=1,
            rule="invalid multi-indices; non-trivial: always"),
    ],
)
