"""C01: ring arithmetic of polynomials."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import pmodel as pm
from ..core import Prop, Recorder, Sub
from ..gens import poly_terms, q, tuples

SCALARS = q(-4, 4, 8) | st.integers(-5, 5)


@st.composite
def op(draw):
    name = draw(
        st.sampled_from(
            ["add", "sub", "mul", "add", "mul", "iadd", "iadd", "iself", "isub", "imul",
             "radd", "rsub", "rmul", "sadd", "ssub", "smul", "sdiv", "siadd", "neg", "pow", "powop",
             "compose", "copy", "copy_add", "new", "mono", "monos", "set", "aug_smul"]
        )
    )
    o = [name, draw(st.integers(0, 5)), draw(st.integers(0, 5)), draw(st.integers(0, 5))]
    if name in ("radd", "rsub", "rmul", "sadd", "ssub", "smul", "siadd", "aug_smul"):
        o.append(draw(SCALARS))
    elif name == "sdiv":
        o.append(draw(SCALARS.filter(lambda c: c != 0)))
    elif name in ("pow", "powop"):
        o.append(draw(st.integers(0, 3)))
    elif name in ("new", "set"):
        o.append(draw(poly_terms(deg=4, terms=5)))
    elif name in ("mono", "copy_add"):
        o += [draw(q(-4, 4, 8)), draw(st.integers(0, 20))]
    elif name == "monos":
        k = draw(st.integers(0, 4))
        o += [[draw(q(-4, 4, 8)) for _ in range(k)], [draw(st.integers(0, 14)) for _ in range(k)]]
    return o


@st.composite
def programs(draw):
    return {
        "start": [draw(poly_terms(deg=4, terms=4)) for _ in range(3)],
        "ops": draw(st.lists(op(), min_size=1, max_size=14)),
        "pt": [draw(q(-2, 2, 16)), draw(q(-2, 2, 16))],
        "shape": draw(st.sampled_from([[], [1], [5], [2, 3]])),
    }


def index(k):
    """Multi-index number k, counted by order, then by the exponent of y."""
    m = 0
    while (m + 1) * (m + 2) // 2 <= k:
        m += 1
    j = k - m * (m + 1) // 2
    return m - j, j


def check(s, r: Recorder):
    import puncturedfem as pf

    regs, models, amps = [], [], []

    def push(p, m, amp=0.0):
        # amp: size of the coefficients that were combined
        regs.append(p)
        models.append(m)
        amps.append(max(amp, pm.size(m), 1.0))

    for t in s["start"]:
        push(pf.Polynomial(tuples(t)), pm.make(t), sum(abs(c) for c, _, _ in t))
    used = set()
    for o in s["ops"]:
        name = o[0]
        i, j, k = (x % len(regs) for x in o[1:4])
        p, u = regs[i], regs[j]
        mp, mu = models[i], models[j]
        ap, au = amps[i], amps[j]
        c = o[4] if len(o) > 4 else None
        # keep the numbers and the degrees small
        if name in ("mul", "imul") and pm.degree(mp) + pm.degree(mu) > 14:
            continue
        if name in ("pow", "powop") and pm.degree(mp) * c > 14:
            continue
        if name == "compose" and pm.degree(mp) * max(pm.degree(mu), pm.degree(models[k])) > 12:
            continue
        if max(ap, au) > 1e5 and name in ("mul", "imul", "pow", "powop", "compose"):
            continue
        used.add(name)
        if name == "add":
            push(p + u, pm.add(mp, mu), ap + au)
        elif name == "sub":
            push(p - u, pm.sub(mp, mu), ap + au)
        elif name == "mul":
            push(p * u, pm.mul(mp, mu), ap * au * 15)
        elif name == "iadd":
            if u is p:
                name = "iself"
            else:
                p += u
                models[i], amps[i] = pm.add(mp, mu), ap + au
        if name == "iself":
            p += p
            models[i], amps[i] = pm.scale(mp, 2), 2 * ap
        elif name == "isub":
            w = p.copy()
            w -= u
            push(w, pm.sub(mp, mu), ap + au)
        elif name == "imul":
            w = p.copy()
            w *= u
            push(w, pm.mul(mp, mu), ap * au * 15)
        elif name == "aug_smul":
            w = p.copy()
            w *= c
            push(w, pm.scale(mp, c), ap * abs(c))
        elif name == "radd":
            push(c + p, pm.add(mp, pm.const(c)), ap + abs(c))
        elif name == "rsub":
            push(c - p, pm.sub(pm.const(c), mp), ap + abs(c))
        elif name == "rmul":
            push(c * p, pm.scale(mp, c), ap * abs(c))
        elif name == "sadd":
            push(p + c, pm.add(mp, pm.const(c)), ap + abs(c))
        elif name == "ssub":
            push(p - c, pm.sub(mp, pm.const(c)), ap + abs(c))
        elif name == "smul":
            push(p * c, pm.scale(mp, c), ap * abs(c))
        elif name == "sdiv":
            push(p / c, pm.scale(mp, 1 / Fraction(c)), ap / abs(c))
        elif name == "siadd":
            p += c
            models[i], amps[i] = pm.add(mp, pm.const(c)), ap + abs(c)
        elif name == "neg":
            push(-p, pm.scale(mp, -1), ap)
        elif name == "pow":
            push(p.pow(c), pm.power(mp, c), (ap * 15) ** c)
        elif name == "powop":
            push(p**c, pm.power(mp, c), (ap * 15) ** c)
        elif name == "compose":
            d = max(pm.degree(mp), 1)
            push(p.compose(u, regs[k]), pm.compose(mp, mu, models[k]), ap * (15 * max(au, amps[k])) ** d)
        elif name == "copy":
            push(p.copy(), dict(mp), ap)
        elif name == "copy_add":
            w = p.copy()
            w.add_monomial_with_idx(c, o[5])
            x, y = index(o[5])
            push(w, pm.add(mp, pm.make([(c, x, y)])), ap + abs(c))
        elif name == "mono":
            x, y = index(o[5])
            p.add_monomial_with_idx(c, o[5])
            models[i], amps[i] = pm.add(mp, pm.make([(c, x, y)])), ap + abs(c)
        elif name == "monos":
            p.add_monomials_with_idxs(list(c), list(o[5]))
            t = [(a,) + index(b) for a, b in zip(c, o[5])]
            models[i], amps[i] = pm.add(mp, pm.make(t)), ap + sum(abs(a) for a in c)
        elif name == "new":
            push(pf.Polynomial(tuples(c)), pm.make(c), sum(abs(a) for a, _, _ in c))
        elif name == "set":
            p.set(tuples(c))
            models[i], amps[i] = pm.make(c), max(1.0, sum(abs(a) for a, _, _ in c))
        # every polynomial, including those not involved
        for a, (w, m) in enumerate(zip(regs, models)):
            pm.compare(r, f"coefficients of {a} after {name}", w, m, amps[a])
        if len(regs) > 8:
            regs, models, amps = regs[-8:], models[-8:], amps[-8:]
    r.label(*sorted(used))
    # evaluation, equality and being zero
    rng = np.random.RandomState(7)
    x = s["pt"][0] + rng.uniform(-1, 1, size=s["shape"])
    y = s["pt"][1] + rng.uniform(-1, 1, size=s["shape"])
    if not s["shape"]:
        x, y = float(x), float(y)
    r.label("shape " + str(len(s["shape"])))
    for a, (w, m) in enumerate(zip(regs, models)):
        mag = sum(abs(float(c)) * np.max(np.abs(x)) ** i * np.max(np.abs(y)) ** j for (i, j), c in m.items())
        # round-off of the coefficients, amplified by the powers
        mag += amps[a] * max(1.0, np.max(np.abs(x)), np.max(np.abs(y))) ** pm.degree(m)
        r.close("value", w(x, y), pm.eval_float(m, x, y), 1e-11, max(1.0, mag))
        r.eq("shape of the value", np.shape(w(x, y)), np.shape(x))
        if s["shape"]:
            # one of the coordinates is the same for all points
            x0, y0 = float(x.ravel()[0]), float(y.ravel()[0])
            for xx, yy in ((x0, y), (x, y0)):
                val = w(xx, yy)
                r.eq("shape of the value, one coordinate being a number", np.shape(val), np.shape(x))
                r.close("value, one coordinate being a number", val, pm.eval_float(m, xx + 0 * x, yy + 0 * y), 1e-11, max(1.0, mag))
        xi, yi = np.round(x).astype(int), np.round(y).astype(int)
        big = max(1.0, np.max(np.abs(xi)), np.max(np.abs(yi))) ** pm.degree(m)
        r.close("value at integers", w(xi, yi), pm.eval_float(m, 1.0 * xi, 1.0 * yi), 1e-11, max(1.0, amps[a] * big * 40))
        if amps[a] < 100:
            r.eq("is_zero", bool(w.copy().is_zero()), len(m) == 0)
            r.true(w == w.copy(), "equal to its copy")
            diff = w + pf.Polynomial([(0.5, 1, 1)])
            r.true(not w == diff, "equal to a different polynomial")
            for b in range(a):
                if amps[b] < 100:
                    far = pm.size(pm.sub(m, models[b]))
                    if far == 0 or far > 1e-6:
                        r.eq("==", bool(w == regs[b]), far == 0)
        pm.compare(r, "coefficients after evaluating", w, m, amps[a])
    r.nt(len(used) > 2 and any(len(m) > 1 for m in models))


@st.composite
def powers(draw):
    return {
        "base": draw(poly_terms(deg=1, terms=2, lo=1, big=2.0)),
        "other": draw(poly_terms(deg=1, terms=2, big=2.0)),
        "k": draw(st.integers(0, 12)),
        "l": draw(st.integers(0, 10)),
        "terms": [
            [draw(q(-4, 4, 8)), i, j]
            for i, j in draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)).filter(lambda a: sum(a) <= 11), min_size=1, max_size=3))
        ],
    }


def check_powers(s, r: Recorder):
    import puncturedfem as pf

    p, o, t = (pf.Polynomial(tuples(s[k])) for k in ("base", "other", "terms"))
    mp, mo, mt = (pm.make(s[k]) for k in ("base", "other", "terms"))

    def norm(terms):
        return max(1.0, sum(abs(c) for c, _, _ in terms))

    k, n = s["k"], norm(s["base"])
    r.label(f"exponent {k}")
    pm.compare(r, "power", p.pow(k), pm.power(mp, k), 20 * n**k)
    pm.compare(r, "power operator", p**k, pm.power(mp, k), 20 * n**k)
    # sums of exponents
    l = s["l"]
    if k + l <= 14:
        pm.compare(r, "product of powers", p.pow(k) * p.pow(l), pm.power(mp, k + l), 40 * n ** (k + l))
    size = 20 * sum(abs(c) * n**i * norm(s["other"]) ** j for c, i, j in s["terms"])
    pm.compare(r, "composition", t.compose(p, o), pm.compose(mt, mp, mo), max(1.0, size))
    for w, m, key in ((p, mp, "base"), (o, mo, "other"), (t, mt, "terms")):
        pm.compare(r, "operand", w, m, norm(s[key]))
    r.nt(k > 2 and len(mp) > 0)


@st.composite
def units(draw):
    return {
        "p": draw(poly_terms(deg=4, terms=4, lo=1)),
        "o": draw(poly_terms(deg=3, terms=3, lo=1)),
        "length": [draw(st.integers(1, 9)), draw(st.integers(-5, 5))],
        "amp": [draw(st.integers(1, 9)), draw(st.integers(-40, 40))],
        "c": draw(q(-4, 4, 8)) or 1.0,
        "pt": [draw(q(-2, 2, 16)), draw(q(-2, 2, 16))],
    }


def check_units(s, r: Recorder):
    """The same polynomials in other units of length and of the values."""
    import puncturedfem as pf

    u = float(f"{s['length'][0]}e{s['length'][1]}")
    a = float(f"{s['amp'][0]}e{s['amp'][1]}")
    mod = {}
    for k in ("p", "o"):
        mod[k] = {key: float(c) for key, c in pm.make(s[k]).items() if c}
    r.label(f"unit of length 1e{s['length'][1]}")
    # x = u X, values a P: the coefficients a / u^(i + j) are all meaningful
    P = pf.Polynomial([(a * c * u ** -(i + j), i, j) for (i, j), c in mod["p"].items()])
    O = pf.Polynomial([(a * c * u ** -(i + j), i, j) for (i, j), c in mod["o"].items()])
    mp, mo = mod["p"], mod["o"]

    def same(name, pol, model, amps, factor):
        """Compare in the units of the models; amps: sums of sizes of the terms."""
        got = {}
        for m in pol.monos:
            key = (m.alpha.x, m.alpha.y)
            got[key] = got.get(key, 0.0) + m.coef / factor * u ** sum(key)
        big = max(list(amps.values()) or [0.0]) or 1.0
        for key in set(got) | set(model):
            r.close(name, got.get(key, 0.0), float(model.get(key, 0.0)), 1e-10, big)

    ab = {k: {key: abs(c) for key, c in mod[k].items()} for k in mod}
    x = s["c"]
    same("polynomial", P, mp, ab["p"], a)
    same("sum", P + O, pm.add(mp, mo), pm.add(ab["p"], ab["o"]), a)
    same("difference", P - O, pm.sub(mp, mo), pm.add(ab["p"], ab["o"]), a)
    same("product", P * O, pm.mul(mp, mo), pm.mul(ab["p"], ab["o"]), a * a)
    same("square", P**2, pm.mul(mp, mp), pm.mul(ab["p"], ab["p"]), a * a)
    same("multiple", x * P, pm.scale(mp, x), pm.scale(ab["p"], abs(x)), a)
    same("copy", P.copy(), mp, ab["p"], a)
    gx, gy = P.grad()
    same("x derivative", gx, pm.deriv(mp, 0), pm.deriv(ab["p"], 0), a / u)
    same("y derivative", gy, pm.deriv(mp, 1), pm.deriv(ab["p"], 1), a / u)
    same("Laplacian", P.laplacian(), pm.laplacian(mp), pm.laplacian(ab["p"]), a / u**2)
    same("Laplacian of an anti-Laplacian", P.anti_laplacian().laplacian(), mp, pm.scale(ab["p"], 10), a)
    back = P.compose(pf.Polynomial([(u, 1, 0)]), pf.Polynomial([(u, 0, 1)]))
    got = {(m.alpha.x, m.alpha.y): m.coef / a for m in back.monos}
    for key in set(got) | set(mp):
        r.close("composition with the change of unit", got.get(key, 0.0), mp.get(key, 0.0), 1e-10, max(ab["p"].values()))
    X, Y = s["pt"]
    val = sum(c * X**i * Y**j for (i, j), c in mp.items())
    r.close("value", P(u * X, u * Y) / a, val, 1e-10, sum(abs(c) * abs(X) ** i * abs(Y) ** j for (i, j), c in mp.items()) + 1e-3)
    r.true(not (P - P).monos, "difference with itself has no terms")
    r.nt(len(mp) > 0 and abs(s["length"][1]) + abs(s["amp"][1]) > 3)


@st.composite
def bad_cases(draw):
    return {
        "terms": draw(poly_terms(deg=3, terms=3)),
        "what": draw(st.sampled_from(["add", "mul", "div", "pow_neg", "pow_float", "index", "negative", "lengths", "var"])),
        "v": draw(st.sampled_from(["x", None, [1.0]])),
        "k": draw(st.integers(1, 4)),
    }


def check_bad(s, r: Recorder):
    import puncturedfem as pf

    p = pf.Polynomial(tuples(s["terms"]))
    m = pm.make(s["terms"])
    v, k, what = s["v"], s["k"], s["what"]
    r.label(what)
    r.nt()
    if what == "add":
        r.raises("adding a non-number", TypeError, lambda: p + v)
        r.raises("adding to a non-number", TypeError, lambda: v + p)
        r.raises("subtracting a non-number", TypeError, lambda: p - v)
    elif what == "mul":
        r.raises("multiplying by a non-number", TypeError, lambda: p * v)
        r.raises("multiplying a non-number", TypeError, lambda: v * p)
    elif what == "div":
        r.raises("dividing by a non-number", TypeError, lambda: p / v)
        r.raises("dividing by a polynomial", TypeError, lambda: p / p)
    elif what == "pow_neg":
        r.raises("negative power", ValueError, lambda: p.pow(-k))
    elif what == "pow_float":
        r.raises("fractional power", ValueError, lambda: p.pow(k + 0.5))
    elif what == "index":
        r.raises("three indices", Exception, lambda: pf.Polynomial([(1.0, k, 0, 0)]))
    elif what == "negative":
        r.raises("negative exponent", ValueError, lambda: pf.Polynomial([(1.0, -k, 0)]))
        r.raises("negative exponent", ValueError, lambda: pf.Polynomial([(1.0, 0, -k)]))
    elif what == "lengths":
        r.raises("lengths differ", Exception, lambda: p.add_monomials_with_idxs([1.0] * k, [0] * (k + 1)))
    elif what == "var":
        if s["terms"]:
            full = pf.Polynomial([(1.0, 1, 1)])
            r.raises("derivative in z", Exception, lambda: full.partial_deriv("z"))
    pm.compare(r, "coefficients after a rejected operation", p, m, sum(abs(c) for c, _, _ in s["terms"]))


PROP = Prop(
    "C01",
    [
        Sub("programs", programs(), check, quick=1500, thorough=30000, shards=4,
            rule="programs of 1 to 14 operations on a set of polynomials, all compared with exact rational models after every step; non-trivial: at least 3 kinds of operations and a polynomial of at least 2 terms"),
        Sub("powers", powers(), check_powers, quick=300, thorough=6000, shards=2,
            rule="powers up to 12 and compositions of degree up to 11 of polynomials of degree at most 1; non-trivial: exponent at least 3 of a polynomial that is not zero"),
        Sub("units", units(), check_units, quick=400, thorough=8000, shards=2,
            rule="polynomials and their results in units of length 1e-5 to 9e5 and of value 1e-40 to 9e40, compared with those in unit units; non-trivial: units away from 1"),
        Sub("rejected", bad_cases(), check_bad, quick=150, thorough=2000, shards=1,
            rule="operations that must be rejected without touching the operands; non-trivial: always"),
    ],
)
