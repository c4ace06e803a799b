"""C19: punycode::encode and punycode::decode on texts in which some positions are symbolic, against RFC 3492.

Every abstract path is compared, for every combination of the symbolic positions' values that belongs to it, with a reference that computes
with unbounded integers."""
import itertools
import numpy as np
from prog import AnalysisBroken, repo_program
from values import *
from interp import Interp
from models import SV
from symparts import flds
from pct_check import report_ub, loc_of
from coding_check import adapt, digit

U32 = 0xFFFFFFFF
CPMAX = 0x10FFFF


def program():
    return repo_program(["puny.cpp"])


# ---- references
def digit_value(c):
    return c - 48 + 26 if 48 <= c <= 57 else c - 97 if 97 <= c <= 122 else c - 65 if 65 <= c <= 90 else None


def threshold(k, bias):
    return 1 if k <= bias else 26 if k >= bias + 26 else k - bias


def ref_decode(txt):
    """(code points, None) or (None, why) by RFC 3492 6.2 with unbounded integers; a delimiter in first position is skipped, as the project documents.
    Code points may exceed what 32 bits hold."""
    d = -1
    for i in range(len(txt) - 1, -1, -1):
        if txt[i] == 0x2D:
            d = i
            break
    out = list(txt[:d]) if d > 0 else []
    if any(c > 127 for c in out):
        return None, "a character outside ASCII in the literal part"
    p = d + 1
    n, i, bias = 128, 0, 72
    while p < len(txt):
        old, w, k = i, 1, 36
        while True:
            if p >= len(txt):
                return None, "the input ends inside a number"
            v = digit_value(txt[p])
            p += 1
            if v is None:
                return None, "a character that is no digit"
            i += v * w
            t = threshold(k, bias)
            if v < t:
                break
            w *= 36 - t
            k += 36
        bias = adapt(i - old, len(out) + 1, old == 0)
        n += i // (len(out) + 1)
        i %= len(out) + 1
        out.insert(i, n)
        i += 1
    return out, None


def vli(value, bias):
    out, k = [], 36
    while True:
        t = threshold(k, bias)
        if value < t:
            break
        out.append(digit(t + (value - t) % (36 - t)))
        value = (value - t) // (36 - t)
        k += 36
    return out + [digit(value)]


def ref_encode_rows(shape, vals):
    """RFC 3492 6.3 for every row: shape is a list of code points, None for the next symbolic one; vals are arrays, one per symbolic
    position.  Returns (matrix of bytes, lengths)."""
    rows = len(vals[0]) if vals else 1
    it = iter(vals)
    cols = [np.asarray(next(it), dtype=np.int64) if x is None else np.full(rows, x, dtype=np.int64) for x in shape]
    cap = len(shape) + 2 + 8 * len(shape)
    out = np.zeros((rows, cap), dtype=np.int16)
    ln = np.zeros(rows, dtype=np.int64)
    idx = np.arange(rows)

    def put(mask, v):
        r = idx[mask]
        out[r, ln[r]] = v[mask] if isinstance(v, np.ndarray) else v
        ln[r] += 1
    for c in cols:
        put(c < 128, c)
    h = ln.copy()
    b = ln.copy()
    put(b > 0, 0x2D)
    n, delta, bias = np.full(rows, 128), np.zeros(rows, dtype=np.int64), np.full(rows, 72)
    big = np.int64(1) << 40
    while True:
        live = h < len(shape)
        if not live.any():
            break
        m = np.full(rows, big)
        for c in cols:
            m = np.where((c >= n) & (c < m), c, m)
        delta = np.where(live, delta + (m - n) * (h + 1), delta)
        n = np.where(live, m, n)
        for c in cols:
            delta = np.where(live & (c < n), delta + 1, delta)
            eq = live & (c == n)
            if eq.any():
                q, k, go = delta.copy(), 36, eq.copy()
                while go.any():
                    t = np.where(bias >= k, 1, np.where(k >= bias + 26, 26, k - bias))
                    more = go & (q >= t)
                    put(more, np.where(t + (q - t) % (36 - t) < 26, 97, 22) + t + (q - t) % (36 - t))
                    put(go & ~more, np.where(q < 26, 97, 22) + q)
                    q = np.where(more, (q - t) // (36 - t), q)
                    go = more
                    k += 36
                d = np.where(h == b, delta // 700, delta // 2)
                d = d + d // (h + 1)
                kk = np.zeros(rows, dtype=np.int64)
                while (d > 455).any():
                    kk = np.where(d > 455, kk + 36, kk)
                    d = np.where(d > 455, d // 35, d)
                bias = np.where(eq, kk + 36 * d // (d + 38), bias)
                delta = np.where(eq, 0, delta)
                h = np.where(eq, h + 1, h)
        delta = np.where(live, delta + 1, delta)
        n = np.where(live, n + 1, n)
    return out, ln


# ---- scenes
def space(ctx, names):
    """The combinations of the symbolic positions on this path: (index arrays into the current values, one per position)."""
    axes = [ctx.axes[n] for n in names]
    shape = [len(a.vals) for a in axes]
    if int(np.prod(shape)) > MAXTAB:
        raise TooLarge("combinations")
    ok = np.ones(shape, dtype=bool)
    for g in ctx.groups:
        g.norm()
        ok &= spread(g, axes).astype(bool)
    return axes, ok


def spread(t, axes):
    """table t as an array over all the axes given"""
    t.norm()
    order = [axes.index(a) for a in t.axes]
    arr = np.transpose(t.arr, sorted(range(len(order)), key=lambda i: order[i]))
    shape = [1] * len(axes)
    for a in t.axes:
        shape[axes.index(a)] = len(a.vals)
    return np.broadcast_to(arr.reshape(shape), [len(a.vals) for a in axes])


def column(v, axes, ok):
    """the value of v for each combination of the path"""
    if isinstance(v, Tab):
        return spread(v, axes)[ok].astype(np.int64)
    if isinstance(v, (int, bool)):
        return np.full(int(ok.sum()), int(v), dtype=np.int64)
    raise AnalysisBroken("punycode value %r" % (v,))


def text(b):
    return '"%s"' % "".join(chr(c) if 33 <= c < 127 and c not in (34, 92) else "\\x%02x" % c for c in b)


def label(cps):
    return " ".join("U+%04X" % c for c in cps) or "(empty)"


ANY = list(range(-128, 128))


def signed(cs):
    return sorted(c - 256 if c > 127 else c for c in cs)


def decode_job(prog, shape, what, entry="puny_decode"):
    """shape: bytes, or None / a collection of bytes for a symbolic one"""
    def job(S):
        nd, an = [], set()
        loc = loc_of(prog, "uri::punycode::decode")
        names, doms = [], []
        for i, x in enumerate(shape):
            if not isinstance(x, int):
                names.append("b%02d" % i)
                doms.append(ANY if x is None else signed(x))
        cache = {}

        def reference(row):
            if row not in cache:
                it = iter(row)
                cache[row] = ref_decode([x if isinstance(x, int) else next(it) & 255 for x in shape])
            return cache[row]

        def run(ctx):
            I = Interp(prog, ctx)
            I.reports, I.analysed = nd, an
            sym = iter(zip(names, doms))
            vals = []
            for x in shape:
                if isinstance(x, int):
                    vals.append(x if x < 128 else x - 256)
                else:
                    n, d = next(sym)
                    vals.append(ctx.axis(n, d))
            arr = Arr([Cell(v) for v in vals], "label")
            if entry == "puny_decode":
                args = [Cell(SV(Ptr(arr, 0), len(vals)))]
            else:
                args = [Cell(Ptr(arr, 0)), Cell(Ptr(arr, len(vals)))]
            f = flds(I, I.load(I.call_fn(prog.one("vtu::" + entry), None, args, loc)))
            ok = I.truth(I.load(f["ok"]))
            err = I.truth(I.load(f["error_set"]))
            end = I.truth(I.load(f["at_end"]))
            got = [I.load(c) for c in f["str"].v.arr.cells] if ok else []
            axes, live = space(ctx, names)
            rows = [tuple(int(a.vals[j]) for a, j in zip(axes, pos)) for pos in np.argwhere(live)] if names else [()]
            cols = [column(v, axes, live) if names else np.array([int(v)]) for v in got]
            S.stat("inputs compared with the reference", len(rows))
            for k, row in enumerate(rows):
                exp, why = reference(row)
                res = [int(c[k]) & U32 for c in cols]
                it = iter(row)
                t = text([x if isinstance(x, int) else next(it) & 255 for x in shape])
                if not ok:
                    if not err:
                        return "%s gives an error code that means success" % t
                    if exp is not None and all(c <= CPMAX for c in exp):
                        return "%s gives an error instead of %s" % (t, label(exp))
                elif exp is None:
                    return "%s gives %s instead of an error (%s)" % (t, label(res), why)
                elif any(c > U32 for c in exp):
                    return "%s gives %s although a code point of it exceeds 32 bits" % (t, label(res))
                elif res != exp:
                    return "%s gives %s instead of %s" % (t, label(res), label(exp))
                elif not end:
                    return "%s: the result's position is not the end of the input" % t
            return None
        ok = True
        for ctx, r in explore(run):
            S.stat("abstract paths", 1)
            if r is not None:
                ok = False
                S.violation(loc, "decoding " + r, key="decode")
        report_ub(S, nd, "punycode: ")
        S.obligation("decode: %s" % what, ok and not nd)
        S.functions(prog, an)
    return job


def encode_job(prog, shape, what, doms=None, plain=False):
    """shape: code points, None for a symbolic one with the domain from doms in turn"""
    def job(S):
        nd, an = [], set()
        loc = loc_of(prog, "uri::punycode::encode")
        names = ["c%02d" % i for i, x in enumerate(shape) if x is None]
        ds = [np.asarray(sorted(d), dtype=np.int64) for d in (doms or [range(CPMAX + 1)] * len(names))]
        grid = [g.reshape(-1) for g in np.meshgrid(*ds, indexing="ij")] if ds else []
        rout, rlen = ref_encode_rows(shape, grid)
        # no code point outside ASCII and plain text allowed: copied as it is
        it = iter(grid)
        cols0 = [next(it) if x is None else np.full(len(rlen), x) for x in shape]
        basic = np.ones(len(rlen), dtype=bool)
        for c in cols0:
            basic &= c < 128

        def run(ctx):
            I = Interp(prog, ctx)
            I.reports, I.analysed = nd, an
            sym = iter(zip(names, ds))
            vals = []
            for x in shape:
                if x is None:
                    n, d = next(sym)
                    vals.append(ctx.axis(n, d))
                else:
                    vals.append(x)
            arr = Arr([Cell(v) for v in vals], "label")
            f = flds(I, I.load(I.call_fn(prog.one("vtu::puny_encode"), None, [Cell(SV(Ptr(arr, 0), len(vals))), Cell(plain)], loc)))
            any_ = I.truth(I.load(f["any"]))
            end = I.truth(I.load(f["at_end"]))
            got = [I.load(c) for c in f["out"].v.arr.cells]
            axes, live = space(ctx, names)
            if names:
                flat = np.zeros(live.shape, dtype=np.int64)
                for a, d in zip(axes, ds):
                    flat = flat * len(d)
                    sh = [1] * len(axes)
                    sh[axes.index(a)] = len(a.vals)
                    flat = flat + np.searchsorted(d, a.vals).reshape(sh)
                rows = flat[live]
            else:
                live, rows = None, np.array([0])
            S.stat("inputs compared with the reference", len(rows))

            def show(bad):
                r = rows[int(np.argmax(bad))]
                want = "".join(chr(c) for c in rout[r][:rlen[r]])
                return '%s gives %%s instead of "%s"' % (label([int(c[r]) for c in cols0]), want)
            nb = basic[rows]
            if (any_ == nb).any():
                return show(any_ == nb).split(" gives")[0] + " is reported as %s" % ("not plain ASCII" if any_ else "plain ASCII")
            if not end:
                return show(np.ones(1)).split(" gives")[0] + ": the returned position is not the end of the input"
            explen = rlen[rows] - (nb & (rlen[rows] > 0) if plain else 0)
            if (explen != len(got)).any():
                return show(explen != len(got)) % ("%d characters" % len(got))
            for i, v in enumerate(got):
                c = column(v, axes, live) if names else np.array([int(v)])
                bad = (c & 255) != rout[rows, i]
                if bad.any():
                    return show(bad) % ("'%c' at position %d" % (int(c[int(np.argmax(bad))]) & 255, i))
            return None
        ok = True
        for ctx, r in explore(run):
            S.stat("abstract paths", 1)
            if r is not None:
                ok = False
                S.violation(loc, "encoding " + r, key="encode")
        report_ub(S, nd, "punycode: ")
        S.obligation("encode: %s" % what, ok and not nd)
        S.functions(prog, an)
    return job


def b(s):
    return list(s.encode())


RFC = ["egbpdaj6bu4bxfgehfvwxn", "ihqwcrb4cv8a8dqg056pqjye", "ihqwctvzc91f659drss3x8bo0yb", "Proprostnemluvesky-uyb24dma41a", "4dbcagdahymbxekheh6e0a7fei0b",
       "i1baa7eci9glrd9b2ae1bj0hfcgg6iyaf8o0a1dig0cd", "n8jok5ay5dzabd5bym9f0cm5685rrjetr6pdxa", "989aomsvi5e83db1d2a355cv1e0vak1dwrv93d5xbh15a0dt30a5jpsd879ccm6fea98c",
       "b1abfaaepdrnnbgefbadotcwatmq2g4l", "PorqunopuedensimplementehablarenEspaol-fmd56a", "TisaohkhngthchnitingVit-kjcr8268qyxafd2f1b9g", "3B-ww4c5e180e575a65lsy2b",
       "-with-SUPER-MONKEYS-pc58ag80a8qai00g7n9n", "Hello-Another-Way--fc4qua05auwb3674vfr0b", "2-u9tlzr9756bt3uc0v", "MajiKoi5-783gue6qz075azm5e", "de-jg4avhby1noc0d",
       "d9juau41awczczp", "-> $1.00 <--"]
SOME = b("az09Zq8m-") + [0x80, 0x7B]


def with_at(t, ps):
    return [None if i in ps else c for i, c in enumerate(t)]


HIGH = [0x80, 0xFFFF, 0xF0000, CPMAX - 1, CPMAX]


def jobs(prog, tier, light=False):
    deep = tier == "thorough"
    N = None
    js = []
    # short texts: everything
    js.append(decode_job(prog, [N, N], "every text of two bytes"))
    js.append(decode_job(prog, [N], "every text of one byte"))
    js.append(decode_job(prog, [], "the empty text"))
    js.append(decode_job(prog, [N, N], "every pair of bytes, by iterators", "puny_decode_iterators"))
    for s in ("-", "a-", "abc-", "a-b-", "--"):
        js.append(decode_job(prog, b(s) + [N, N], 'two bytes after "%s"' % s))
    js.append(decode_job(prog, [N, 0x2D, N], "a literal byte and a digit"))
    js.append(decode_job(prog, [N, SOME, N] if deep else [N, SOME, SOME], "three bytes"))
    for s in ("tda", "2ca", "4db", "abc-2ca"):
        js.append(decode_job(prog, b(s) + [N, N], 'two bytes after "%s"' % s))
    # long texts: one byte at a time
    for t in RFC:
        step = 1 if deep else 6 if light else 3
        if len(t) > 50 and not deep:
            continue
        t = b(t)
        d = max((i for i, c in enumerate(t) if c == 0x2D), default=-1)
        ps = [i for i in range(len(t)) if i > d and (i % step == 0 or i >= len(t) - 2)] + [i for i in (0, d) if 0 <= i <= d]
        for p in ps:
            js.append(decode_job(prog, with_at(t, [p]), 'byte %d of "%s"' % (p, bytes(t).decode())))
    # numbers close to where 32 and 64 bits end, by two digits of each at a time
    for lit in ([], b("a-"), b("xyz-")) if not light else ([], b("xyz-")):
        m = max(len(lit) - 1, 0) + 1
        for base, nm in ((CPMAX + 1 - 128, "the last code point"), (U32 + 1 - 128, "32 bits"), (1 << 32, "2^32"), (1 << 64, "2^64"), ((1 << 63), "2^63"), (1 << 31, "2^31")):
            for extra in (0, 1000) if deep else (0,):
                v = (base * m if base < 1 << 60 else base) + extra
                ds = vli(v, 72)
                for p in range(0, len(ds), 1 if deep else 4 if light else 2):
                    q = min(p + 1, len(ds) - 1)
                    js.append(decode_job(prog, lit + with_at(ds, {p, q}), "digits %d and %d of a number close to %s after %d literal characters" % (p, q, nm, m - 1)))
                # a second number that takes the sum over the limit
                first = vli(base * m // 2 if base < 1 << 60 else (U32 - 1000) * m // 2, 72)
                first_delta = base * m // 2 if base < 1 << 60 else (U32 - 1000) * m // 2
                idx = first_delta % m + 1
                second = vli(base * (m + 1) // 2 if base < 1 << 60 else base - idx, adapt(first_delta, m, True))
                for p in range(0, len(second), 1 if deep else 3):
                    q = min(p + 1, len(second) - 1)
                    js.append(decode_job(prog, lit + first + with_at(second, {p, q}), "digits %d and %d of a second number that reaches %s" % (p, q, nm)))
    for n in range(1, 24, 1 if deep else 3):
        js.append(decode_job(prog, b("9") * n + [N, N], "%d high digits and two bytes" % n))
        js.append(decode_job(prog, b("a-") + b("0") * n + [N, N], "%d digits and two bytes" % n))
    # encoder
    full = range(CPMAX + 1) if not light else list(range(0, 0x3000)) + list(range(0x3000, CPMAX + 1, 61))
    edge = sorted(set(list(range(0, 300, 7 if not deep else 1)) + [x + d for x in (0x80, 0x7FF, 0x3042, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x1F600, CPMAX - 5) for d in range(-3, 6)]))
    thin = sorted(set(edge) | set(full[::17]) | set(range(0x2F00, 0x3100)) | set(range(0x1F500, 0x1F700)))
    dec, js = js, []
    js.append(encode_job(prog, [], "the empty label"))
    js.append(encode_job(prog, [], "the empty label, plain allowed", plain=True))
    for shape, w in (([N], "one code point"), (b("a") + [N], "after a letter"), ([N] + b("ab"), "before two letters"), ([0x3042, N], "after U+3042"),
                     ([N, 0x80], "before U+0080"), ([CPMAX, N, 0xE9], "between the last code point and U+00E9"), (b("abcdefghijklmnop") + [N] + b("rstuv-wxyz"), "in a long word"),
                     ([0x1F600, N, 0x1F600], "between equal ones")):
        wide = deep or not {CPMAX, 0x3042, 0x1F600} & set(shape)
        js.append(encode_job(prog, shape, ("any code point " if wide else "code points of every plane ") + w, [full if wide else thin]))
    js.append(encode_job(prog, [N] + b("a"), "any code point before a letter, plain allowed", [full], plain=True))
    js.append(encode_job(prog, [N, N], "two code points", [edge, edge]))
    js.append(encode_job(prog, [N, 0xE9, N], "two code points around U+00E9", [edge, edge]))
    js.append(encode_job(prog, [N, N], "two code points, plain allowed", [range(256), range(256)], plain=True))
    # more letters than 32 bits can count in deltas
    js.append(encode_job(prog, b("a") * 4200 + [N], "a high code point after 4200 letters", [HIGH]))
    v = vli((CPMAX - 128) * 4201 + 4200, 72)
    js.append(decode_job(prog, b("a") * 4200 + b("-") + v[:-1] + [SOME], "the last digit of a number after 4200 letters"))
    if deep:
        e2 = edge[::9] + [CPMAX]
        js.append(encode_job(prog, [N, N, N], "three code points", [e2, e2, e2]))
        for t in RFC[:8]:
            cps = ref_decode(b(t))[0]
            for p in range(0, len(cps), 3):
                js.append(encode_job(prog, [None if i == p else c for i, c in enumerate(cps)], 'code point %d of "%s"' % (p, t), [edge]))
    return js + dec


# ---- C28: there and back
def call_encode(I, prog, cells, plain, loc):
    f = flds(I, I.load(I.call_fn(prog.one("vtu::puny_encode"), None, [Cell(SV(Ptr(Arr(cells, "label"), 0), len(cells))), Cell(plain)], loc)))
    return [I.load(c) for c in f["out"].v.arr.cells]


def call_decode(I, prog, cells, loc):
    f = flds(I, I.load(I.call_fn(prog.one("vtu::puny_decode"), None, [Cell(SV(Ptr(Arr(cells, "text"), 0), len(cells)))], loc)))
    if not I.truth(I.load(f["ok"])):
        return None
    return [I.load(c) for c in f["str"].v.arr.cells]


def there_job(prog, shape, what, doms):
    """decode (encode (label)) == label; shape as for encode_job"""
    def job(S):
        nd, an = [], set()
        loc = loc_of(prog, "uri::punycode::encode")
        names = ["c%02d" % i for i, x in enumerate(shape) if x is None]
        ds = [sorted(x for x in d if not 0xD800 <= x < 0xE000) for d in doms]

        def run(ctx):
            I = Interp(prog, ctx)
            I.reports, I.analysed = nd, an
            sym = iter(zip(names, ds))
            vals = []
            for x in shape:
                if x is None:
                    n, d = next(sym)
                    vals.append(ctx.axis(n, d))
                else:
                    vals.append(x)
            out = call_encode(I, prog, [Cell(v) for v in vals], False, loc)
            back = call_decode(I, prog, [Cell(v) for v in out], loc)
            axes, live = space(ctx, names)
            S.stat("labels taken there and back", int(live.sum()) if names else 1)

            def show(k):
                it = (int(a.vals[j]) for a, j in zip(axes, np.argwhere(live)[k])) if names else iter(())
                return label([x if x is not None else next(it) for x in shape])
            if back is None:
                return "%s: its encoding is refused by decode" % show(0)
            if len(back) != len(vals):
                return "%s: decodes to %d code points" % (show(0), len(back))
            for i, (g, e) in enumerate(zip(back, vals)):
                if not names:
                    if int(g) != int(e):
                        return "%s: comes back with U+%04X at position %d" % (show(0), g, i)
                    continue
                bad = column(g, axes, live) != column(e, axes, live)
                if bad.any():
                    k = int(np.argmax(bad))
                    return "%s: comes back with U+%04X at position %d" % (show(k), int(column(g, axes, live)[k]), i)
            return None
        finish(S, prog, run, loc, an, "decode (encode (label)) is the label: %s" % what, "there")
    return job


def back_job(prog, shape, what):
    """encode (decode (text)) == text up to letter case, wherever decode accepts; shape as for decode_job"""
    def job(S):
        nd, an = [], set()
        loc = loc_of(prog, "uri::punycode::decode")
        names = ["b%02d" % i for i, x in enumerate(shape) if not isinstance(x, int)]
        doms = [ANY if x is None else signed(x) for x in shape if not isinstance(x, int)]

        def run(ctx):
            I = Interp(prog, ctx)
            I.reports, I.analysed = nd, an
            sym = iter(zip(names, doms))
            vals = []
            for x in shape:
                if isinstance(x, int):
                    vals.append(x)
                else:
                    n, d = next(sym)
                    vals.append(ctx.axis(n, d))
            cps = call_decode(I, prog, [Cell(v) for v in vals], loc)
            if cps is None:
                return None
            again = call_encode(I, prog, [Cell(v) for v in cps], False, loc)
            axes, live = space(ctx, names)

            def at(v):
                c = column(v, axes, live) if names else np.array([int(v)])
                return np.where((c >= 65) & (c <= 90), c + 32, c)
            n = int(live.sum()) if names else 1
            S.stat("texts taken there and back", n)
            cols = [at(v) for v in vals]
            # a delimiter in first position that is the last delimiter is skipped
            skip = np.zeros(n, dtype=bool)
            if cols:
                skip = cols[0] == 0x2D
                for c in cols[1:]:
                    skip &= c != 0x2D
            got = [at(v) for v in again]
            for k in range(n):
                exp = [int(c[k]) for c in cols][1 if skip[k] else 0:]
                if [int(c[k]) for c in got] != exp:
                    t = text([int(column(v, axes, live)[k]) & 255 if names else int(v) for v in vals])
                    return "%s: is decoded, and encoded again as %s" % (t, text([int(c[k]) & 255 for c in got]))
            return None
        finish(S, prog, run, loc, an, "encode (decode (text)) is the text: %s" % what, "back")
    return job


def finish(S, prog, run, loc, an, what, key):
    ok = True
    for ctx, r in explore(run):
        S.stat("abstract paths", 1)
        if r is not None:
            ok = False
            S.violation(loc, r, key=key)
    S.obligation(what, ok)
    S.functions(prog, an)


def inverse_jobs(prog, tier):
    deep = tier == "thorough"
    N = None
    full = range(CPMAX + 1)
    edge = sorted(set(list(range(0, 300, 7 if not deep else 1)) + [x + d for x in (0x80, 0x7FF, 0x3042, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x1F600, CPMAX - 5) for d in range(-3, 6)]))
    thin = sorted(set(edge) | set(full[::17]) | set(range(0x2F00, 0x3100)) | set(range(0x1F500, 0x1F700)))
    js = []
    for shape, w, wide in (([N], "one", True), (b("a") + [N], "after a letter", True), ([N] + b("-"), "before a hyphen", True), ([N, 0x80], "before U+0080", True),
                           ([0x3042, N], "after U+3042", deep), ([CPMAX, N, 0xE9], "between the last one and U+00E9", deep), ([0x1F600, N, 0x1F600], "between equal ones", deep),
                           (b("abcdefghijklmnop") + [N] + b("rstuv-wxyz"), "in a long word", deep), ([0xE9, 0xE9, N, 0xE9], "among equal ones", deep)):
        js.append(there_job(prog, shape, "%s code point, %s" % ("any" if wide else "a", w), [full if wide else thin]))
    js.append(there_job(prog, [N, N], "two code points", [edge, edge]))
    js.append(there_job(prog, [N, 0xE9, N], "two code points around U+00E9", [edge, edge]))
    js.append(there_job(prog, [0x80, N, N, 0x41], "two code points after U+0080", [edge, edge]))
    e3 = edge[::5 if deep else 9] + [CPMAX]
    js.append(there_job(prog, [N, N, N], "three code points", [e3, e3, e3]))
    for t in RFC if deep else RFC[::3]:
        cps = ref_decode(b(t))[0]
        for p in range(0, len(cps), 2 if deep else 8):
            js.append(there_job(prog, [None if i == p else c for i, c in enumerate(cps)], 'code point %d of "%s"' % (p, t), [edge if deep else edge[::4]]))
    js.append(there_job(prog, b("a") * 4200 + [N], "a high code point after 4200 letters", [HIGH]))
    js.append(there_job(prog, [], "the empty label", []))
    for s in ("", "-", "a-", "abc-", "a-b-", "tda", "2ca", "4db", "abc-2ca", "--"):
        js.append(back_job(prog, b(s) + [N, N], 'two bytes after "%s"' % s))
    js.append(back_job(prog, [N, 0x2D, N], "a literal byte and a digit"))
    js.append(back_job(prog, [N, SOME, N] if deep else [N, SOME, SOME], "three bytes"))
    for t in RFC:
        t = b(t)
        if len(t) > 40 and not deep:
            continue
        for p in range(1, len(t), 1 if deep else 7):
            js.append(back_job(prog, with_at(t, [p]), 'byte %d of "%s"' % (p, bytes(t).decode())))
    return js
