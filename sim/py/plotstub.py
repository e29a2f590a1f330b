"""Stand-in for matplotlib, scipy and numpy: executes a plot script read from
stdin and prints every plotted series.  Unknown calls are absorbed."""
import sys, struct, types, math

class Any:
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Any()
    def __call__(self, *a, **k): return Any()
    def __getitem__(self, i): return Any()
    def __setitem__(self, i, v): pass
    def __iter__(self): return iter(())
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __len__(self): return 0

class Arr:
    """1-D array; `tag` says what it is a (scaled) autocorrelation of."""
    def __init__(self, v, tag=None): self.v, self.tag = v, tag
    def __len__(self): return len(self.v)
    def __iter__(self): return iter(self.v)
    def __getitem__(self, i):
        r = self.v[i]
        return Arr(r, None) if isinstance(i, slice) else r
    def _m(self, f, keep=True): return Arr([f(x) for x in self.v], self.tag if keep else None)
    def _b(self, o, f):
        if isinstance(o, (Arr, list, tuple, range)): return Arr([f(a, b) for a, b in zip(self.v, o)], None)
        return self._m(lambda a: f(a, o))
    def __truediv__(self, o): return self._b(o, div)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __neg__(self): return self._m(lambda a: -a)
    def max(self):
        if not self.v: raise ValueError("zero-size array")
        m = self.v[0]
        for x in self.v:
            if x != x: return x
            if x > m: m = x
        return m
    def min(self): return -(-self).max()
    def sum(self): return math.fsum(self.v)
    def mean(self): return div(sum(self.v), len(self.v))
    def std(self): return 1.0
    def copy(self): return Arr(list(self.v), self.tag)
    def tolist(self): return list(self.v)
    @property
    def size(self): return len(self.v)
    @property
    def shape(self): return (len(self.v),)
def div(a, b):
    try: return a / b
    except ZeroDivisionError:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
def seq(x): return [float(v) for v in x]
def bits(x):
    try: return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
def same(x, y):
    return len(x) == len(y) and all(bits(a) == bits(b) for a, b in zip(x, y))
def correlate(a, b, mode="full", method="auto"):
    x, y = seq(a), seq(b)
    n, m = len(x), len(y)
    if n == 0 or m == 0: return Arr([])
    tag = x if same(x, y) else None
    if n > 48 or m > 48:
        r = [0.0] * (n + m - 1)
        r[m - 1] = sum(u * v for u, v in zip(x, y))
    else:
        r = [sum(x[i] * y[i - k] for i in range(max(0, k), min(n, m + k))) for k in range(-m + 1, n)]
    if mode == "same":
        s = (len(r) - max(n, m)) // 2
        r, tag = r[s:s + max(n, m)], None
    elif mode == "valid":
        s = min(n, m) - 1
        r, tag = r[s:len(r) - s], None
    return Arr(r, tag)
out = []
class Ax(Any):
    def __init__(self, pos): self.__dict__["pos"] = pos
    def plot(self, *a, **k): record(self, [v for v in a if not isinstance(v, str)]); return [Any()]
    def acorr(self, x, **k): out.append((self.pos, "A", seq(x), None, None))
def record(ax, a):
    if not a: return
    y = a[-1] if len(a) < 3 else a[1]
    x = a[0] if len(a) > 1 else None
    if isinstance(y, (int, float)): y = [y]
    tag = getattr(y, "tag", None)
    if tag is not None:
        n = len(tag)
        out.append((ax.pos, "A", tag, seq(x) if x is not None else None, seq(y) if n <= 48 else None))
    else:
        out.append((ax.pos, "P", seq(y), seq(x) if x is not None else None, None))
cur = [Ax(None)]
class GS:
    def __init__(self, r=1, c=1, *a, **k): self.r, self.c = r, c
    def __getitem__(self, i): return tuple(i) if isinstance(i, tuple) else divmod(i, self.c)
def subplot(*a, **k):
    if len(a) == 1 and isinstance(a[0], tuple): pos = a[0]
    elif len(a) == 1 and isinstance(a[0], int): pos = divmod(a[0] % 10 - 1, a[0] // 10 % 10)
    elif len(a) >= 3: pos = divmod(a[2] - 1, a[1])
    elif len(a) == 0: pos = (0, 0)
    else: pos = None
    cur[0] = Ax(pos)
    return cur[0]
def subplots(r=1, c=1, *a, **k):
    g = [[Ax((i, j)) for j in range(c)] for i in range(r)]
    cur[0] = g[-1][-1]
    if k.get("squeeze", True):
        if r == 1 and c == 1: return Fig(), g[0][0]
        if r == 1: return Fig(), g[0]
        if c == 1: return Fig(), [x[0] for x in g]
    class G(list):
        def __getitem__(self, i): return list.__getitem__(self, i[0])[i[1]] if isinstance(i, tuple) else list.__getitem__(self, i)
    return Fig(), G(g)
class Fig(Any):
    def add_subplot(self, *a, **k): return subplot(*a, **k)
    def subplots(self, *a, **k): return subplots(*a, **k)[1]
    def add_gridspec(self, r=1, c=1, *a, **k): return GS(r, c)
shown = [0]
def show(*a, **k): shown[0] += 1
class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Any()
def mod(name, **k):
    m = Mod(name); m.__path__ = []
    for a, b in k.items(): setattr(m, a, b)
    sys.modules[name] = m
    if "." in name:
        p, c = name.rsplit(".", 1)
        setattr(sys.modules[p], c, m)
    return m
mod("matplotlib")
mod("matplotlib.gridspec", GridSpec=GS)
mod("matplotlib.figure", Figure=Fig)
mod("matplotlib.pyplot", subplot=subplot, subplots=subplots, figure=lambda *a, **k: Fig(), show=show,
    plot=lambda *a, **k: cur[0].plot(*a, **k), acorr=lambda *a, **k: cur[0].acorr(*a, **k), gca=lambda: cur[0])
mod("scipy"); mod("scipy.signal", correlate=correlate)
arr = lambda v, *a, **k: Arr(seq(v), getattr(v, "tag", None))
npm = mod("numpy", array=arr, asarray=arr, correlate=lambda a, v, mode="valid": correlate(a, v, mode), nan=math.nan, inf=math.inf,
    float32=float, float64=float, arange=lambda *a, **k: Arr([float(i) for i in range(*[int(x) for x in a])]),
    max=lambda x: Arr(seq(x)).max(), abs=lambda x: Arr([abs(v) for v in x]))

src = sys.stdin.buffer.read()
res = []
try:
    exec(compile(src.decode("utf-8"), "<stdin>", "exec"), {"__name__": "__main__"})
    res.append("OK %d" % shown[0])
except BaseException as e:
    res.append("RAISED %s %s" % (type(e).__name__, str(e).replace("\n", " ")[:200]))
for pos, kind, y, x, z in out:
    p = "? ?" if not pos or len(pos) != 2 else "%s %s" % pos
    res.append("%s %s %d %s" % (kind, p, len(y), ",".join("%x" % bits(v) for v in y)))
    if kind == "A" and z is not None:
        res.append("Z %s" % ",".join(repr(v) for v in z))
    if x is not None:
        res.append("X %s" % ",".join(repr(v) for v in x))
sys.stdout.write("\n".join(res) + "\n")
