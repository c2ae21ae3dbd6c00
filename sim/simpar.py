"""Parallel numba loops under a simulated scheduler.

Functions the package hands to numba with parallel=True are not compiled: their source is rewritten so that every
statement of a prange body is a scheduling point, the iterations are dealt to simulated threads in contiguous blocks (as
numba does), names assigned in the body are private to a thread, names that are only accumulated are reductions, and a
scheduler decides after every statement which thread goes on. Other jitted functions of the same module are rewritten
too, so that calls from inside a parallel loop can be interrupted in the middle; nothing else is changed."""
import ast
import inspect
import textwrap
import types

import numpy as np

from .core import HarnessError, Violation

sched = None            # the scheduler of the run: object with .threads(n) and .pick(live, last)
stats = {"regions": 0, "steps": 0, "kernels": {}}
MODULES = ("nlpar_cpu",)
_installed = False


class DeadThread(Exception):
    pass


# ------------------------------------------------------------------ scheduling
class Sequential:
    """One thread."""
    def threads(self, n):
        return 1

    def pick(self, live, last):
        return live[0]


class Seeded:
    """Mode 'burst': random thread, random burst. Mode 'lock': one statement each in turn. Mode 'preempt': a thread runs
    until it ends, except at the listed statement numbers, where another one takes over."""

    def __init__(self, nthreads, mode, seed, points=()):
        self.n, self.mode, self.points = nthreads, mode, set(points)
        self.rng = np.random.default_rng(seed)
        self.left = 0
        self.buf = []
        self.step = 0
        self.switches = 0
        self.trace = []

    def threads(self, n):
        return max(1, min(n, self.n))

    def _u(self):
        if not self.buf:
            self.buf = self.rng.integers(0, 1 << 30, 4096).tolist()
        return self.buf.pop()

    def pick(self, live, last):
        self.step += 1
        if len(live) == 1:
            return live[0]
        if self.mode == "lock":
            t = live[self.step % len(live)]
        elif self.mode == "burst":
            if self.left > 0 and last in live:
                self.left -= 1
                return last
            u = self._u()
            self.left = 0 if u % 3 else (u >> 4) % 60
            t = live[(u >> 12) % len(live)]
        else:
            if last in live and self.step not in self.points:
                return last
            o = [t for t in live if t != last] or live
            t = o[self._u() % len(o)]
        if t != last:
            self.switches += 1
            if len(self.trace) < 3000:
                self.trace.append((self.step, t))
        return t


_in_region = None            # current thread while a region is being simulated


def _region(make, rng, env):
    """Generator: run one parallel loop. Returns (last private values, {name: [thread values]} of reductions)."""
    global _in_region
    its = list(rng)
    if not its:
        return {}, {}
    if _in_region is not None:                     # nested: numba runs the inner loop in the thread that reached it
        out = yield from make(its, env)
        return out[0], {k: [v] for k, v in out[1].items()}
    n = sched.threads(len(its))
    stats["regions"] += 1
    cuts = [round(len(its) * k / n) for k in range(n + 1)]
    gens = [make(its[cuts[k]:cuts[k + 1]], env) for k in range(n)]
    live, last, outs = list(range(n)), None, [None] * n
    try:
        while live:
            last = sched.pick(live, last)
            _in_region = last
            try:
                next(gens[last])
                stats["steps"] += 1
            except StopIteration as e:
                outs[last] = e.value
                live.remove(last)
    finally:
        _in_region = None
    return outs[-1][0], {k: [o[1][k] for o in outs] for k in outs[-1][1]}


class SimDict(dict):
    """numba.typed.Dict: not safe to share between threads."""

    def __init__(self):
        super().__init__()
        self.users = set()

    def _use(self):
        if _in_region is not None:
            self.users.add(_in_region)
            if len(self.users) > 1:
                raise Violation("shared-container", "a dictionary created outside of the parallel loop is used by several "
                                "of its threads")

    def __setitem__(self, k, v):
        self._use()
        super().__setitem__(k, v)

    def __getitem__(self, k):
        self._use()
        return super().__getitem__(k)

    def __contains__(self, k):
        self._use()
        return super().__contains__(k)

    @classmethod
    def empty(cls, *a, **k):
        return cls()


class SimList(list):
    empty_list = classmethod(lambda cls, *a, **k: cls())


class NumbaProxy:
    """What the name numba means inside a rewritten kernel."""
    typed = types.SimpleNamespace(Dict=SimDict, List=SimList)

    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)


def _call(f, *a, **k):
    if isinstance(f, SimFunc):
        return (yield from f.gen(*a, **k))
    r = f(*a, **k)
    if isinstance(r, types.GeneratorType):
        r = yield from r
    return r


# ------------------------------------------------------------------ rewriting
def _is_prange(node):
    return isinstance(node, ast.For) and isinstance(node.iter, ast.Call) and (
        (isinstance(node.iter.func, ast.Attribute) and node.iter.func.attr == "prange") or
        (isinstance(node.iter.func, ast.Name) and node.iter.func.id == "prange"))


def _stores(stmts):
    """(names assigned, names only ever accumulated) in a loop body."""
    plain, aug, mulaug = set(), set(), set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            plain.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                plain.add(n.id)

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                (mulaug if isinstance(n.op, (ast.Mult, ast.Div)) else aug).add(n.target.id)
            elif isinstance(n.target, ast.Name):
                plain.add(n.target.id)
            self.generic_visit(ast.Expr(n.value))
            if not isinstance(n.target, ast.Name):
                self.visit(n.target)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    v = V()
    for s in stmts:
        v.visit(s)
    both = aug & mulaug
    return plain | both, aug - plain - both, mulaug - plain - both


class Rewrite(ast.NodeTransformer):
    def __init__(self, parallel):
        self.parallel = parallel
        self.k = 0
        self.depth = 0
        self.safe = 0

    # expressions
    def visit_Call(self, n):
        self.generic_visit(n)
        if self.safe or not isinstance(n.func, ast.Name) or n.func.id in ("range", "len", "print", "locals"):
            return n
        return ast.YieldFrom(ast.Call(ast.Name("__call", ast.Load()), [n.func] + n.args, n.keywords))

    def _opaque(self, n):
        self.safe += 1
        self.generic_visit(n)
        self.safe -= 1
        return n
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda = _opaque

    # statements
    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.append(ast.Expr(ast.Yield()))
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_FunctionDef(self, n):
        n.decorator_list = []
        n.body = self._block(n.body)
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body, n.orelse = self._block(n.body), self._block(n.orelse)
        return n

    def visit_While(self, n):
        n.test = self.visit(n.test)
        n.body, n.orelse = self._block(n.body), self._block(n.orelse)
        return n

    def visit_With(self, n):
        n.body = self._block(n.body)
        return n

    def visit_Try(self, n):
        n.body, n.orelse, n.finalbody = self._block(n.body), self._block(n.orelse), self._block(n.finalbody)
        for h in n.handlers:
            h.body = self._block(h.body)
        return n

    def visit_AugAssign(self, n):
        """Read, give way, write back."""
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Name):
            return n
        self.k += 1
        t = f"__t{self.k}"
        load = ast.parse(ast.unparse(n.target), mode="eval").body
        vec = ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("__copy", ast.Load()), [load], []))
        return [vec, ast.Expr(ast.Yield()),
                ast.Assign([n.target], ast.BinOp(ast.Name(t, ast.Load()), n.op, n.value))]

    def visit_For(self, n):
        n.iter = self.visit(n.iter) if not _is_prange(n) else n.iter
        if not (_is_prange(n) and self.parallel):
            if _is_prange(n):
                n.iter = ast.Call(ast.Name("range", ast.Load()), [self.visit(a) for a in n.iter.args], [])
            n.body, n.orelse = self._block(n.body), self._block(n.orelse)
            return n
        self.k += 1
        k = self.k
        plain, add, mul = _stores(n.body)
        idx = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        private = sorted(plain - idx)
        body = self._block(n.body)
        private += [f"__t{j}" for j in range(k + 1, self.k + 1)]
        pre = "".join(f"\n    if '{p}' in __in: {p} = __in['{p}']" for p in private if not p.startswith("__t"))
        pre += "".join(f"\n    {r} = 0.0 * __in['{r}']" for r in sorted(add))
        pre += "".join(f"\n    {r} = 0.0 * __in['{r}'] + 1.0" for r in sorted(mul))
        red = ", ".join(f"'{r}': {r}" for r in sorted(add | mul))
        src = f"def __thread{k}(__its, __in):{pre}\n    yield\n    for __x in __its:\n        pass\n" \
              f"    return {{n: v for n, v in locals().items() if n in {tuple(private)!r}}}, {{{red}}}"
        fn = ast.parse(src).body[0]
        loop = next(s for s in fn.body if isinstance(s, ast.For))
        loop.target, loop.body = n.target, body
        rng = ast.Call(ast.Name("range", ast.Load()), [self.visit(a) for a in n.iter.args], [])
        run = ast.parse(f"__out{k}, __red{k} = yield from __region(__thread{k}, 0, dict(locals()))").body[0]
        run.value.value.args[1] = rng
        post = "".join(f"\nif '{p}' in __out{k}: {p} = __out{k}['{p}']" for p in private if not p.startswith("__t"))
        post += "".join(f"\nfor __v in __red{k}.get('{r}', []): {r} = {r} + __v" for r in sorted(add))
        post += "".join(f"\nfor __v in __red{k}.get('{r}', []): {r} = {r} * __v" for r in sorted(mul))
        return [fn, run] + ast.parse(post or "pass").body


def _copy(x):
    return x.copy() if isinstance(x, np.ndarray) else x


def _plain(x):
    """numba arithmetic on mixed integers does not follow numpy's: use Python integers."""
    return int(x) if isinstance(x, (np.integer, np.bool_)) and not isinstance(x, bool) else x


class SimFunc:
    """Stands where numba's dispatcher would."""

    def __init__(self, fn, parallel):
        self.py_func, self.parallel = fn, parallel
        self.__name__, self.__doc__ = fn.__name__, fn.__doc__
        self._gen = None

    def _build(self):
        fn = self.py_func
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
        f = tree.body[0]
        if not isinstance(f, ast.FunctionDef):
            raise HarnessError(f"cannot rewrite {fn.__name__}")
        f = Rewrite(self.parallel).visit(f)
        f.args.defaults = []
        f.args.kw_defaults = [None] * len(f.args.kwonlyargs)
        f.returns = None
        for a in f.args.args + f.args.kwonlyargs:
            a.annotation = None
        ns = dict(fn.__globals__)
        for n, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            try:
                ns[n] = c.cell_contents
            except ValueError:
                pass
        import numba
        for n, v in list(ns.items()):
            if v is numba:
                ns[n] = NumbaProxy(numba)
            elif v is numba.prange:
                ns[n] = range
        ns.update(__call=_call, __region=_region, __copy=_copy)
        tree.body = [f]
        exec(compile(ast.fix_missing_locations(tree), f"<{fn.__name__}, interleaved>", "exec"), ns)
        self._gen = ns[fn.__name__]

    def gen(self, *a, **k):
        if self._gen is None:
            self._build()
        b = inspect.signature(self.py_func).bind(*a, **k)
        b.apply_defaults()
        stats["kernels"][self.__name__] = stats["kernels"].get(self.__name__, 0) + 1
        with np.errstate(all="ignore"):
            return (yield from self._gen(*[_plain(x) for x in b.args], **{n: _plain(v) for n, v in b.kwargs.items()}))

    def __call__(self, *a, **k):
        g = self.gen(*a, **k)
        try:
            while True:
                next(g)
        except StopIteration as e:
            return e.value


def install():
    """Before the package is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    import numba

    def seam(real):
        def deco(*a, **kw):
            if a and callable(a[0]):
                return deco(**kw)(a[0])

            def wrap(fn):
                mod = fn.__module__ or ""
                if kw.get("parallel") or (mod.startswith("pyebsdindex") and mod.rsplit(".", 1)[-1] in MODULES):
                    return SimFunc(fn, bool(kw.get("parallel")))
                return real(*a, **kw)(fn)
            return wrap
        return deco
    numba.jit, numba.njit = seam(numba.jit), seam(numba.njit)
