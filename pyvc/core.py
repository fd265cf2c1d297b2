"""PyVC core: path exploration, obligations, symbolic values.

Sound-by-construction choices: every unknown answer of the solver is treated as "feasible" when pruning
paths and as "not discharged" when proving; anything the engine does not model raises Unsupported.
"""
import os
import time
import z3

z3.set_param("smt.random_seed", 7)


class EngineSignal(BaseException):
    pass


class PathEnd(EngineSignal):
    """This path is finished (infeasible, or the generic loop iteration was checked)."""


class Dirty(EngineSignal):
    """Loop information changed; the exploration has to be redone."""


class Unsupported(EngineSignal):
    """The code left the supported subset: nothing is proved about it."""


class ProbeSymbolic(EngineSignal):
    pass


class Budget(EngineSignal):
    pass


CUR = None  # current Ctx


def cur():
    if CUR is None:
        raise Unsupported("no verification context")
    return CUR


def to_z3(v):
    """python/Sym value -> z3 expression"""
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, SNum):
        return v.e
    if isinstance(v, SStr):
        return v.expr()
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        from fractions import Fraction
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        fr = Fraction(repr(v))  # decimal reading of the literal
        return z3.RealVal(str(fr))
    if isinstance(v, str):
        return z3.StringVal(v)
    if z3.is_expr(v):
        return v
    raise Unsupported("no z3 value for %s" % type(v).__name__)


def num_pair(a, b):
    a, b = to_z3(a), to_z3(b)
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


def is_num(v):
    return isinstance(v, (SNum, int, float)) or (z3.is_expr(v) and z3.is_arith(v))


class Sym:
    __slots__ = ()
    __hash__ = None


def mk(e):
    """z3 expression -> Sym (folding constants)"""
    if z3.is_bool(e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SBool(e)
    if z3.is_arith(e):
        return SNum(e)
    if z3.is_string(e):
        return SStr((e,))
    return e


def wrap(e):
    return mk(e)


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk(self.e == to_z3(o))
        if isinstance(o, (SNum, int, float)):
            a, b = num_pair(self, o)
            return mk(a == b)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk(z3.Not(r.e))

    def __repr__(self):
        return "SBool(%s)" % self.e


class SNum(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return z3.is_int(self.e)

    def _bin(self, o, f):
        if not is_num(o):
            return NotImplemented
        a, b = num_pair(self, o)
        return SNum(f(a, b))

    def _rbin(self, o, f):
        if not is_num(o):
            return NotImplemented
        a, b = num_pair(o, self)
        return SNum(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._rbin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, str):
            return str_repeat(o, self)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, str):
            return str_repeat(o, self)
        return self._rbin(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o, True)

    def __rfloordiv__(self, o):
        return floordiv(o, self, True)

    def __mod__(self, o):
        return floordiv(self, o, False)

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("str % sym")
        return floordiv(o, self, False)

    def __neg__(self):
        return SNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if not is_num(o):
            return NotImplemented
        a, b = num_pair(self, o)
        return mk(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not is_num(o) and not isinstance(o, SBool):
            return False
        a, b = num_pair(self, o)
        return mk(a == b)

    def __ne__(self, o):
        if not is_num(o) and not isinstance(o, SBool):
            return True
        a, b = num_pair(self, o)
        return mk(a != b)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("symbolic index used natively")

    def __float__(self):
        raise Unsupported("native float() of symbolic number")

    def __int__(self):
        raise Unsupported("native int() of symbolic number")

    def __round__(self, n=None):
        raise Unsupported("round")

    def __str__(self):
        raise Unsupported("native str() of symbolic number")

    def __format__(self, spec):
        raise Unsupported("native format of symbolic number")

    def __repr__(self):
        return "SNum(%s)" % self.e


def div(a, b):
    if not is_num(a) or not is_num(b):
        raise TypeError("unsupported operand type(s) for /")
    x, y = num_pair(a, b)
    if z3.is_int(x):
        x, y = z3.ToReal(x), z3.ToReal(y)
    if cur().branch(y == 0):
        raise ZeroDivisionError("division by zero")
    return SNum(x / y)


def floordiv(a, b, quotient):
    x, y = num_pair(a, b)
    if not (z3.is_int(x) and z3.is_int(y)):
        raise Unsupported("// or % on reals")
    if cur().branch(y == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if not cur().branch(y > 0):
        raise Unsupported("// or % by a negative number")
    return SNum(x / y if quotient else x % y)


# ------------------------------------------------------------------ strings

NUMSTR_R = z3.Function("numstr_real", z3.RealSort(), z3.StringSort())


def int_to_str(e):
    return z3.If(e >= 0, z3.IntToStr(e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-e)))


class SStr(Sym):
    """A rope: parts are python str, z3 String expressions or SNum (a formatted number)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                for q in p.parts:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    elif q != "" if isinstance(q, str) else True:
                        out.append(q)
            elif isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        self.parts = tuple(out)

    def expr(self):
        es = []
        for p in self.parts:
            if isinstance(p, str):
                es.append(z3.StringVal(p))
            elif isinstance(p, SNum):
                es.append(int_to_str(p.e) if p.is_int else NUMSTR_R(p.e))
            elif isinstance(p, Sym):
                raise Unsupported("the value of a joined text")
            else:
                es.append(p)
        if not es:
            return z3.StringVal("")
        if len(es) == 1:
            return es[0]
        return z3.Concat(*es)

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr((self, o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr((o, self))
        return NotImplemented

    def __mul__(self, o):
        raise Unsupported("repeat of symbolic string")

    def eq(self, o):
        """formula of equality"""
        if not isinstance(o, (str, SStr)):
            return z3.BoolVal(False)
        a = self.parts
        b = o.parts if isinstance(o, SStr) else ((o,) if o else ())
        if len(a) == len(b):
            conj = []
            for x, y in zip(a, b):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        break
                elif isinstance(x, SNum) and isinstance(y, SNum) and x.is_int == y.is_int:
                    conj.append(x.e == y.e)
                elif z3.is_expr(x) and z3.is_expr(y):
                    conj.append(x == y)
                else:
                    break
            else:
                # aligned: with at most one non-literal part this is exact, otherwise it is sufficient
                if len([1 for x in a if not isinstance(x, str)]) <= 1 and not any(
                        isinstance(x, SNum) for x in a):
                    return z3.And(conj) if conj else z3.BoolVal(True)
                return z3.Or(z3.And(conj), self.expr() == (o.expr() if isinstance(o, SStr) else z3.StringVal(o))) \
                    if not all(z3.is_true(z3.simplify(c)) for c in conj) else z3.BoolVal(True)
        return self.expr() == to_z3(o)

    def __eq__(self, o):
        if isinstance(o, str) and cur().str_class:
            from .relang import may_equal
            if may_equal(cur(), self, o) is False:
                return False
        return mk(self.eq(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk(z3.Not(r.e))

    def __bool__(self):
        if any(isinstance(p, (str, SNum)) for p in self.parts):
            return True
        return cur().branch(self.expr() != z3.StringVal(""))

    def __str__(self):
        raise Unsupported("native str() of symbolic string")

    def __format__(self, spec):
        raise Unsupported("native format of symbolic string")

    def __len__(self):
        raise Unsupported("native len() of symbolic string")

    def __iter__(self):
        raise Unsupported("iteration over symbolic string")

    def __getitem__(self, i):
        raise Unsupported("native index of symbolic string")

    def __repr__(self):
        return "SStr(%s)" % (self.parts,)


def str_repeat(s, n):
    """s * n for a concrete non-empty s and symbolic n: an uninterpreted power with its unfolding."""
    f = z3.Function("strpow_" + s.encode().hex(), z3.IntSort(), z3.StringSort())
    e = to_z3(n)
    c = cur()
    c.assume(z3.Implies(e <= 0, f(e) == z3.StringVal("")))
    c.assume(z3.Implies(e > 0, z3.And(f(e) == z3.Concat(f(e - 1), z3.StringVal(s)),
                                      z3.Length(f(e)) == e * len(s))))
    return SStr((f(e),))


def fmt_num(x, spec):
    f = z3.Function("fmt_" + spec.encode().hex(), z3.RealSort(), z3.StringSort())
    e = to_z3(x)
    return f(z3.ToReal(e) if z3.is_int(e) else e)


def opaque_str(x):
    return z3.FreshConst(z3.StringSort(), "opaque")


# ------------------------------------------------------------------ context

SLOW = float(os.environ.get("PYVC_SLOW", 0))


class Obligation:
    def __init__(self, name):
        self.name = name
        self.vcs = 0
        self.ok = 0
        self.time = 0.0
        self.failed = []   # (status, model text, path)


class Refuted(Exception):
    """an obligation failed with a model while loops were unrolled"""


class Ctx:
    unroll = 0     # run loops iteration by iteration, this many times, instead of cutting them

    def __init__(self, name, budget_s=120, timeout_ms=8000, max_paths=4000):
        self.name = name
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.obls = {}
        self.prefix = []
        self.functions = set()       # functions of /repo executed under this unit
        self.contract_calls = set()  # functions replaced by their contract
        self.assumptions = set()
        self.inlined = set()
        self.followed = set()    # (function, variable): variables unbound at the head of a loop that are read later
        self.site_state = {}     # persistent loop information
        self.dirty = False
        self.proving = False
        self.npaths = 0
        self.nvc = 0
        self.solver_time = 0.0
        self.reached = {}
        self.sub = 0
        self.cand_gens = []
        self.unknowns = 0

    # ---- run management
    def begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.alts = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.counter = {}
        self.bases = []
        self.empty_filters = []
        self.on_witness = []
        self.cur_k = {}           # index of the element of a base met last: by a loop over it or else by index
        self.for_loops = set()
        self.str_hooks = {}
        self.recs = []
        self.sort_hook = None
        self.ref_kinds = {}
        self.optional_refs = False
        self.str_class = {}
        self.vseq_src = {}
        self.writes = []
        self.read_guards = []
        self.tags = {}
        self.clock = 0
        self.serials = {}
        self.keep = {}
        self.measures = {}
        self.heap_version = 0
        self.cuts = 0             # loops cut by an invariant on this path
        self.probe = 0
        self.loop_stack = []
        self.call_stack = []
        self.trace = []
        self.contracts = {}
        self.invariants = []
        self.weak = False         # a loop was passed for which the invariants of the harness have no form
        self.set_model = None
        self.dict_model = None
        self.atan_terms = []
        self.sqrt_terms = []
        self.recursion = None     # contract of a recursive call: (function, args, kwargs) -> result or NotImplemented
        self.depth = 0

    def small(self):
        """the indices met when loops are unrolled"""
        return [z3.IntVal(i) for i in range(self.unroll + 1)] if self.unroll else []

    def fresh_name(self, p):
        n = self.counter.get(p, 0)
        self.counter[p] = n + 1
        return "%s!%d" % (p, n)

    def fresh(self, p, sort):
        return z3.Const(self.fresh_name(p), sort)

    def real(self, p="r"):
        return SNum(self.fresh(p, z3.RealSort()))

    def int(self, p="i"):
        return SNum(self.fresh(p, z3.IntSort()))

    def bool(self, p="b"):
        return SBool(self.fresh(p, z3.BoolSort()))

    def str(self, p="s"):
        return SStr((self.fresh(p, z3.StringSort()),))

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget of the unit exhausted")

    def assume(self, f):
        f = to_z3(f)
        self.pc.append(f)
        self.solver.add(f)

    def check(self, *extra):
        self.tick()
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        if SLOW and time.time() - t > SLOW:
            print("SLOW %.1fs %s path=%s npc=%d %s" % (time.time() - t, r, self.taken, len(self.pc),
                                                       [str(x)[:300] for x in extra]), flush=True)
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def feasible(self, f):
        return self.check(f) != z3.unsat

    def branch(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.probe:
            raise ProbeSymbolic()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            if d in (0, 1) or not self.proving:
                # forced decisions (2/3) need no assumption, unless invariants were dropped since
                self.assume(f if d in (1, 3) else z3.Not(f))
            return d in (1, 3)
        ft = self.feasible(f)
        ff = self.feasible(z3.Not(f))
        self.pos += 1
        if ft and ff:
            self.alts.append(self.taken + [0])
            self.taken.append(1)
            self.assume(f)
            return True
        if ft:
            self.taken.append(3)
            return True
        if ff:
            self.taken.append(2)
            return False
        raise PathEnd("infeasible")

    def choose(self, n, label=""):
        """Nondeterministic choice explored exhaustively."""
        if n == 1:
            return 0
        if self.probe:
            raise ProbeSymbolic()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            return d - 10
        self.pos += 1
        for i in range(1, n):
            self.alts.append(self.taken + [10 + i])
        self.taken.append(10)
        return 0

    def reach(self, label):
        """Vacuity guard: the label must be reached on some feasible path."""
        if self.sub:
            return
        if not self.reached.get(label):
            self.reached[label] = self.check() == z3.sat or self.check() == z3.unknown

    def prove(self, name, f, hint=None, forget=False):
        """Obligation: f holds on this path."""
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = to_z3(f)
        if not self.proving:
            if not forget:
                self.assume(f)
            return True
        o = self.obls.setdefault(name, Obligation(name))
        o.vcs += 1
        self.nvc += 1
        for b in self.bases if self.unroll else ():
            for k in self.small():
                b.at(k)
        t = time.time()
        r = self.check(z3.Not(f))
        if r == z3.unknown:
            r = self.second_opinion(f)
        if r == z3.sat and self.str_class:
            r = self.recheck_texts(f)
        if r == z3.sat and self.weak:
            r = z3.unknown
        o.time += time.time() - t
        if r == z3.unsat:
            o.ok += 1
        else:
            model = None
            mt = ""
            if r == z3.sat:
                try:
                    model = self.solver.model()
                    mt = str(model)[:2000]
                except z3.Z3Exception:
                    model = None
            o.failed.append({"status": str(r), "model": mt, "path": list(self.taken),
                             "formula": str(f)[:1500], "trace": list(self.trace)[-30:], "cut": self.cuts > 0,
                             "values": hint(model) if hint and model is not None else None})
            if self.unroll and r == z3.sat:
                raise Refuted()
        if not forget:
            self.assume(f)
        return r == z3.unsat

    def recheck_texts(self, f):
        """a refutation must also satisfy the languages of the classified texts"""
        s = z3.Solver()
        s.set("timeout", self.timeout_ms * 2)
        s.add(*self.pc)
        s.add(z3.Not(f))
        for t, r in self.str_class.values():
            s.add(z3.InRe(t, r))
        r = s.check()
        if r == z3.sat:
            self.solver = s
        return r

    def second_opinion(self, f):
        """Another solver configuration, then cvc5 on the SMT-LIB text."""
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", self.timeout_ms * 2)
        s.set("smt.arith.solver", 2)
        s.add(*self.pc)
        s.add(z3.Not(f))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        if r == z3.sat:
            self.solver = s
            return r
        if r == z3.unsat:
            return r
        import shutil, subprocess
        if shutil.which("cvc5"):
            t = time.time()
            try:
                txt = s.to_smt2()
                p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % (self.timeout_ms * 2), "-"],
                                   input="(set-logic ALL)\n" + txt, capture_output=True, text=True,
                                   timeout=self.timeout_ms / 250)
                if p.stdout.strip().startswith("unsat"):
                    self.solver_time += time.time() - t
                    return z3.unsat
            except Exception:
                pass
            self.solver_time += time.time() - t
        return z3.unknown

    def valid(self, f):
        f = z3.simplify(to_z3(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.check(z3.Not(f)) == z3.unsat


def explore(ctx, harness, verbose=False):
    """Explore all paths until the loop information is stable, then prove."""
    global CUR
    CUR = ctx
    try:
        passes = 0
        while True:
            passes += 1
            if passes > 60:
                raise Unsupported("loop invariants do not stabilise")
            ctx.dirty = False
            ctx.proving = False
            _pass(ctx, harness)
            if not ctx.dirty:
                break
        ctx.proving = True
        ctx.obls = {}
        ctx.reached = {}
        ctx.nvc = 0
        n0 = ctx.npaths
        _pass(ctx, harness)
        ctx.npaths -= n0
        if ctx.dirty:
            raise Unsupported("loop information unstable in proving pass")
        ctx.passes = passes + 1
    finally:
        CUR = None


def refute(ctx, harness):
    """Look for a failing path with at most ctx.unroll iterations of each loop: no invariant is involved, so that a
    failure is one of the code. True: found one; False: there is none within the bound."""
    global CUR
    CUR = ctx
    try:
        for _ in range(20):
            ctx.dirty = False
            ctx.proving = True
            ctx.obls = {}
            ctx.reached = {}
            _pass(ctx, harness)
            if not ctx.dirty:
                return False
        raise Unsupported("unrolling does not stabilise")
    except Refuted:
        return True
    finally:
        CUR = None


def _pass(ctx, harness):
    stack = [[]]
    while stack:
        prefix = stack.pop()
        ctx.npaths += 1
        if ctx.npaths > ctx.max_paths * 40:
            raise Budget("too many paths")
        ctx.begin(prefix)
        try:
            harness(ctx)
        except PathEnd:
            pass
        except Dirty:
            ctx.dirty = True
            return
        stack.extend(ctx.alts)
        if len(stack) > ctx.max_paths:
            raise Budget("too many paths")


# ---- heap bookkeeping and small helpers (methods of Ctx kept here for readability)
def _register(self, obj, tag="obj"):
    self.clock += 1
    n = self.tags.get(tag, 0)
    self.tags[tag] = n + 1
    key = "%s#%d" % (tag, n)
    self.keep[key] = obj
    self.serials[id(obj)] = (key, self.clock)
    return key


def _serial(self, obj):
    r = self.serials.get(id(obj))
    if r is None:
        tag = "ext:" + type(obj).__name__
        n = self.tags.get(tag, 0)
        self.tags[tag] = n + 1
        key = "%s#%d" % (tag, n)
        self.keep[key] = obj
        r = self.serials[id(obj)] = (key, 0)
    return r[0]


def _birth(self, obj):
    r = self.serials.get(id(obj))
    return 0 if r is None else r[1]


def _obj_of(self, serial):
    r = self.keep.get(serial)
    if r is None:
        raise Unsupported("unknown object %s" % serial)
    return r


def _note_write(self, obj, attr, heap=True):
    if heap:
        self.heap_version += 1
    self.writes.append((self.birth(obj), obj, attr, heap))
    for fr in self.loop_stack:
        if self.birth(obj) <= fr.clock:
            # a location of before the loop: modified by the loop if an iteration that writes it comes to its end
            key = (self.serial(obj), attr)
            if key not in fr.site["mod"] and key not in fr.pending:
                fr.pending.append(key)


def _summarize(self, fn, *args):
    """All outcomes of a pure function on the current path: list of (condition, value)."""
    outs = []
    stack = [[]]
    saved = (self.prefix, self.pos, self.taken, self.alts, self.pc, self.heap_version)
    n_pc = len(self.pc)
    born, nwr = self.clock, len(self.writes)
    while stack:
        pre = stack.pop()
        self.prefix, self.pos, self.taken, self.alts = pre, 0, [], []
        self.pc = list(saved[4])
        self.solver.push()
        self.sub += 1
        try:
            v = fn(*args)
            conds = self.pc[n_pc:]
            outs.append((z3.And(*conds) if conds else z3.BoolVal(True), v))
        except PathEnd:
            pass
        finally:
            self.sub -= 1
            self.solver.pop()
            stack.extend(self.alts)
    if any(b <= born and h for b, o, at, h in self.writes[nwr:]):
        raise Unsupported("summarised code writes to the heap")
    (self.prefix, self.pos, self.taken, self.alts, self.pc, _) = saved
    return outs


def _summarize_bool(self, fn, *args):
    outs = self.summarize(fn, *args)
    fs = []
    for c, v in outs:
        if isinstance(v, (bool, SBool)):
            fs.append(z3.And(c, to_z3(v)))
        elif v is None:
            pass
        else:
            raise Unsupported("summary is not boolean")
    return z3.Or(*fs) if fs else z3.BoolVal(False)


for _n, _f in list(globals().items()):
    if _n in ("_register", "_serial", "_birth", "_obj_of", "_note_write", "_summarize",
              "_summarize_bool"):
        setattr(Ctx, _n[1:], _f)
Ctx.literals = frozenset()
