"""Verification-condition generator: symbolic execution of LLVM IR with contracts.

Integers are mathematical with exact modular wrap-around; floating point is modelled by real arithmetic (a reported assumption);
memory is a set of disjoint objects with scalar cells or symbolic-length strided element arrays (SMT arrays)."""
import itertools
import re
import sys
import time
from fractions import Fraction

import z3

from poly import Ring, TooBig

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class NeedCut(Exception):
    def __init__(self, key):
        self.key = key


class Dirty(Exception):
    pass


class TooMany(Exception):
    pass


# ------------------------------------------------------------------ values
class IV:
    __slots__ = ('w', 'u', 's', 'prov', 'b', 'cat')

    def __init__(self, w, u=None, s=None, prov=None, b=None, cat=None):
        self.w, self.u, self.s, self.prov, self.b, self.cat = w, u, s, prov, b, cat

    def U(self):
        if self.u is None:
            if self.cat is not None:
                t, sh = 0, 0
                for p in self.cat:
                    t = iadd(t, imul(p.U(), 1 << sh))
                    sh += p.w
                self.u = t
                return t
            s = self.s
            if isinstance(s, int):
                self.u = s % (1 << self.w)
            else:
                self.u = z3.If(s < 0, s + (1 << self.w), s)
        return self.u

    def S(self):
        if self.s is None:
            u = self.U()
            if isinstance(u, int):
                self.s = u - (1 << self.w) if u >= (1 << (self.w - 1)) else u
            else:
                self.s = z3.If(u >= (1 << (self.w - 1)), u - (1 << self.w), u)
        return self.s

    def const(self):
        if isinstance(self.u, int):
            return self.u
        if isinstance(self.s, int):
            return self.s % (1 << self.w)
        return None

    def __repr__(self):
        return 'IV%d(u=%s,s=%s)' % (self.w, self.u, self.s)


class Lin:
    """const + sum coeff*term"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}

    def add(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        t = dict(self.t)
        for k, (x, c) in o.t.items():
            if k in t:
                nc = t[k][1] + c
                if nc == 0:
                    del t[k]
                else:
                    t[k] = (x, nc)
            else:
                t[k] = (x, c)
        return Lin(self.c + o.c, t)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {i: (x, c * k) for i, (x, c) in self.t.items()})

    def isconst(self):
        return not self.t

    def term(self):
        r = self.c
        for x, c in self.t.values():
            r = iadd(r, imul(x, c))
        return r

    def __repr__(self):
        return 'Lin(%s,%s)' % (self.c, list(self.t.values()))


def lin_of(term):
    """linear decomposition of an Int term or python int"""
    if isinstance(term, int):
        return Lin(term)
    if z3.is_int_value(term):
        return Lin(term.as_long())
    d = term.decl().kind()
    if d == z3.Z3_OP_ADD:
        r = Lin(0)
        for c in term.children():
            r = r.add(lin_of(c))
        return r
    if d == z3.Z3_OP_SUB:
        ch = term.children()
        r = lin_of(ch[0])
        for c in ch[1:]:
            r = r.add(lin_of(c).scale(-1))
        return r
    if d == z3.Z3_OP_UMINUS:
        return lin_of(term.arg(0)).scale(-1)
    if d == z3.Z3_OP_MUL and term.num_args() == 2:
        a, b = term.children()
        if z3.is_int_value(a):
            return lin_of(b).scale(a.as_long())
        if z3.is_int_value(b):
            return lin_of(a).scale(b.as_long())
    return Lin(0, {term.get_id(): (term, 1)})


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class Raw:
    """pointer given by an integer address term"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return 'Raw(%s)' % self.a


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


NULL = Raw(0)


class Agg:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals


# ------------------------------------------------------------------ term helpers with folding
def isc(x):
    return isinstance(x, (int, Fraction))


def iadd(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return a + b


def isub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    return a - b


def imul(a, b):
    if isc(a) and isc(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x == 0:
                return 0
            if x == 1:
                return y
    return a * b


def rc(x):
    """python real constant to z3"""
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, int):
        return z3.RealVal(x)
    return x


def radd(a, b):
    if isc(a) and isc(b):
        return Fraction(a) + b
    if isc(a):
        return b if a == 0 else rc(a) + b
    if isc(b):
        return a if b == 0 else a + rc(b)
    return a + b


def rneg(a):
    return -a


def rsub(a, b):
    if isc(a) and isc(b):
        return Fraction(a) - b
    if isc(a):
        return -b if a == 0 else rc(a) - b
    if isc(b):
        return a if b == 0 else a - rc(b)
    if a.eq(b):
        return Fraction(0)
    return a - b


def rmul(a, b):
    if isc(a) and isc(b):
        return Fraction(a) * b
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
            return rc(x) * y
    return a * b


def rdiv(a, b):
    if isc(b):
        if b == 0:
            raise Unsupported("division by literal zero")
        return rmul(a, Fraction(1) / b)
    if isc(a) and a == 0:
        return rc(Fraction(0)) / b
    return rc(a) / b


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def cmp(op, a, b):
    if isc(a) and isc(b):
        return bool(CMP[op](a, b))
    if isinstance(a, Fraction):
        a = rc(a)
    if isinstance(b, Fraction):
        b = rc(b)
    if not isc(a) and not isc(b) and a.eq(b):
        return op in ('eq', 'le', 'ge')
    return CMP[op](a, b)


def bnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        return a if a == b else (c if a else bnot(c))
    if isc(a) and isc(b) and a == b and not isinstance(a, bool):
        return a
    if isinstance(a, (Fraction,)) or isinstance(b, Fraction):
        a, b = rc(a), rc(b)
    if isinstance(a, int) and not isinstance(a, bool) and not isc(b) and z3.is_real(b):
        a = rc(a)
    if isinstance(b, int) and not isinstance(b, bool) and not isc(a) and z3.is_real(a):
        b = rc(b)
    if not isinstance(a, (bool, int, Fraction)) and not isinstance(b, (bool, int, Fraction)) and a.eq(b):
        return a
    if isinstance(a, int) and isinstance(b, int):
        return z3.If(c, z3.IntVal(a), z3.IntVal(b))
    return z3.If(c, a, b)


_consts_cache = {}


def consts_of(t):
    i = t.get_id()
    r = _consts_cache.get(i)
    if r is not None:
        return r[1]
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name() if x.num_args() else x.decl().name())
            stack.extend(x.children())
    _consts_cache[i] = (t, out)
    return out


# ------------------------------------------------------------------ memory objects
class Obj:
    __slots__ = ('id', 'name', 'size', 'stride', 'cells', 'arrs', 'lazy', 'freed', 'owner', 'ver', 'kind', 'ro', 'input', 'count', 'iname')

    def clone(self, owner):
        o = Obj()
        o.id, o.name, o.size, o.stride = self.id, self.name, self.size, self.stride
        o.cells, o.arrs = dict(self.cells), dict(self.arrs)
        o.lazy, o.freed, o.owner, o.ver, o.kind, o.ro, o.input, o.count = self.lazy, self.freed, owner, self.ver, self.kind, self.ro, self.input, self.count
        o.iname = self.iname
        return o


def tykey(ty):
    if ty.k == 'int':
        return 'i%d' % ty.w
    if ty.k in ('double', 'float', 'ptr'):
        return {'double': 'f64', 'float': 'f32', 'ptr': 'ptr'}[ty.k]
    raise Unsupported('memory access of type %r' % ty)


def keysize(k):
    return {'f64': 8, 'f32': 4, 'ptr': 8}.get(k) or (int(k[1:]) + 7) // 8


def keysort(k):
    return z3.RealSort() if k[0] == 'f' else z3.IntSort()


SIGNED = ('i32', 'i16')  # canonical stored form is signed for these widths


class Frame:
    __slots__ = ('fn', 'env', 'bi', 'ii', 'prev', 'ret', 'args', 'allocas', 'cuts', 'post')

    def copy(self):
        f = Frame()
        f.fn, f.env, f.bi, f.ii, f.prev, f.ret, f.args = self.fn, dict(self.env), self.bi, self.ii, self.prev, self.ret, self.args
        f.allocas = list(self.allocas)
        f.cuts = dict(self.cuts)
        f.post = self.post
        return f


class State:
    _n = itertools.count()

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.flat = {}
        self.token = next(State._n)
        self.globs = {}
        self.ctr = {}
        self.spec = False
        self.active = []   # active loop cuts: (depth, key, body, objs existing)
        self.inputs = []
        self.trace = []
        self.steps = 0
        self.hits = {}
        self.br = []

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.flat = dict(self.flat)
        s.globs = dict(self.globs)
        s.ctr = dict(self.ctr)
        s.spec = self.spec
        s.active = list(self.active)
        s.inputs = list(self.inputs)
        s.trace = list(self.trace)
        s.steps = self.steps
        s.hits = dict(self.hits)
        s.br = list(self.br)
        self.token = next(State._n)   # both sides must copy on write now
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.token:
            o = o.clone(self.token)
            self.mem[oid] = o
        return o


def int_consts(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def implied_equal(pc, i, j):
    out = []
    for u in int_consts(i):
        for v in int_consts(j):
            if u.eq(v) or len(out) >= 1:
                continue
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*[c for c in pc if not nonlinear_real(c)])
            s.add(u != v)
            if s.check() == z3.unsat:
                out.append((u, v))
    return out


def nonlinear_real(c):
    todo, seen = [c], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_mul(x) and z3.is_real(x):
            return True
        if not z3.is_quantifier(x):
            todo += x.children()
    return False


def store_pair(g):
    """indices (i, j) of a read at j of an array written at i in g, when their equality is open"""
    seen, stack = set(), [g]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_SELECT:
                a, j = e.arg(0), e.arg(1)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                    i = a.arg(1)
                    if not i.eq(j) and not (z3.is_int_value(i) and z3.is_int_value(j)):
                        return i, j
            stack.extend(e.children())
    return None


def select_case(g, i, j, equal):
    """g with every read at j of an array written at i replaced by the written value or by the read of the array before"""
    subs, seen, stack = [], set(), [g]
    while stack:
        e = stack.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_SELECT and e.arg(1).eq(j) and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_STORE and e.arg(0).arg(1).eq(i):
                subs.append((e, e.arg(0).arg(2) if equal else z3.Select(e.arg(0).arg(0), j)))
            stack.extend(e.children())
    return z3.simplify(z3.substitute(g, *subs)) if subs else g


def occurs(a, b):
    seen, stack = set(), [b]
    while stack:
        e = stack.pop()
        if e.eq(a):
            return True
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            stack.extend(e.children())
    return False


def square_like(e):
    """some side of the equation contains the square of a constant"""
    seen, stack = set(), list(e.children())
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL and x.num_args() >= 2:
            ch = x.children()
            if any(ch[i].eq(ch[j]) for i in range(len(ch)) for j in range(i)):
                return True
        if k == z3.Z3_OP_POWER:
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            stack.extend(x.children())
    return False


class Ob:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'where', 'status', 'backend', 'time', 'model', 'inputs', 'reason', 'trace')


M64 = 1 << 64


class Exec:
    def __init__(self, mod, harness, meta, opts=None):
        self.mod = mod
        self.harness = harness
        self.meta = meta          # stubs, invs, ...
        self.opts = dict(feas_ms=150, inproc_ms=400, max_paths=4000, max_steps=4000000, unroll=64, deadline=None, fdiv0=False)
        self.opts.update(opts or {})
        self.cuts = {}            # (fn, header) -> dict(inv=, match=, writes=set())
        self.cutorder = []
        self.reset()

    def reset(self):
        State._n = itertools.count()
        self.obs = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts['feas_ms'])
        self.solver.set('mbqi', False)
        if self.opts.get('nonra'):
            self.solver.set('arith.nl.nra', False)
        self.sstack = []
        self.done = 0
        self.obj_ids = itertools.count(1)
        self.names = {}
        self.nbranch = 0
        self.nbranch_pruned = 0
        self.nexact = 0
        self.warn = set()
        self.covers = {}
        self.functions = set()
        self.stubs_used = set()
        self.sqrt_cache = {}
        self.endstates = 0
        self.dirty = False
        self.solver_time = 0.0
        self.bounded = self.opts.get('bounded')
        self.havoced = {}
        self.assert_memo = {}
        self.inproc_ok = 0
        self.quant = []
        self.qfacts = []
        self.rings = {}
        self.ring_eq = {}
        self.layouts = {}

    # -------------------------------------------------- solver
    def nonlinear(self, t):
        return False

    def sync(self, pc):
        st = self.sstack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.solver.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(self.nlabs(c))
            st.append(c)

    def nlabs(self, t):
        """for the in-process solver only (path pruning, cheap obligations): products of two unknowns become uninterpreted"""
        if not self.opts.get('nl') or isinstance(t, bool):
            return t
        memo = self.__dict__.setdefault('nlmemo', {})
        MUL = z3.Function('nl*', z3.RealSort(), z3.RealSort(), z3.RealSort())
        DIV = z3.Function('nl/', z3.RealSort(), z3.RealSort(), z3.RealSort())

        def go(e):
            k = e.get_id()
            if k in memo:
                return memo[k][1]
            if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0:
                r = e
            else:
                ch = [go(x) for x in e.children()]
                kd = e.decl().kind()
                if kd == z3.Z3_OP_MUL and e.sort() == z3.RealSort():
                    nums = [x for x in ch if z3.is_rational_value(x)]
                    syms = sorted([x for x in ch if not z3.is_rational_value(x)], key=lambda x: x.get_id())
                    if len(syms) >= 2:
                        r = syms[0]
                        for x in syms[1:]:
                            r = MUL(r, x)
                        for x in nums:
                            r = x * r
                    else:
                        r = e.decl()(*ch)
                elif kd == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
                    r = DIV(*ch)
                elif kd == z3.Z3_OP_POWER:
                    r = MUL(ch[0], ch[0])
                else:
                    r = e.decl()(*ch) if any(not x.eq(y) for x, y in zip(ch, e.children())) else e
            memo[k] = (e, r)
            return r
        return go(t)

    def check(self, st, extra, ms=None):
        extra = self.nlabs(extra)
        """sat / unsat / unknown of pc and extra"""
        if extra is False:
            return z3.unsat
        if self.opts.get('nl') and extra is not True and self.sign_clash(st, extra):
            return z3.unsat
        t0 = time.time()
        self.sync(st.pc)
        ms = ms or self.opts['feas_ms']
        # the decision is by deterministic resource use; the wall-clock limit only cuts off a loaded machine
        self.solver.set('timeout', ms * 2)
        self.solver.set('rlimit', ms * 3000)
        r = self.solver.check(extra) if extra is not True else self.solver.check()
        self.solver_time += time.time() - t0
        if self.opts['deadline'] and time.time() > self.opts['deadline']:
            raise Unsupported('deadline reached during symbolic execution')
        return r

    def proved(self, st, cond, ms=None):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c) and not st.pc:
            return False
        return self.check(st, z3.Not(c), ms) == z3.unsat

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        st.pc.append(c)

    def ring(self, st):
        """polynomials modulo the squares known on this path"""
        key, eqs = [], []
        for c in st.pc:
            t = self.ring_eq.get(c.get_id())
            if t is None:
                l = [c]
                if z3.is_implies(c):
                    l = []
                todo, t = l, []
                while todo:
                    e = todo.pop()
                    if z3.is_and(e):
                        todo += e.children()
                    elif z3.is_eq(e) and z3.is_real(e.arg(0)) and square_like(e):
                        t.append(e)
                t = (c, t)
                self.ring_eq[c.get_id()] = t
            for e in t[1]:
                key.append(e.get_id())
                eqs.append(e)
        key = tuple(key)
        r = self.rings.get(key)
        if r is None:
            r = Ring()
            for e in eqs:
                r.add_rule(e.arg(0), e.arg(1))
            self.rings[key] = r
            r.signs = {}
            r.nonzero = {}
        return r

    def sign_of(self, R, c):
        """(p, signs): c says that the polynomial p has one of these signs; None for other conditions"""
        k = c.get_id()
        if k in R.signs:
            return R.signs[k][1]
        r, e, neg = None, c, False
        if z3.is_not(e):
            e, neg = e.arg(0), True
        op = z3.is_app(e) and {z3.Z3_OP_LE: '-0', z3.Z3_OP_LT: '-', z3.Z3_OP_GE: '0+', z3.Z3_OP_GT: '+', z3.Z3_OP_EQ: '0'}.get(e.decl().kind())
        if op and e.num_args() == 2 and z3.is_real(e.arg(0)):
            if neg:
                op = ''.join(x for x in '-0+' if x not in op)
            try:
                d = R.add(R.of(e.arg(0)), R.of(e.arg(1)), -1)
                if d:
                    lead = d[min(d)]
                    d = R.add({}, d, 1 / abs(lead))
                    if lead < 0:
                        d, op = R.add({}, d, -1), ''.join({'-': '+', '+': '-', '0': '0'}[x] for x in op)
                    r = (frozenset(d.items()), op)
                else:
                    r = (frozenset(), op)
            except TooBig:
                r = None
        R.signs[k] = (c, r)
        return r

    def sign_clash(self, st, extra):
        if not z3.is_expr(extra):
            return False
        R = self.ring(st)
        a = self.sign_of(R, extra)
        if a is None:
            return False
        if not a[0]:
            return '0' not in a[1]
        left = set(a[1])
        for c in st.pc:
            b = self.sign_of(R, c)
            if b is not None and b[0] == a[0]:
                left &= set(b[1])
        return not left

    def identity(self, st, goal):
        """the goal is a conjunction of polynomial identities modulo known squares, up to multiplication by divisors that are not zero"""
        todo = [goal]
        while todo:
            g = todo.pop()
            if isinstance(g, bool):
                if not g:
                    return False
            elif z3.is_and(g):
                todo += g.children()
            elif z3.is_eq(g) and z3.is_real(g.arg(0)):
                if not self.vanishes(st, self.settle(st, g.arg(0) - g.arg(1))):
                    return False
            elif z3.is_expr(g) and self.opts.get('nl') and self.sign_clash(st, z3.Not(g)):
                pass
            elif not z3.is_true(g):
                return False
        return True

    def settle(self, st, t):
        """t without the alternatives whose condition the path has decided"""
        if not self.opts.get('nl'):
            return t
        subs, seen, stack = [], set(), [t]
        while stack:
            e = stack.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            if e.decl().kind() == z3.Z3_OP_ITE:
                if self.sign_clash(st, e.arg(0)):
                    subs.append((e, e.arg(2)))
                elif self.sign_clash(st, z3.Not(e.arg(0))):
                    subs.append((e, e.arg(1)))
            stack.extend(e.children())
        return z3.substitute(t, *subs) if subs else t

    def vanishes(self, st, d):
        R = self.ring(st)
        try:
            p = R.of(d)
            for _ in range(6):
                if not p:
                    return True
                dv = R.divisors(p)
                if not dv:
                    return False
                a = dv[-1]
                if a not in R.nonzero:
                    R.nonzero[a] = self.check(st, R.inv_src[a] == 0, 1000) == z3.unsat
                if not R.nonzero[a]:
                    return False
                p = R.clear(p, a)
        except TooBig:
            pass
        return False

    # -------------------------------------------------- obligations
    def oblige(self, st, goal, name, kind, where=None):
        if st.spec:
            return
        if goal is True:
            o = self._ob(st, goal, name, kind, where)
            o.status, o.backend = 'proved', 'const'
            return
        where = where or self.where(st)
        if goal is not False:
            g = z3.simplify(goal)
            if z3.is_true(g):
                o = self._ob(st, goal, name, kind, where)
                o.status, o.backend = 'proved', 'simplify'
                return
            if kind == 'assert' and self.identity(st, goal):
                o = self._ob(st, goal, name, kind, where)
                o.status, o.backend = 'proved', 'polynomial identity'
                return
            if kind in ('bounds', 'overflow', 'null', 'divzero'):
                key = (tuple(c.get_id() for c in st.pc), g.get_id())
                if key in self.assert_memo:
                    return
                self.assert_memo[key] = (g, list(st.pc))
        o = self._ob(st, goal, name, kind, where)
        t0 = time.time()
        r = self.check(st, z3.Not(goal) if goal is not False else True, self.opts['inproc_ms'])
        o.time = time.time() - t0
        if r == z3.unsat:
            o.status, o.backend = 'proved', 'z3-inc'
        else:
            o.status = 'open'
            o.pc = list(st.pc)
            if goal is not False:
                self.by_cases(o)
            if goal is not False and kind not in ('assert',):
                st.pc.append(goal)

    def by_cases(self, o):
        """an element is read from an array after a write to another index: one case for equal and one for different indices"""
        t0 = time.time()
        cases, left = [(list(o.pc), o.goal, 0)], []
        while cases:
            pc, g, depth = cases.pop()
            pr = store_pair(g)
            if pr is None or depth >= 4 or time.time() - t0 > 6:
                if depth == 0:
                    return
                g = z3.simplify(g, som=True)
                if z3.is_true(g):
                    continue
                s = z3.Solver()
                s.set('timeout', 1500)
                s.add(*pc)
                s.add(z3.Not(g))
                if s.check() != z3.unsat:
                    left.append((pc, g))
                continue
            i, j = pr
            if z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                a, b = i, j
            else:
                a, b = j, i
            eq = a == b
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(a, b):
                cases.append(([z3.simplify(z3.substitute(c, (a, b))) for c in pc] , z3.simplify(z3.substitute(g, (a, b))), depth + 1))
            else:
                g1, pc1 = select_case(g, i, j, True), pc + [eq]
                # the indices are terms over two variables: are these equal too?
                for u, v in implied_equal(pc1, i, j):
                    g1, pc1 = z3.simplify(z3.substitute(g1, (u, v))), [z3.simplify(z3.substitute(c, (u, v))) for c in pc1]
                cases.append((pc1, g1, depth + 1))
            cases.append((pc + [z3.Not(eq)], select_case(g, i, j, False), depth + 1))
        o.time += time.time() - t0
        if not left:
            o.status, o.backend = 'proved', 'z3-cases'
        elif len(left) == 1:
            o.pc, o.goal = left[0]

    def _ob(self, st, goal, name, kind, where):
        o = Ob()
        o.name, o.kind, o.goal, o.where = name, kind, goal, where or self.where(st)
        o.pc, o.status, o.backend, o.time, o.model, o.reason = None, None, None, 0.0, None, None
        o.inputs = list(st.inputs)
        o.trace = None
        self.obs.append(o)
        return o

    def where(self, st):
        for f in reversed(st.frames):
            b = f.fn.blocks[f.bi]
            ins = b.insts[min(f.ii, len(b.insts) - 1)]
            if ins.line and ins.file and not ins.file.startswith('vc'):
                return '%s:%d' % (ins.file, ins.line)
        return '?'

    # -------------------------------------------------- fresh
    def fresh(self, st, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return '%s!%d' % (name, n) if n else name

    def fresh_key(self, st, key, name, uniq=True):
        nm = self.fresh(st, name) if uniq else name
        return self.named_key(st, key, nm)

    def named_key(self, st, key, nm):
        if key[0] == 'f':
            return z3.Real(nm)
        if key == 'ptr':
            t = z3.Int(nm)
            self.fact(st, z3.And(t >= 0, t < (1 << 63)))
            return Raw(t)
        w = int(key[1:])
        if w == 1:
            return z3.Bool(nm)
        t = z3.Int(nm)
        if key in SIGNED:
            self.fact(st, z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1))))
            return IV(w, s=t)
        self.fact(st, z3.And(t >= 0, t < (1 << w)))
        return IV(w, u=t)

    def fact(self, st, f):
        """a definitional fact; in spec mode it is collected for the parent state"""
        if self.quant and any(v.decl().name() in consts_of(f) for v in self.quant):
            self.qfacts.append(f)
            return
        st.pc.append(f)


    # -------------------------------------------------- objects
    def new_obj(self, st, name, size, kind='obj', lazy=True):
        o = Obj()
        o.id = next(self.obj_ids)
        if st.spec:
            o.name = self.fresh(st, 'spec:' + name)
        else:
            n = st.ctr.get(name, 0)
            st.ctr[name] = n + 1
            o.name = '%s#%d' % (name, n) if n else name
        o.iname = o.name
        o.size, o.stride, o.cells, o.arrs = size, None, {}, {}
        o.lazy, o.freed, o.owner, o.ver, o.kind, o.ro, o.input, o.count = lazy, False, st.token, 0, kind, False, None, None
        st.mem[o.id] = o
        return o

    def base(self, st, oid):
        o = st.mem[oid]
        nm = '&' + o.name
        b = z3.Int(nm)
        if nm not in st.hits:
            st.hits[nm] = 1
            sz = o.size if o.size is not None else 1
            st.pc.append(z3.And(b >= 4096, b % 16 == 0, b + sz < (1 << 62)))
        return b

    def addr(self, st, p):
        """integer address of a pointer"""
        if isinstance(p, Raw):
            return p.a
        if isinstance(p, Ptr):
            if not self.proved_nonneg_bases(st):
                pass
            return iadd(self.base(st, p.obj), p.off.term())
        if isinstance(p, FnPtr):
            b = z3.Int('&fn:' + p.name)
            return b
        raise Unsupported('address of %r' % (p,))

    def proved_nonneg_bases(self, st):
        return True

    # canonical stored term of a value for SMT arrays
    def to_term(self, st, v, key):
        if key[0] == 'f':
            return rc(v)
        if key == 'ptr':
            a = self.addr(st, v) if not isinstance(v, IV) else v.U()
            return z3.IntVal(a) if isinstance(a, int) else a
        if isinstance(v, bool) or z3.is_expr(v) and z3.is_bool(v):
            v = IV(1, u=ite(v, 1, 0))
        if isinstance(v, (Ptr, Raw)):
            a = self.addr(st, v)
            return z3.IntVal(a) if isinstance(a, int) else a
        t = v.S() if key in SIGNED else v.U()
        return z3.IntVal(t) if isinstance(t, int) else t

    def from_term(self, st, t, key):
        if key[0] == 'f':
            return Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else t
        if z3.is_int_value(t):
            t = t.as_long()
        if key == 'ptr':
            return self.resolve(st, t)
        w = int(key[1:])
        if w == 1:
            return cmp('ne', t, 0)
        if key in SIGNED:
            return IV(w, s=t)
        return IV(w, u=t)

    def resolve(self, st, t):
        if isinstance(t, int):
            return Raw(t)
        l = lin_of(t)
        for k, (x, c) in l.t.items():
            if c == 1 and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith('&'):
                    for oid, o in st.mem.items():
                        if '&' + o.name == n:
                            rest = Lin(l.c, {kk: vv for kk, vv in l.t.items() if kk != k})
                            return Ptr(oid, rest)
        return Raw(t)

    def facts_of_select(self, st, t, key):
        if key[0] == 'f':
            return
        if key == 'ptr':
            lo, hi = 0, 1 << 63
        else:
            w = int(key[1:])
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if key in SIGNED else (0, 1 << w)
        if z3.is_int_value(t):
            return
        hk = ('sel', t.get_id())
        if hk in st.hits:
            return
        st.hits[hk] = t
        self.fact(st, z3.And(t >= lo, t < hi))

    # -------------------------------------------------- strided arrays
    def make_strided(self, st, o, stride):
        o.stride = stride
        if stride <= 0:
            raise Unsupported('bad stride')
        old = o.cells
        o.cells = {}
        for off, (sz, key, val) in sorted(old.items()):
            self.arr_store(st, o, off % stride, key, off // stride, val)

    def arr_get(self, st, o, fo, key):
        k = (fo, key)
        a = o.arrs.get(k)
        if a is None:
            if not o.lazy:
                srt = keysort(key)
                a = z3.K(z3.IntSort(), z3.RealVal(0) if key[0] == 'f' else z3.IntVal(0))
            else:
                nm = '%s@%d.%d:%s' % (o.iname, o.ver, fo, key)
                a = z3.Array(nm, z3.IntSort(), keysort(key))
            o = st.wobj(o.id)
            o.arrs[k] = a
        return a

    def distinct(self, st, i, j):
        """i and j are known to differ: two numerals, or the path condition says so literally"""
        if z3.is_int_value(i) and z3.is_int_value(j):
            return not i.eq(j)
        for c in st.pc:
            if z3.is_not(c) and z3.is_eq(c.arg(0)) or z3.is_distinct(c) and c.num_args() == 2:
                a, b = (c.arg(0) if z3.is_not(c) else c).children()
                if (a.eq(i) and b.eq(j)) or (a.eq(j) and b.eq(i)):
                    return True
        return False

    def arr_read(self, st, a, idx):
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            if a.arg(1).eq(idx):
                return a.arg(2)
            if not self.distinct(st, a.arg(1), idx):
                break
            a = a.arg(0)
        t = z3.Select(a, idx)
        return t if z3.is_const(a) else z3.simplify(t)

    def arr_write(self, st, a, idx, v):
        """Store(a, idx, v), without an older value at idx below writes at other indices"""
        over, b = [], a
        while z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE and len(over) < 8:
            if b.arg(1).eq(idx):
                a = b.arg(0)
                for i, w in reversed(over):
                    a = z3.Store(a, i, w)
                break
            if not self.distinct(st, b.arg(1), idx):
                break
            over.append((b.arg(1), b.arg(2)))
            b = b.arg(0)
        return z3.Store(a, idx, v)

    def arr_load(self, st, o, fo, key, idx):
        for (f2, k2) in list(o.arrs):
            if (f2, k2) != (fo, key) and f2 < fo + keysize(key) and fo < f2 + keysize(k2):
                if f2 <= fo and fo + keysize(key) <= f2 + keysize(k2) and k2[0] == 'i' and key[0] == 'i' and (fo, key) not in o.arrs:
                    v = self.arr_load(st, o, f2, k2, idx)
                    return self.extract(v, (fo - f2) * 8, int(key[1:]))
                if (fo, key) not in o.arrs:
                    self.warn.add('overlapping typed access on %s: %s' % (o.name, (fo, key, f2, k2)))
        a = self.arr_get(st, o, fo, key)
        t = self.arr_read(st, a, idx)
        self.facts_of_select(st, t, key)
        return self.from_term(st, t, key)

    def arr_store(self, st, o, fo, key, idx, val):
        o = st.wobj(o.id)
        a = self.arr_get(st, o, fo, key)
        for (f2, k2) in list(o.arrs):
            if (f2, k2) != (fo, key) and f2 < fo + keysize(key) and fo < f2 + keysize(k2):
                # differently typed overlapping view: value becomes unknown at this index
                f = self.fresh_key(st, k2, '%s.ovl' % o.name)
                o.arrs[(f2, k2)] = z3.Store(o.arrs[(f2, k2)], idx, self.to_term(st, f, k2))
        if isinstance(val, IV) and val.cat is not None and key[0] == 'i':
            pos = fo
            for p in val.cat:
                k = 'i%d' % p.w
                self.arr_store(st, o, pos, k, idx, p)
                o = st.wobj(o.id)
                pos += p.w // 8
            return
        o.arrs[(fo, key)] = self.arr_write(st, a, idx, self.to_term(st, val, key))
        self.wrote(st, o, ('arr', fo, key))

    def wrote(self, st, o, loc):
        for a in st.active:
            if o.id in a['objs']:
                w = (a['objs'][o.id], loc)
                ci = self.cuts[a['key']]
                if w not in ci['writes']:
                    ci['writes'].add(w)
                    self.dirty = True

    # -------------------------------------------------- load / store
    def locate(self, st, p, size, what):
        """returns (obj, ('c', off)) or (obj, ('a', fo, idx)); emits bounds obligations"""
        o = st.mem[p.obj]
        if o.freed and not st.spec:
            self.oblige(st, False, '%s of released memory %s' % (what, o.name), 'use-after-free')
        off = p.off
        if off.isconst() and o.stride is None:
            if isinstance(o.size, int):
                if not (0 <= off.c and off.c + size <= o.size):
                    if st.spec:
                        return o, ('oob',)
                    self.oblige(st, False, '%s out of bounds of %s (offset %d size %d of %d)' % (what, o.name, off.c, size, o.size), 'bounds')
                    raise PathEnd()
            elif o.size is not None and not st.spec:
                self.oblige(st, cmp('le', off.c + size, o.size), '%s in bounds of %s' % (what, o.name), 'bounds')
            return o, ('c', off.c)
        if o.stride is None:
            if isinstance(o.size, int) and o.kind != 'array':
                if not all(True for _ in off.t):
                    pass
                raise Concretize(p)
            cs = [abs(c) for x, c in off.t.values()]
            g = min(cs)
            if any(c % g for c in cs):
                raise Unsupported('irregular symbolic offset %r' % off)
            o = st.wobj(o.id)
            self.make_strided(st, o, g)
        s = o.stride
        if any(c % s for x, c in off.t.values()):
            # sub-structure indexed inside the element
            raise Concretize(p)
        fo = off.c % s
        idx = (off.c - fo) // s
        for x, c in off.t.values():
            idx = iadd(idx, imul(x, c // s))
        if fo + size > s:
            raise Unsupported('access straddles elements (%s fo=%d size=%d stride=%d)' % (o.name, fo, size, s))
        if not st.spec and o.size is not None:
            cnt = o.count
            if cnt is None:
                g = band(cmp('ge', idx, 0), cmp('le', iadd(imul(idx, s), fo + size), o.size))
            else:
                g = band(cmp('ge', idx, 0), cmp('lt', idx, cnt))
            self.oblige(st, g, '%s within the bounds of %s' % (what, o.name), 'bounds')
        return o, ('a', fo, z3.IntVal(idx) if isinstance(idx, int) else idx)

    def extract(self, v, bit, w):
        """bits [bit, bit+w) of an integer value"""
        if isinstance(v, IV) and v.cat is not None:
            pos = 0
            out = []
            for p in v.cat:
                if pos >= bit and pos + p.w <= bit + w:
                    out.append(p)
                elif pos < bit + w and bit < pos + p.w:
                    out = None
                    break
                pos += p.w
            if out:
                return out[0] if len(out) == 1 else IV(w, cat=out)
        u = v.U()
        if isinstance(u, int):
            return IV(w, u=(u >> bit) & ((1 << w) - 1))
        t = u
        if bit:
            t = t / (1 << bit)
        if bit + w < v.w:
            t = t % (1 << w)
        return IV(w, u=t)

    def load(self, st, p, ty):
        if ty.k in ('struct', 'array'):
            return self.load_agg(st, p, ty)
        key = tykey(ty)
        sz = ty.size
        if isinstance(p, Raw):
            return self.flat_load(st, p, key)
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        o, loc = self.locate(st, p, sz, 'read')
        if loc[0] == 'oob':
            return self.fresh_key(st, key, 'oob')
        if loc[0] == 'a':
            return self.arr_load(st, o, loc[1], key, loc[2])
        return self.cell_load(st, o, loc[1], key, sz)

    def load_agg(self, st, p, ty):
        out = []
        if ty.k == 'struct':
            for e, off in zip(ty.elems, ty.offs):
                out.append(self.load(st, self.padd(p, off), e))
        else:
            for i in range(ty.n):
                out.append(self.load(st, self.padd(p, i * ty.elems[0].size), ty.elems[0]))
        return Agg(out)

    def padd(self, p, k):
        if isinstance(p, Ptr):
            return Ptr(p.obj, p.off.add(k))
        return Raw(iadd(p.a, k))

    def cell_load(self, st, o, off, key, sz):
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            if c[1] == key:
                return c[2]
            v = c[2]
            if key == 'ptr' and c[1][0] == 'i':
                if isinstance(v, IV) and v.prov is not None:
                    return v.prov
                return self.resolve(st, v.U()) if isinstance(v, IV) else self.resolve(st, v)
            if key[0] == 'i' and c[1] == 'ptr':
                if isinstance(v, Ptr):
                    return IV(64, u=self.addr(st, v), prov=v)
                return IV(64, u=self.addr(st, v))
            if key[0] == 'i' and c[1][0] == 'i':
                return self.norm_int(v, key)
            if key[0] == 'f' and c[1][0] == 'i' and isinstance(v, IV) and v.const() == 0:
                return Fraction(0)
            if key[0] == 'i' and c[1][0] == 'f':
                # reinterpretation of a floating-point value: keep it opaque so that a copy through an integer preserves it
                iv = IV(sz * 8, u=self.opaque_bits(st, v))
                iv.prov = ('fbits', v)
                return iv
            if key[0] == 'f' and isinstance(v, IV) and isinstance(v.prov, tuple):
                return v.prov[1]
            self.warn.add('type-punned read of %s+%d as %s (stored %s)' % (o.name, off, key, c[1]))
            return self.fresh_key(st, key, 'pun')
        # overlapping cells
        ov = [(q, cc) for q, cc in o.cells.items() if q < off + sz and off < q + cc[0]]
        if not ov:
            if not o.lazy:
                v = self.zero(key)
            elif self.flt_split(o, off, sz, key):
                return self.cell_load(st, o, off, key, sz)
            else:
                nm = '%s@%d+%d:%s' % (o.iname, o.ver, off, key)
                v = self.named_key(st, key, nm)
                if o.input is not None and not st.spec:
                    pass
            o = st.wobj(o.id)
            o.cells[off] = (sz, key, v)
            if o.input is not None:
                self.havoced.setdefault(o.input, {})[(off - 0, key)] = 1
            return v
        if key[0] == 'i':
            ov.sort()
            if len(ov) == 1 and ov[0][0] <= off and off + sz <= ov[0][0] + ov[0][1][0]:
                q, cc = ov[0]
                if cc[1][0] == 'i':
                    return self.extract(cc[2], (off - q) * 8, sz * 8)
                self.warn.add('partial read of %s+%d' % (o.name, off))
                return self.fresh_key(st, key, 'pun')
            # gather, creating lazily the missing parts
            parts, pos = [], off
            while pos < off + sz:
                cc = o.cells.get(pos)
                if cc is None:
                    nxt = min([q for q, _ in ov if q > pos] + [off + sz])
                    gap = nxt - pos
                    gsz = 4 if gap >= 4 and pos % 4 == 0 else 1
                    parts.append(self.as_iv(self.cell_load(st, st.mem[o.id], pos, 'i%d' % (gsz * 8), gsz), gsz * 8))
                    pos += gsz
                    continue
                if cc[0] + pos > off + sz:
                    raise Unsupported('partial gather')
                v = cc[2]
                if cc[1][0] == 'f' or cc[1] == 'ptr':
                    iv = IV(cc[0] * 8, u=self.opaque_bits(st, v) if cc[1][0] == 'f' else self.addr(st, v))
                    iv.prov = ('fbits', v) if cc[1][0] == 'f' else v
                    parts.append(iv)
                else:
                    parts.append(self.as_iv(v, cc[0] * 8))
                pos += cc[0]
            return IV(sz * 8, cat=parts)
        self.warn.add('mixed read of %s+%d as %s' % (o.name, off, key))
        return self.fresh_key(st, key, 'pun')

    def flt_split(self, o, off, sz, key):
        return False

    def as_iv(self, v, w):
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            t = ite(v, 1, 0)
            return IV(w, u=t, s=t, b=v)
        return v

    def norm_int(self, v, key):
        w = int(key[1:])
        if w == 1:
            if isinstance(v, IV):
                return v.b if v.b is not None else cmp('ne', v.U(), 0)
            return v
        v = self.as_iv(v, w)
        if v.w != w:
            return IV(w, u=v.U())
        return v

    def opaque_bits(self, st, v):
        t = rc(v)
        f = z3.Function('fbits', z3.RealSort(), z3.IntSort())
        r = f(t)
        self.fact(st, z3.And(r >= 0, r < M64))
        return r

    def zero(self, key):
        if key[0] == 'f':
            return Fraction(0)
        if key == 'ptr':
            return NULL
        if key == 'i1':
            return False
        return IV(int(key[1:]), u=0, s=0)

    def store(self, st, p, v, ty):
        if ty.k in ('struct', 'array'):
            if ty.k == 'struct':
                for e, off, x in zip(ty.elems, ty.offs, v.vals):
                    self.store(st, self.padd(p, off), x, e)
            else:
                for i in range(ty.n):
                    self.store(st, self.padd(p, i * ty.elems[0].size), v.vals[i], ty.elems[0])
            return
        if v is None:
            key = tykey(ty)
            v = self.fresh_key(st, key, 'undef')
        key = tykey(ty)
        if isinstance(p, Raw):
            return self.flat_store(st, p, v, key)
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        o, loc = self.locate(st, p, ty.size, 'write')
        if loc[0] == 'oob':
            return
        if loc[0] == 'a':
            return self.arr_store(st, o, loc[1], key, loc[2], v)
        self.cell_store(st, o, loc[1], key, ty.size, v)

    def cell_store(self, st, o, off, key, sz, v):
        if o.ro and not st.spec:
            self.oblige(st, False, 'write to a read-only object %s' % o.name, 'frame')
        if isinstance(v, IV) and v.cat is not None:
            pos = off
            for q in v.cat:
                if isinstance(q.prov, tuple) and q.prov[0] == 'fbits':
                    self.cell_store(st, st.mem[o.id], pos, 'f%d' % q.w, q.w // 8, q.prov[1])
                else:
                    self.cell_store(st, st.mem[o.id], pos, 'i%d' % q.w, q.w // 8, q)
                pos += q.w // 8
            return
        o = st.wobj(o.id)
        for q, cc in list(o.cells.items()):
            if q < off + sz and off < q + cc[0] and not (q == off and cc[0] == sz):
                del o.cells[q]
                if q < off or q + cc[0] > off + sz:
                    # keep the bytes outside of the store
                    if cc[1][0] == 'i' and cc[0] > 1:
                        if q < off:
                            n = off - q
                            o.cells[q] = (n, 'i%d' % (n * 8), self.extract(self.as_iv(cc[2], cc[0] * 8), 0, n * 8))
                        if q + cc[0] > off + sz:
                            n = q + cc[0] - off - sz
                            o.cells[off + sz] = (n, 'i%d' % (n * 8), self.extract(self.as_iv(cc[2], cc[0] * 8), (off + sz - q) * 8, n * 8))
                    else:
                        self.warn.add('partial overwrite of %s+%d' % (o.name, q))
        o.cells[off] = (sz, key, v)
        self.wrote(st, o, ('cell', off, key, sz))

    # flat heap for raw addresses
    def flat_arr(self, st, key):
        a = st.flat.get(key)
        if a is None:
            a = z3.Array('heap:' + key, z3.IntSort(), keysort(key))
            st.flat[key] = a
        return a

    def flat_load(self, st, p, key):
        if not st.spec:
            self.oblige(st, cmp('ne', p.a, 0), 'no null pointer dereference', 'null')
        a = self.flat_arr(st, key)
        ad = z3.IntVal(p.a) if isinstance(p.a, int) else p.a
        t = self.arr_read(st, a, ad)
        self.facts_of_select(st, t, key)
        return self.from_term(st, t, key)

    def flat_store(self, st, p, v, key):
        if not st.spec:
            self.oblige(st, cmp('ne', p.a, 0), 'no null pointer dereference', 'null')
        a = self.flat_arr(st, key)
        ad = z3.IntVal(p.a) if isinstance(p.a, int) else p.a
        if isinstance(v, IV) and v.cat is not None:
            pos = 0
            for q in v.cat:
                self.flat_store(st, Raw(iadd(p.a, pos)), q, 'i%d' % q.w)
                pos += q.w // 8
            return
        st.flat[key] = self.arr_write(st, a, ad, self.to_term(st, v, key))
        for ac in st.active:
            ci = self.cuts[ac['key']]
            w = ('<flat>', key)
            if w not in ci['writes']:
                ci['writes'].add(w)
                self.dirty = True

    # -------------------------------------------------- memcpy / memset
    def memcpy(self, st, d, s, n):
        """n: IV"""
        c = n.const()
        if c == 0:
            return
        if c is None:
            nt = n.U()
            if self.proved(st, cmp('eq', nt, 0)):
                return
            return self.memcpy_sym(st, d, s, nt)
        if isinstance(s, Raw) or isinstance(d, Raw):
            return self.memcpy_flat(st, d, s, c)
        so, do = st.mem[s.obj], st.mem[d.obj]
        if not (s.off.isconst() and so.stride is None and d.off.isconst() and do.stride is None):
            return self.memcpy_elem(st, d, s, c)
        for q, cnt, w in ((s, c, 'copy source'), (d, c, 'copy destination')):
            self.locate(st, q, cnt, w)
        self.split_lazy(st, so, s.off.c, c)
        so = st.mem[s.obj]
        items = []
        for off, (sz, key, v) in so.cells.items():
            if s.off.c <= off and off + sz <= s.off.c + c:
                items.append((off - s.off.c, sz, key, v))
            elif off < s.off.c + c and s.off.c < off + sz:
                if key[0] != 'i':
                    raise Unsupported('memcpy cuts a cell')
                lo = max(off, s.off.c)
                hi = min(off + sz, s.off.c + c)
                items.append((lo - s.off.c, hi - lo, 'i%d' % ((hi - lo) * 8), self.extract(v, (lo - off) * 8, (hi - lo) * 8)))
        do = st.wobj(d.obj)
        base = d.off.c
        # clear destination cells in range
        for q, cc in list(do.cells.items()):
            if q < base + c and base < q + cc[0]:
                if q >= base and q + cc[0] <= base + c:
                    del do.cells[q]
                    self.wrote(st, do, ('cell', q, cc[1], cc[0]))
        covered = sorted((o_, sz) for o_, sz, k, v in items)
        for off, sz, key, v in items:
            self.cell_store(st, st.mem[d.obj], base + off, key, sz, v)
        # uncovered bytes: unknown in source; become unknown (fresh version) in destination
        pos = 0
        gaps = []
        for o_, sz in covered:
            if o_ > pos:
                gaps.append((pos, o_))
            pos = max(pos, o_ + sz)
        if pos < c:
            gaps.append((pos, c))
        if gaps and (so.lazy or do.lazy):
            # remember link so that later reads stay consistent: materialise as bytes lazily on both sides
            for a, b in gaps:
                q = a
                while q < b:
                    step = 8 if (q % 8 == 0 and b - q >= 8) else (4 if (q % 4 == 0 and b - q >= 4) else 1)
                    so = st.mem[s.obj]
                    if not so.lazy:
                        v = self.zero('i%d' % (step * 8))
                    else:
                        v = self.cell_load(st, so, s.off.c + q, 'i%d' % (step * 8), step)
                        v = self.as_iv(v, step * 8)
                        if v.prov is None and step == 8:
                            v.prov = None
                    self.cell_store(st, st.mem[d.obj], base + q, 'i%d' % (step * 8), step, v)
                    q += step

    def split_lazy(self, st, o, off, n):
        """materialise lazily the bytes of an object with a known layout"""
        lay = self.layouts.get(o.id)
        if lay:
            for (fo, key) in lay:
                if off <= fo and fo + keysize(key) <= off + n:
                    if not any(q < fo + keysize(key) and fo < q + cc[0] for q, cc in st.mem[o.id].cells.items()):
                        self.cell_load(st, st.mem[o.id], fo, key, keysize(key))

    def flatten(self, ty, off=0, out=None):
        if out is None:
            out = []
        if ty.k == 'struct':
            if ty.name and '::mutex' in ty.name or (ty.name and 'union' in ty.name):
                return out
            for e, o in zip(ty.elems, ty.offs):
                self.flatten(e, off + o, out)
        elif ty.k == 'array':
            if ty.n * max(1, len(ty.elems)) <= 256:
                for i in range(ty.n):
                    self.flatten(ty.elems[0], off + i * ty.elems[0].size, out)
        elif ty.k in ('int', 'double', 'float', 'ptr'):
            out.append((off, tykey(ty)))
        return out

    def memcpy_elem(self, st, d, s, c):
        """constant-size copy where at least one side is an element of a strided array"""
        so, do = st.mem[s.obj], st.mem[d.obj]
        for o, p in ((so, s), (do, d)):
            if o.stride is None and not p.off.isconst() and isinstance(o.size, int) and o.kind != 'array':
                raise Concretize(p)
        fields = set()

        def base_fo(o, p):
            if o.stride is None:
                if p.off.isconst() and isinstance(o.size, int):
                    return None
                if p.off.isconst():
                    return None
                cs = [abs(cc) for x, cc in p.off.t.values()]
                o = st.wobj(o.id)
                self.make_strided(st, o, min(cs))
            return p.off.c % st.mem[p.obj].stride
        sf, df = base_fo(so, s), base_fo(do, d)
        so, do = st.mem[s.obj], st.mem[d.obj]
        for o, p, f in ((so, s, sf), (do, d, df)):
            if f is None:
                self.split_lazy(st, o, p.off.c, c)
                for off, (sz, key, v) in st.mem[p.obj].cells.items():
                    if p.off.c <= off and off + sz <= p.off.c + c and (p is s):
                        fields.add((off - p.off.c, key))
            else:
                st_ = o.stride
                if c > st_ - f and f == 0 and c % st_ == 0:
                    return self.memcpy_sym(st, d, s, c)
                for (fo, key) in o.arrs:
                    if f <= fo and fo + keysize(key) <= f + c:
                        if p is s or not any(ff < fo - f + keysize(key) and fo - f < ff + keysize(kk) for ff, kk in fields):
                            fields.add((fo - f, key))
        fields = sorted(fields)
        vals = []
        cov = 0
        for fo, key in fields:
            vals.append((fo, key, self.load_key(st, self.padd(s, fo), key)))
            cov += keysize(key)
        if cov < c and not fields:
            # nothing known about the layout: copy as machine words
            q = 0
            while q < c:
                step = 8 if c - q >= 8 else (4 if c - q >= 4 else 1)
                key = 'i%d' % (step * 8)
                vals.append((q, key, self.load_key(st, self.padd(s, q), key)))
                q += step
        for fo, key, v in vals:
            self.store_key(st, self.padd(d, fo), key, v)

    def load_key(self, st, p, key):
        if isinstance(p, Raw):
            return self.flat_load(st, p, key)
        o, loc = self.locate(st, p, keysize(key), 'read')
        if loc[0] == 'oob':
            return self.fresh_key(st, key, 'oob')
        if loc[0] == 'a':
            return self.arr_load(st, o, loc[1], key, loc[2])
        return self.cell_load(st, o, loc[1], key, keysize(key))

    def store_key(self, st, p, key, v):
        if isinstance(p, Raw):
            return self.flat_store(st, p, v, key)
        o, loc = self.locate(st, p, keysize(key), 'write')
        if loc[0] == 'oob':
            return
        if loc[0] == 'a':
            return self.arr_store(st, o, loc[1], key, loc[2], v)
        return self.cell_store(st, o, loc[1], key, keysize(key), v)

    def memcpy_flat(self, st, d, s, c):
        if isinstance(s, Ptr) and s.off.isconst() and st.mem[s.obj].stride is None:
            so = st.mem[s.obj]
            self.split_lazy(st, so, s.off.c, c)
            for off, (sz, key, v) in sorted(st.mem[s.obj].cells.items()):
                if s.off.c <= off and off + sz <= s.off.c + c:
                    self.flat_store(st, self.padd(d, off - s.off.c), v, key)
            return
        if isinstance(d, Ptr) and d.off.isconst() and st.mem[d.obj].stride is None and isinstance(s, Raw):
            lay = self.layouts.get(d.obj) or [(q, 'i64') for q in range(0, c, 8)]
            for (fo, key) in lay:
                if d.off.c <= fo and fo + keysize(key) <= d.off.c + c:
                    v = self.flat_load(st, self.padd(s, fo - d.off.c), key)
                    self.cell_store(st, st.mem[d.obj], fo, key, keysize(key), v)
            return
        raise Unsupported('memcpy between raw pointers')

    def memcpy_sym(self, st, d, s, nt):
        """copy of a symbolic number of bytes between strided objects"""
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise Unsupported('symbolic memcpy on raw pointers')
        so, do = st.mem[s.obj], st.mem[d.obj]
        stride = so.stride or do.stride
        nl = lin_of(nt) if not isinstance(nt, int) else Lin(nt)
        if stride is None:
            cs = [abs(c) for x, c in nl.t.values()]
            if not cs:
                raise Unsupported('memcpy with unknown stride')
            stride = min(cs)
        for p in (s, d):
            if st.mem[p.obj].stride is None:
                o = st.wobj(p.obj)
                self.make_strided(st, o, stride)
        so, do = st.mem[s.obj], st.mem[d.obj]
        if so.stride != do.stride:
            raise Unsupported('memcpy between different strides %d %d' % (so.stride, do.stride))
        stride = so.stride
        if any(c % stride for x, c in nl.t.values()) or nl.c % stride or any(c % stride for p in (s, d) for x, c in p.off.t.values()) or s.off.c % stride or d.off.c % stride:
            # byte count is a multiple of the stride? introduce the quotient
            if s.off.c % stride or d.off.c % stride:
                raise Unsupported('memcpy offset is not a multiple of the stride')
            q = z3.Int(self.fresh(st, 'memcpy.count'))
            if not self.proved(st, z3.IntVal(0) == (nt % stride), 2000):
                raise Unsupported('memcpy length is not a multiple of the stride')
            st.pc.append(nt == q * stride)
            cnt = q
        else:
            cnt = nl.scale(1).term() if stride == 1 else Lin(nl.c // stride, {k: (x, c // stride) for k, (x, c) in nl.t.items()}).term()

        def idx(p):
            return Lin(p.off.c // stride, {k: (x, c // stride) for k, (x, c) in p.off.t.items()}).term()
        si, di = idx(s), idx(d)
        for o, i, w in ((so, si, 'copy source'), (do, di, 'copy destination')):
            if o.freed:
                self.oblige(st, False, '%s is released memory' % w, 'use-after-free')
            if o.size is not None:
                lim = cmp('le', iadd(i, cnt), o.count) if o.count is not None else cmp('le', imul(iadd(i, cnt), stride), o.size)
                self.oblige(st, bor(cmp('le', cnt, 0), band(cmp('ge', i, 0), lim)), '%s within the bounds of %s' % (w, o.name), 'bounds')
        keys = set(so.arrs)
        for k in do.arrs:
            if k not in keys and not any(k[0] < f2 + keysize(k2) and f2 < k[0] + keysize(k[1]) for f2, k2 in keys):
                keys.add(k)
        srcs = {k: self.arr_get(st, st.mem[s.obj], k[0], k[1]) for k in keys}
        for k in keys:
            olda = self.arr_get(st, st.mem[d.obj], k[0], k[1])
            src = srcs[k]
            o = st.wobj(d.obj)
            nm = self.fresh(st, '%s.cpy.%d:%s' % (o.name, k[0], k[1]))
            new = z3.Array(nm, z3.IntSort(), keysort(k[1]))
            i = z3.Int('i!cpy')
            body = z3.Select(new, i) == z3.If(z3.And(i >= di, i < iadd(di, cnt)), z3.Select(src, iadd(isub(i, di), si)), z3.Select(olda, i))
            st.pc.append(z3.ForAll([i], body, patterns=[z3.Select(new, i)]))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= di, i < iadd(di, cnt)), z3.Select(new, i) == z3.Select(src, iadd(isub(i, di), si))), patterns=[z3.Select(new, i)]))
            o.arrs[k] = new
            self.wrote(st, o, ('arr', k[0], k[1]))
        if not keys:
            self.pending_copy(st, d, s)

    def pending_copy(self, st, d, s):
        self.warn.add('copy of an array with no known field')

    def memset(self, st, d, v, n):
        c = n.const()
        vv = v.const()
        if c is None:
            if vv != 0 and vv != 255:
                raise Unsupported('symbolic memset')
            if isinstance(d, Ptr):
                # only supported as initialisation of a fresh object
                o = st.wobj(d.obj)
                if d.off.isconst() and d.off.c == 0 and vv == 0 and not o.arrs and not o.cells:
                    self.oblige(st, cmp('le', n.U(), o.size), 'memset in bounds', 'bounds')
                    o.lazy = False
                    return
            raise Unsupported('symbolic memset length')
        if isinstance(d, Raw):
            raise Unsupported('memset on raw pointer')
        o = st.mem[d.obj]
        if d.off.isconst() and o.stride is None:
            self.locate(st, d, c, 'memset')
            if vv == 0 and d.off.c == 0 and o.size == c:
                o = st.wobj(d.obj)
                for q, cc in o.cells.items():
                    self.wrote(st, o, ('cell', q, cc[1], cc[0]))
                o.cells = {}
                o.lazy = False
                return
            q = 0
            while q < c:
                step = 8 if (q % 8 == 0 and c - q >= 8) else (4 if (q % 4 == 0 and c - q >= 4) else 1)
                self.cell_store(st, st.mem[d.obj], d.off.c + q, 'i%d' % (step * 8), step, IV(step * 8, u=vv * ((1 << (step * 8)) - 1) // 255))
                q += step
            return
        lay = [(q, 'i64') for q in range(0, c, 8)] if c % 8 == 0 else [(q, 'i8') for q in range(c)]
        for fo, key in lay:
            self.store_key(st, self.padd(d, fo), key, IV(int(key[1:]), u=vv * ((1 << int(key[1:])) - 1) // 255))

    # -------------------------------------------------- globals / constants
    def glob_obj(self, st, name):
        if name in st.globs:
            return st.globs[name]
        g = self.mod.glob(name)
        o = self.new_obj(st, 'g:' + name, g.ty.size, 'global', lazy=False)
        st.globs[name] = o.id
        if g.init is None:
            o.lazy = True
            self.warn.add('external global %s' % name)
        else:
            self.init_cells(st, o, 0, g.init, g.ty)
        self.layouts[o.id] = self.flatten(g.ty)
        return o.id

    def init_cells(self, st, o, off, v, ty):
        if v.k in ('zero', 'undef'):
            return
        if v.k == 'agg':
            if ty.k == 'struct':
                for x, e, oo in zip(v.ops, ty.elems, ty.offs):
                    self.init_cells(st, o, off + oo, x, e)
            else:
                e = ty.elems[0]
                for i, x in enumerate(v.ops):
                    self.init_cells(st, o, off + i * e.size, x, e)
            return
        val = self.const(st, v)
        o = st.wobj(o.id)
        o.cells[off] = (ty.size, tykey(ty), val)

    def const(self, st, v):
        k = v.k
        if k == 'int':
            w = v.ty.w
            if w == 1:
                return bool(v.v)
            return IV(w, u=v.v, s=v.v - (1 << w) if v.v >= (1 << (w - 1)) else v.v)
        if k == 'fp':
            f = v.v
            if f != f or f in (float('inf'), float('-inf')):
                raise Unsupported('non-finite constant')
            return Fraction(f)
        if k == 'null':
            return NULL
        if k == 'fn':
            return FnPtr(v.v)
        if k == 'global':
            return Ptr(self.glob_obj(st, v.v), Lin(0))
        if k == 'undef':
            return self.undef(st, v.ty)
        if k == 'zero':
            return self.zero_of(v.ty)
        if k == 'agg':
            return Agg([self.const(st, x) for x in v.ops])
        if k == 'cexpr':
            if v.v == 'gep':
                return self.gep(st, self.const(st, v.ops[0]), v.x, [self.const(st, x) for x in v.ops[1:]], v.ops[1:])
            if v.v == 'bitcast':
                return self.const(st, v.ops[0])
            if v.v == 'ptrtoint':
                return self.ptrtoint(st, self.const(st, v.ops[0]), 64)
            if v.v == 'inttoptr':
                return self.inttoptr(st, self.const(st, v.ops[0]))
            raise Unsupported('constant expression %s' % v.v)
        raise Unsupported('constant %s' % k)

    def zero_of(self, ty):
        if ty.k == 'struct':
            return Agg([self.zero_of(e) for e in ty.elems])
        if ty.k == 'array':
            return Agg([self.zero_of(ty.elems[0]) for _ in range(ty.n)])
        return self.zero(tykey(ty))

    def undef(self, st, ty):
        if ty.k == 'struct':
            return Agg([None for e in ty.elems])
        if ty.k == 'array':
            return Agg([None] * ty.n)
        return self.fresh_key(st, tykey(ty), 'undef')

    def ptrtoint(self, st, p, w):
        if isinstance(p, Ptr):
            return IV(w, u=self.addr(st, p), prov=p)
        a = self.addr(st, p)
        return IV(w, u=a, s=a)

    def inttoptr(self, st, v):
        if isinstance(v.prov, Ptr):
            return v.prov
        if isinstance(v.prov, (Raw, FnPtr)):
            return v.prov
        return self.resolve(st, v.U())

    def gep(self, st, p, ty, idxs, raw):
        off = Lin(0)
        t = ty
        for n, i in enumerate(idxs):
            if n == 0:
                off = off.add(self.scaled(st, i, t.size))
                continue
            if t.k == 'struct':
                k = i.const()
                off = off.add(t.offs[k])
                t = t.elems[k]
            elif t.k in ('array', 'vector'):
                t = t.elems[0]
                off = off.add(self.scaled(st, i, t.size))
            else:
                raise Unsupported('gep into %r' % t)
        if isinstance(p, Ptr):
            return Ptr(p.obj, p.off.add(off))
        if isinstance(p, Raw):
            a = iadd(p.a, off.term())
            return Raw(a)
        raise Unsupported('gep on %r' % (p,))

    def scaled(self, st, iv, size):
        c = iv.const()
        if c is not None:
            return Lin((c - (1 << iv.w) if c >= (1 << (iv.w - 1)) else c) * size)
        if iv.s is not None:
            t = iv.s
        elif iv.u is not None:
            t = iv.u
        else:
            t = iv.U()
        if not st.spec and not isinstance(t, int) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            # avoid wrap-around ite in addresses when one branch is provable
            if self.proved(st, t.arg(0)):
                t = t.arg(1)
            elif self.proved(st, z3.Not(t.arg(0))):
                t = t.arg(2)
        return lin_of(t).scale(size)


class PathEnd(Exception):
    pass


class Concretize(Exception):
    def __init__(self, p):
        self.p = p


class ForkOn(Exception):
    """re-execute the current instruction under cond and its negation"""
    def __init__(self, cond):
        self.cond = cond
