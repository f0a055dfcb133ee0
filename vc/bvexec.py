"""Machine-integer executor for loop-free integer functions (option bv of a contract): every value is a bit vector of its
width, so shifts, masks and wrap-around are exact.  Memory is limited to local scalars.  Loops are unrolled while their
condition is concrete; anything else is unsupported (never silently dropped)."""
import itertools
import z3
import sym
from sym import Unsupported, Ob


class BVRunner:
    def __init__(self, mod, harness, meta, opts):
        self.mod, self.harness, self.meta, self.opts = mod, harness, meta, opts
        self.obs, self.functions, self.stubs_used, self.warn, self.covers = [], set(), set(), set(), {}
        self.endstates = 0
        self.solver_time = 0.0
        self.cuts, self.cutorder = {}, []
        self.names = {}
        self.slot = itertools.count(1)

    def run(self):
        self.steps = 0
        fn = self.mod.fn(self.harness)
        self.inputs = []
        for st, _ in self.call(fn, [], ([], {}, {})):
            self.endstates += 1

    def width(self, ty):
        if ty.k == 'int':
            return ty.w
        raise Unsupported('bv: type %s' % ty.k)

    def const(self, v):
        if v.k == 'int':
            return z3.BitVecVal(v.v, v.ty.w)
        if v.k == 'undef':
            return z3.BitVec('undef%d' % next(self.slot), self.width(v.ty))
        if v.k in ('fn', 'global', 'null'):
            return v
        if v.k == 'cexpr':
            return v
        raise Unsupported('bv: constant %s' % v.k)

    def feasible(self, pc, c):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*pc)
        s.add(c)
        return s.check() != z3.unsat

    def call(self, fn, args, st):
        """yields (state, return value) for every feasible path"""
        self.functions.add(fn.name)
        work = [(st, 0, -1, {}, 0)]
        while work:
            (pc, mem, cnt), bi, prev, env, ii = work.pop()
            b = fn.blocks[bi]
            if ii == 0:
                new = {}
                for i in b.insts[:b.nphi]:
                    for (k, v) in i.ops:
                        if k == prev:
                            new[i.id] = self.ev(env, args, v)
                env = dict(env)
                env.update(new)
                ii = b.nphi
            ended = False
            while not ended:
                I = b.insts[ii]
                self.steps += 1
                if self.steps > 100000:
                    raise Unsupported('bv: too many steps')
                op = I.op
                g = lambda k: self.ev(env, args, I.ops[k])
                if op == 'ret':
                    yield (pc, mem, cnt), (g(0) if I.ops else None)
                    ended = True
                elif op == 'br':
                    if not I.ops:
                        work.append(((pc, mem, cnt), I.x['succs'][0], bi, env, 0))
                    else:
                        c = z3.simplify(g(0) == 1)
                        a, d = I.x['succs']
                        if not z3.is_false(c) and (z3.is_true(c) or self.feasible(pc, c)):
                            work.append(((pc + [c], mem, dict(cnt)), a, bi, dict(env), 0))
                        n = z3.Not(c)
                        if not z3.is_true(c) and (z3.is_false(c) or self.feasible(pc, n)):
                            work.append(((pc + [n], mem, dict(cnt)), d, bi, dict(env), 0))
                    ended = True
                elif op == 'unreachable':
                    ended = True
                elif op in ('call', 'invoke'):
                    nm = I.x.v if I.x.k == 'fn' else None
                    if nm is None:
                        raise Unsupported('bv: indirect call')
                    av = [g(k) for k in range(len(I.ops))]
                    if nm.startswith('vc_any_'):
                        n = self.cstr(av[0])
                        k = cnt.get(n, 0)
                        cnt = dict(cnt)
                        cnt[n] = k + 1
                        key = n if k == 0 else '%s#%d' % (n, k)
                        w = self.width(I.ty)
                        env[I.id] = z3.BitVec('in:' + key, w)
                        if key not in self.names:
                            self.names[key] = (env[I.id], nm)
                    elif nm == 'vc_assume':
                        c = z3.simplify(av[0] == 1)
                        if z3.is_false(c) or not self.feasible(pc, c):
                            ended = True
                            continue
                        pc = pc + [c]
                    elif nm == 'vc_assert':
                        self.oblige(pc, av[0] == 1, self.cstr(av[1]), 'assert', I)
                    elif nm == '__assert_fail':
                        self.oblige(pc, z3.BoolVal(False), 'assertion (%s)' % self.cstr(av[0]), 'code-assert', I)
                        ended = True
                        continue
                    elif nm in ('vc_native',):
                        env[I.id] = z3.BitVecVal(0, 1)
                    elif nm.startswith('llvm.lifetime'):
                        pass
                    else:
                        f = self.mod.fn(nm)
                        if f is None or f.decl:
                            raise Unsupported('bv: call to %s' % nm)
                        for st2, r in self.call(f, av, (pc, mem, cnt)):
                            e2 = dict(env)
                            if r is not None:
                                e2[I.id] = r
                            work.append((st2, bi, prev, e2, ii + 1))
                        ended = True
                        continue
                else:
                    mem = self.simple(I, op, g, env, mem, pc)
                ii += 1

    def simple(self, I, op, g, env, mem, pc):
        if op == 'alloca':
            env[I.id] = ('slot', next(self.slot))
        elif op == 'load':
            p = g(0)
            if not (isinstance(p, tuple) and p in mem):
                raise Unsupported('bv: load')
            env[I.id] = mem[p]
        elif op == 'store':
            mem = dict(mem)
            p = g(1)
            if not isinstance(p, tuple):
                raise Unsupported('bv: store')
            mem[p] = g(0)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = g(0), g(1)
            if op in ('shl', 'lshr', 'ashr'):
                self.oblige(pc, z3.ULT(b, a.size()), 'shift amount below the width', 'shift', I)
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                self.oblige(pc, b != 0, 'division by zero', 'divzero', I)
            env[I.id] = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                         'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
                         'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
        elif op == 'icmp':
            a, b = g(0), g(1)
            if not z3.is_bv(a):
                raise Unsupported('bv: pointer comparison')
            f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[I.x]()
            env[I.id] = z3.If(f, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op == 'select':
            a, b = g(1), g(2)
            if not z3.is_bv(a):
                c = z3.simplify(g(0) == 1)
                if z3.is_true(c) or z3.is_false(c):
                    env[I.id] = a if z3.is_true(c) else b
                    return mem
                raise Unsupported('bv: select of pointers')
            env[I.id] = z3.If(g(0) == 1, a, b)
        elif op in ('zext', 'sext', 'trunc'):
            a = g(0)
            w = self.width(I.ty)
            env[I.id] = z3.ZeroExt(w - a.size(), a) if op == 'zext' else z3.SignExt(w - a.size(), a) if op == 'sext' else z3.Extract(w - 1, 0, a)
        elif op in ('bitcast', 'freeze'):
            env[I.id] = g(0)
        else:
            raise Unsupported('bv: instruction %s' % op)
        return mem

    def ev(self, env, args, v):
        if v.k == 'inst':
            return env[v.v]
        if v.k == 'arg':
            return args[v.v]
        return self.const(v)

    def cstr(self, v):
        while getattr(v, 'k', None) == 'cexpr':
            v = v.ops[0]
        g = self.mod.glob(v.v)
        return g.init.x.split(b'\0')[0].decode()

    def oblige(self, pc, goal, name, kind, I):
        o = Ob()
        o.name, o.kind, o.where = name, kind, '%s:%d' % (I.file, I.line)
        o.goal, o.pc, o.inputs, o.trace = goal, None, [], None
        o.status, o.backend, o.time, o.model, o.reason = None, None, 0.0, None, None
        self.obs.append(o)
        g = z3.simplify(goal)
        if z3.is_true(g):
            o.status, o.backend = 'proved', 'simplify'
            return
        o.status, o.pc = 'open', list(pc)
