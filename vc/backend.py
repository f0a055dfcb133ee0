"""Discharge of the obligations that the generator's own incremental solver leaves open: a portfolio run in separate processes."""
import os
import re
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

import z3


def has_kind(asserts, pred, limit=200000):
    seen = set()
    stack = list(asserts)
    n = 0
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        n += 1
        if n > limit:
            return True
        if pred(x):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


_cc = {}


def consts(t):
    i = t.get_id()
    r = _cc.get(i)
    if r is not None:
        return r
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    _cc[i] = out
    return out


def cone(asserts, goal, depth):
    cur = set(consts(goal))
    keep = set()
    for _ in range(depth):
        new = set()
        for n, a in enumerate(asserts):
            if n in keep:
                continue
            c = consts(a)
            if c & cur:
                keep.add(n)
                new |= c
        if not new:
            break
        cur |= new
    return [a for n, a in enumerate(asserts) if n in keep]


def model_values(m, asserts):
    out = {}
    decls = {}
    for a in asserts:
        stack, seen = [a], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                decls[x.decl().name()] = x
            stack.extend(x.children())

    def num(v):
        if z3.is_true(v):
            return '1'
        if z3.is_false(v):
            return '0'
        if z3.is_int_value(v):
            return str(v.as_long())
        if z3.is_rational_value(v):
            return repr(float(Fraction(v.numerator_as_long(), v.denominator_as_long())))
        if z3.is_algebraic_value(v):
            w = v.approx(30)
            return repr(float(Fraction(w.numerator_as_long(), w.denominator_as_long())))
        return None
    for n, x in decls.items():
        if not (n.startswith('in:') or n.startswith('hv:')):
            continue
        if z3.is_array(x):
            mm = re.match(r'hv:arr:(.*)@\d+\.(\d+):(\w+)$', n)
            if not mm:
                continue
            for i in range(48):
                v = num(m.eval(z3.Select(x, z3.IntVal(i)), model_completion=True))
                if v is not None:
                    out['arr:%s[%d+%s:%s' % (mm.group(1).replace('!', '#'), i, mm.group(2), mm.group(3))] = v
            continue
        v = num(m.eval(x, model_completion=True))
        if v is None:
            continue
        if n.startswith('in:'):
            out[n[3:]] = v
        else:
            mm = re.match(r'hv:(.*)@\d+\+(\d+):(\w+)$', n)
            if mm:
                out['hv:%s+%s:%s' % (mm.group(1).replace('!', '#'), mm.group(2), mm.group(3))] = v
    return out


def run_bin(cmd, text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        p = f.name
    try:
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=timeout + 2)
        o = r.stdout.strip().split('\n')[0]
        return o
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(p)


def abstract_products(t, cache):
    """products of several non-constant real factors become uninterpreted functions of their (sorted) factors.  The result is weaker
    than the original (the functions may be anything, in particular the products), so unsat carries over."""
    def key(x):
        if z3.is_var(x):
            return (3, '')
        if z3.is_app(x) and x.num_args() == 0:
            return (0, x.decl().name())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
            return (2, x.arg(0).sexpr()[:200])
        return (1, x.decl().name() + str(x.num_args()) if z3.is_app(x) else '')

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i][1]
        if z3.is_quantifier(x):
            b = go(x.body())
            vs = [z3.Const(x.var_name(k) + '!q%d' % i, x.var_sort(k)) for k in range(x.num_vars())]
            bb = z3.substitute_vars(b, *reversed(vs))
            r = z3.ForAll(vs, bb) if x.is_forall() else z3.Exists(vs, bb)
        elif z3.is_app(x) and x.num_args():
            a = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_MUL and z3.is_real(x):
                nums, rest = [], []
                todo = list(a)
                while todo:
                    c = todo.pop(0)
                    if z3.is_rational_value(c):
                        nums.append(c)
                    elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
                        todo = list(c.children()) + todo
                    elif z3.is_app(c) and c.decl().name().startswith('mul!'):
                        todo = list(c.children()) + todo
                    else:
                        rest.append(c)
                if len(rest) > 1:
                    rest.sort(key=key)
                    f = z3.Function('mul!%d' % len(rest), *([z3.RealSort()] * (len(rest) + 1)))
                    r = f(*rest)
                    for n in nums:
                        r = n * r
                else:
                    r = x.decl()(*a)
            elif x.decl().kind() == z3.Z3_OP_DIV and z3.is_real(x) and not z3.is_rational_value(a[1]):
                r = z3.Function('div!', z3.RealSort(), z3.RealSort(), z3.RealSort())(*a)
            else:
                r = x.decl()(*a) if not (z3.is_and(x) or z3.is_or(x)) else (z3.And(*a) if z3.is_and(x) else z3.Or(*a))
        else:
            r = x
        cache[i] = (x, r)
        return r
    return go(t)


def inverses(asserts):
    """quotients t / b whose denominator cannot be zero become t * i with i * b = 1"""
    dens, seen = {}, set()

    def coll(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
                dens.setdefault(t.arg(1).get_id(), t.arg(1))
            for c in t.children():
                coll(c)
    for a in asserts:
        coll(a)
    if not dens or len(dens) > 8:
        return None
    inv, extra = {}, []
    for k, b in dens.items():
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(asserts[:-1])
        s.add(b == 0)
        if s.check() == z3.unsat:
            v = z3.Real('inv!%d' % len(inv))
            inv[k] = v
            extra.append(b)
    if not inv:
        return None
    cache = {}

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i][1]
        r = x
        if z3.is_app(x) and x.num_args():
            a = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_DIV and x.arg(1).get_id() in inv:
                r = a[0] * inv[x.arg(1).get_id()]
            else:
                r = z3.And(*a) if z3.is_and(x) else z3.Or(*a) if z3.is_or(x) else x.decl()(*a)
        cache[i] = (x, r)
        return r
    new = [go(a) for a in asserts]
    return new[:-1] + [inv[b.get_id()] * go(b) == 1 for b in extra], new[-1]


def solve(smt2, budget, quick=False):
    """returns (status, backend, model, reason): proved / sat / unknown"""
    z3.set_param('smt.random_seed', 1)
    asserts = list(z3.parse_smt2_string(smt2))
    t0 = time.time()
    if not asserts:
        return 'unknown', '', None, 'empty'
    pc, goal = asserts[:-1], asserts[-1]
    quant = has_kind(asserts, lambda x: z3.is_quantifier(x))
    arr = has_kind(asserts, lambda x: z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE))
    ufs = has_kind(asserts, lambda x: z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0)
    ints = has_kind(asserts, lambda x: z3.is_int(x))
    left = lambda: budget - (time.time() - t0)
    best = [None]

    def s_z3(sub, ms, opts=None):
        s = z3.Solver()
        s.set('timeout', int(ms))
        for k, v in (opts or {}).items():
            s.set(k, v)
        s.add(*sub)
        r = s.check()
        return r, s

    def s_tac(sub, ms, tac):
        s = tac.solver()
        s.set('timeout', int(ms))
        s.add(*sub)
        return s.check(), s

    def full(r, s, name):
        if r == z3.unsat:
            return ('proved', name, None, None)
        if r == z3.sat and best[0] is None:
            best[0] = ('sat', name, model_values(s.model(), asserts), 'counterexample found by the solver')
        return None
    steps = []
    F = min(8.0, budget / 4)
    if not quant:
        steps.append(('z3', lambda: s_z3(asserts, 1000 * min(3, F)), True))
    else:
        if has_kind(asserts, lambda x: z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and z3.is_real(x) and sum(not z3.is_rational_value(c) for c in x.children()) > 1):
            def s_abs():
                cache = {}
                ab = [abstract_products(a, cache) for a in asserts]
                return s_z3(ab, 1000 * min(4, F), {'mbqi': False})
            steps.append(('z3-products-uninterpreted', s_abs, None))
        steps.append(('z3-nombqi', lambda: s_z3(asserts, 1000 * min(6, F), {'mbqi': False}), None))
        steps.append(('z3-nombqi-noauto', lambda: s_z3(asserts, 1000 * min(6, F), {'mbqi': False, 'auto_config': False, 'relevancy': 0}), None))
        steps.append(('z3', lambda: s_z3(asserts, 1000 * min(4, F)), True))
    if not quant and not arr and not ufs:
        q = inverses(asserts)
        if q is not None:
            for d in (1, 2, 9):
                sub = cone(q[0], q[1], d)
                steps.append(('inverses-nlsat-cone%d' % d, lambda sub=sub: s_tac(sub + [q[1]], 1000 * min(5, F), z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat')), None))
    lasts = None
    for d in (1, 2, 3):
        sub = cone(pc, goal, d)
        if len(sub) == len(pc):
            break
        if lasts == len(sub):
            continue
        lasts = len(sub)
        steps.append(('z3-cone%d' % d, lambda sub=sub: s_z3(sub + [goal], 1000 * min(2, F)), None))
        if not quant and not arr and not ufs and not ints:
            steps.append(('nlsat-cone%d' % d, lambda sub=sub: s_tac(sub + [goal], 1000 * min(4, F), z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat')), None))
    if not quant and not arr:
        steps.append(('z3-purify-nlsat', lambda: s_tac(asserts, 1000 * F, z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'qfnra-nlsat') if not ufs else z3.Then('simplify', 'solve-eqs', 'smt')), True))
    for name, f, fl in steps:
        if left() <= 0.2:
            break
        try:
            r, s = f()
        except z3.Z3Exception as e:
            continue
        if r == z3.unsat:
            return 'proved', name, None, None
        if fl:
            x = full(r, s, name)
            if best[0] is not None:
                return best[0]
    if left() > 0.5:
        t = int(min(left(), max(10, budget / 2)))
        txt = '(set-logic ALL)\n' + smt2 if '(set-logic' not in smt2 else smt2
        txt = re.sub(r'\(set-info[^)]*\)', '', txt)
        if '(check-sat)' not in txt:
            txt += '\n(check-sat)\n'
        o = run_bin(['cvc5', '--tlimit=%d' % (t * 1000)] + (['--nl-ext-tplanes'] if not quant else ['--full-saturate-quant']), txt, t)
        if o == 'unsat':
            return 'proved', 'cvc5', None, None
    if left() > 0.5:
        s = z3.Solver()
        s.set('timeout', int(left() * 1000))
        s.set('random_seed', 7)
        s.set('arith.solver', 2) if quant else None
        s.add(*asserts)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3-seed7', None, None
        x = full(r, s, 'z3-seed7')
        if best[0] is not None:
            return best[0]
    return 'unknown', '', None, 'no solver decided within %.0fs' % budget
