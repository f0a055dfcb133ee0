"""Polynomial normal forms: a real term as a sum of monomials over atoms, modulo known squares (v * v = e on the path) and with 1/y as an atom."""
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


class Ring:
    """atoms are z3 terms that are neither sums, products nor quotients; a polynomial is {monomial: coefficient}, a monomial a sorted tuple of (atom, exponent)"""

    def __init__(self, limit=6000):
        self.atoms = {}       # z3 id -> atom number
        self.terms = []       # atom number -> ('t', z3 term) or ('inv', polynomial of the divisor)
        self.rank = {}
        self.invs = {}
        self.memo = {}
        self.rules = {}       # atom -> polynomial that its square equals
        self.keep = []
        self.limit = limit
        self.inv_src = {}

    def atom(self, e):
        k = e.get_id()
        a = self.atoms.get(k)
        if a is None:
            a = self.atoms[k] = len(self.terms)
            self.terms.append(('t', e))
        return a

    def inv(self, p, src):
        key = frozenset(p.items())
        a = self.invs.get(key)
        if a is None:
            a = self.invs[key] = len(self.terms)
            self.terms.append(('inv', p))
            self.inv_src[a] = src
        return a

    @staticmethod
    def add(p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        r = {}
        if len(p) * len(q) > self.limit * 20:
            raise TooBig
        for m, c in p.items():
            for n, d in q.items():
                e = dict(m)
                for a, x in n:
                    e[a] = e.get(a, 0) + x
                k = tuple(sorted(e.items()))
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        r = self.reduce(r)
        if len(r) > self.limit:
            raise TooBig
        return r

    def reduce(self, p):
        if not self.rules:
            return p
        while True:
            hit = None
            for m in p:
                for a, x in m:
                    if x >= 2 and a in self.rules:
                        hit = a
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            out = {}
            sq = self.rules[hit]
            for m, c in p.items():
                x = dict(m).get(hit, 0)
                if x < 2:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                e = dict(m)
                if x % 2:
                    e[hit] = 1
                else:
                    del e[hit]
                t = {tuple(sorted(e.items())): c}
                for _ in range(x // 2):
                    t2 = {}
                    for m1, c1 in t.items():
                        for m2, c2 in sq.items():
                            f = dict(m1)
                            for a, y in m2:
                                f[a] = f.get(a, 0) + y
                            k = tuple(sorted(f.items()))
                            t2[k] = t2.get(k, 0) + c1 * c2
                    t = t2
                for k, v in t.items():
                    w = out.get(k, 0) + v
                    if w:
                        out[k] = w
                    else:
                        out.pop(k, None)
                if len(out) > self.limit * 4:
                    raise TooBig
            p = out

    def of(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][1]
        kd = e.decl().kind() if z3.is_app(e) else None
        if z3.is_rational_value(e):
            v = e.as_fraction()
            r = {(): v} if v else {}
        elif kd == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                r = self.add(r, self.of(c))
        elif kd == z3.Z3_OP_SUB:
            r = self.of(e.arg(0))
            for c in e.children()[1:]:
                r = self.add(r, self.of(c), -1)
        elif kd == z3.Z3_OP_UMINUS:
            r = self.add({}, self.of(e.arg(0)), -1)
        elif kd == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in e.children():
                r = self.mul(r, self.of(c))
        elif kd == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() in (1, 2, 3):
            r = {(): Fraction(1)}
            for _ in range(int(e.arg(1).as_fraction())):
                r = self.mul(r, self.of(e.arg(0)))
        elif kd == z3.Z3_OP_DIV:
            d = self.of(e.arg(1))
            if set(d) == {()}:
                r = self.add({}, self.of(e.arg(0)), 1 / d[()])
            elif not d:
                r = {((self.atom(e), 1),): Fraction(1)}
            else:
                r = self.mul(self.of(e.arg(0)), {((self.inv(d, e.arg(1)), 1),): Fraction(1)})
        else:
            r = {((self.atom(e), 1),): Fraction(1)}
        self.memo[k] = (e, r)
        return r

    def add_rule(self, lhs, rhs):
        """use lhs == rhs as v * v = rest for an atom v that occurs in no other way"""
        try:
            p = self.add(self.of(lhs), self.of(rhs), -1)
        except TooBig:
            return False
        if not p or len(p) > 400:
            return False
        best = None
        occ = {}
        for m in p:
            for a, x in m:
                occ.setdefault(a, []).append((m, x))
        for a, l in occ.items():
            if len(l) == 1 and l[0][0] == ((a, 2),) and a not in self.rules and self.terms[a][0] == 't':
                nm = str(self.terms[a][1])[:40]
                key = (nm.startswith('sqrt') or '!sqrt' in nm, a)
                if best is None or key > best[0]:
                    best = (key, a)
        if best is None:
            return False
        a = best[1]
        c = p.pop(((a, 2),))
        rest = {m: -v / c for m, v in p.items()}
        todo, seen = [rest], set()      # no cycle
        while todo:
            q = todo.pop()
            for m in q:
                for b, _ in m:
                    if b == a:
                        return False
                    if b in self.rules and b not in seen:
                        seen.add(b)
                        todo.append(self.rules[b])
        self.rules[a] = rest
        self.memo = {}
        return True

    def divisors(self, p):
        return sorted({a for m in p for a, _ in m if self.terms[a][0] == 'inv'})

    def clear(self, p, a):
        """p times the divisor of the atom a to the highest power of 1/divisor in p"""
        y = self.terms[a][1]
        by = {}
        for m, c in p.items():
            x = dict(m).get(a, 0)
            by.setdefault(x, {})[tuple(t for t in m if t[0] != a)] = c
        top = max(by)
        r = {}
        for x, q in by.items():
            for _ in range(top - x):
                q = self.mul(q, y)
            r = self.add(r, self.reduce(q))
        return r
