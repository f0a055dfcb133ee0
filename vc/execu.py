"""Instruction semantics, path exploration, contracts of callees, loop invariants."""
import re
import time
from fractions import Fraction

import z3

from sym import *
import poly
from sym import Exec, PathEnd, Concretize, ForkOn


class Runner(Exec):
    steps = {}

    # ------------------------------------------------------------ operands
    def ev(self, st, fr, v):
        if v.k == 'inst':
            return fr.env[v.v]
        if v.k == 'arg':
            return fr.args[v.v]
        return self.const(st, v)

    # ------------------------------------------------------------ exploration
    def newframe(self, fn, args, ret=None):
        f = Frame()
        f.fn, f.env, f.bi, f.ii, f.prev, f.ret, f.args = fn, {}, 0, 0, None, ret, args
        f.allocas, f.cuts, f.post = [], {}, None
        return f

    def run(self):
        fn = self.mod.fn(self.harness)
        for attempt in range(60):
            self.reset()
            try:
                st = State()
                st.frames = [self.newframe(fn, [])]
                self.explore([st], None)
                if self.dirty:
                    continue
                return
            except NeedCut as e:
                self.assign_cut(e.key)
        raise Unsupported('loop frame computation did not converge')

    def assign_cut(self, key):
        """loops are paired with the invariants in the order of their discovery, loops of one function in program order"""
        if len(self.cutorder) > 40:
            raise Unsupported('too many loops')
        at = len(self.cutorder)
        same = [i for i, k in enumerate(self.cutorder) if k[0] == key[0]]
        later = [i for i in same if self.cutorder[i][1] > key[1]]
        if later:
            at = later[0]
        self.cutorder.insert(at, key)
        self.cuts[key] = dict(inv=None, hint='', writes=set(), match=None, idx=0, dead=set())
        invs = self.meta['invs']
        plan = self.meta.get('plan')
        if plan is None:
            plan = list(range(len(invs)))
        for n, k in enumerate(self.cutorder):
            name, hint = None, ''
            if n < len(plan) and plan[n] is not None and plan[n] < len(invs):
                name, hint = invs[plan[n]]
                if name == 'auto':
                    name = None
            c = self.cuts[k]
            if c['idx'] != n or c['inv'] != name:
                c['match'] = None
            c.update(inv=name, hint=hint, idx=n)

    def explore(self, work, sink):
        """sink None: top-level harness; else list of (state, retval) for spec evaluation"""
        npaths = 0
        while work:
            st = work.pop()
            try:
                self.run_path(st, work, sink)
            except PathEnd:
                pass
            npaths += 1
            if npaths > self.opts['max_paths']:
                raise TooMany('more than %d paths' % npaths)

    def run_path(self, st, work, sink):
        while True:
            fr = st.frames[-1]
            b = fr.fn.blocks[fr.bi]
            ins = b.insts[fr.ii]
            st.steps += 1
            if st.steps > self.opts['max_steps']:
                raise TooMany('too many steps on one path')
            try:
                r = self.step(st, fr, b, ins, work, sink)
            except ForkOn as e:
                self.fork_on(st, e.cond, work)
                continue
            except Concretize as e:
                self.concretize(st, e.p, work)
                continue
            if r:
                return

    def fork_on(self, st, cond, work):
        """split the state on a condition and redo the instruction"""
        if st.spec:
            o = st.fork()
            o.br.append(bnot(cond))
            self.pin(o, bnot(cond))
            work.append(o)
            st.br.append(cond)
            self.pin(st, cond)
            return
        a = self.check(st, cond)
        b = self.check(st, z3.Not(cond))
        self.nbranch += 1
        if a == z3.unsat:
            self.pin(st, z3.Not(cond))
            st.pc.append(z3.Not(cond))
            return
        if b == z3.unsat:
            self.pin(st, cond)
            st.pc.append(cond)
            return
        o = st.fork()
        o.pc.append(z3.Not(cond))
        self.pin(o, z3.Not(cond))
        work.append(o)
        st.pc.append(cond)
        self.pin(st, cond)

    def pin(self, st, cond):
        st.hits = dict(st.hits)
        if z3.is_not(cond):
            st.hits[('pin', cond.arg(0).get_id())] = (False, cond)
        st.hits[('pin', cond.get_id())] = (True, cond)

    def pinned(self, st, cond):
        r = st.hits.get(('pin', cond.get_id()))
        if r is not None:
            return r[0]
        return None

    def concretize(self, st, p, work):
        """symbolic offset into an object of known small size: enumerate its possible values"""
        o = st.mem[p.obj]
        t = p.off.term()
        if st.spec:
            vals = []
            # enumerate with the help of the path condition of the parent
            vals = self.enum(st, t, 24)
        else:
            vals = self.enum(st, t, 24)
        if vals is None:
            raise Unsupported('symbolic index into %s with too many values' % o.name)
        if not vals:
            raise PathEnd()
        sts = [st] + [st.fork() for _ in vals[1:]]
        for s, v in zip(sts, vals):
            c = t == v
            (s.br if s.spec else s.pc).append(c)
            s.hits[('val', t.get_id())] = (v, t)
            if s is not st:
                work.append(s)
            # substitute: replace every pointer value with this offset in the frame environments
            for f in s.frames:
                for k, x in list(f.env.items()):
                    if isinstance(x, Ptr) and not x.off.isconst() and self.same_var(x.off, p.off):
                        d = x.off.add(p.off.scale(-1))
                        if d.isconst():
                            f.env[k] = Ptr(x.obj, Lin(v + d.c))
                f.args = [Ptr(x.obj, Lin(v + x.off.add(p.off.scale(-1)).c)) if isinstance(x, Ptr) and not x.off.isconst() and x.off.add(p.off.scale(-1)).isconst() else x for x in f.args]

    def same_var(self, a, b):
        return set(a.t) == set(b.t)

    def enum(self, st, t, limit):
        vals = []
        extra = list(st.br) if st.spec else []
        while True:
            cs = extra + [t != v for v in vals]
            c = z3.And(*cs) if cs else z3.BoolVal(True)
            self.sync(st.pc)
            self.solver.set('timeout', 2000)
            r = self.solver.check(c)
            if r == z3.unsat:
                return vals
            if r != z3.sat:
                return None
            m = self.solver.model()
            v = m.eval(t, model_completion=True)
            vals.append(v.as_long())
            if len(vals) > limit:
                return None

    # ------------------------------------------------------------ pure evaluation
    def pure(self, st, fname, args):
        """evaluate a specification function in the current state, merging its paths into one value"""
        fn = self.mod.fn(fname)
        if fn is None or fn.decl:
            raise Unsupported('no body for %s' % fname)
        sub = st.fork()
        sub.spec = True
        sub.br = []
        sub.active = []
        base = len(sub.pc)
        sub.frames = [self.newframe(fn, list(args))]
        sink = []
        self.explore([sub], sink)
        facts = []
        seen = set()
        for s, v in sink:
            for f in s.pc[base:]:
                if f.get_id() not in seen:
                    seen.add(f.get_id())
                    facts.append(f)
            for k, v2 in s.hits.items():
                if isinstance(k, tuple) and k[0] == 'sel' or isinstance(k, str) and k[0] == '&':
                    st.hits[k] = v2
        st.pc.extend(facts)
        if not sink:
            raise Unsupported('specification function %s has no path' % fname)
        res = None
        for s, v in reversed(sink):
            if res is None:
                res = v
                continue
            c = True
            for x in s.br:
                c = band(c, x)
            res = self.merge(c, v, res)
        return res

    def merge(self, c, a, b):
        if isinstance(a, IV) and isinstance(b, IV):
            if a.u is not None and b.u is not None:
                return IV(a.w, u=ite(c, a.u, b.u))
            if a.s is not None and b.s is not None:
                return IV(a.w, s=ite(c, a.s, b.s))
            return IV(a.w, u=ite(c, a.U(), b.U()))
        if isinstance(a, (Ptr, Raw)) or isinstance(b, (Ptr, Raw)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return Ptr(a.obj, lin_of(ite(c, a.off.term(), b.off.term())))
            raise Unsupported('merge of pointers in specification')
        if a is None and b is None:
            return None
        return ite(c, a, b)

    # ------------------------------------------------------------ one instruction
    def step(self, st, fr, b, ins, work, sink):
        op = ins.op
        if op in ('call', 'invoke'):
            return self.call(st, fr, ins, work, sink)
        if op in ('br', 'switch', 'ret', 'unreachable'):
            return getattr(self, 'i_' + op)(st, fr, ins, work, sink)
        if op == 'phi':
            vals = []
            for I in b.insts[:b.nphi]:
                for pb, v in I.ops:
                    if pb == fr.prev:
                        vals.append(self.ev(st, fr, v))
                        break
                else:
                    raise Unsupported('phi without incoming')
            for I, v in zip(b.insts[:b.nphi], vals):
                fr.env[I.id] = v
            fr.ii = b.nphi
            return False
        h = getattr(self, 'i_' + op, None)
        if h is None:
            raise Unsupported('instruction %s' % op)
        r = h(st, fr, ins)
        fr.env[ins.id] = r
        fr.ii += 1
        return False

    # control flow
    def i_br(self, st, fr, ins, work, sink):
        if not ins.ops:
            return self.goto(st, fr, ins.x['succs'][0], sink)
        c = self.ev(st, fr, ins.ops[0])
        # LLVM's successor order for conditional br: true, false
        t, f = ins.x['succs']
        return self.branch(st, fr, c, t, f, work, sink)

    def branch(self, st, fr, c, t, f, work, sink):
        if not isinstance(c, bool):
            s = z3.simplify(c)
            if z3.is_true(s):
                c = True
            elif z3.is_false(s):
                c = False
        if isinstance(c, bool):
            self.note_concrete(st, fr, t if c else f, f if c else t)
            return self.goto(st, fr, t if c else f, sink)
        if t == f:
            return self.goto(st, fr, t, sink)
        if st.spec:
            pn = self.pinned(st, c)
            if pn is not None:
                return self.goto(st, fr, t if pn else f, sink)
            self.unroll_guard(st, fr, t, f)
            o = st.fork()
            o.br.append(z3.Not(c))
            self.pin(o, z3.Not(c))
            if not self.goto(o, o.frames[-1], f, sink):
                work.append(o)
            st.br.append(c)
            self.pin(st, c)
            return self.goto(st, fr, t, sink)
        self.nbranch += 1
        a = self.check(st, c)
        if a == z3.unsat:
            self.nbranch_pruned += 1
            self.note_decided(st, fr, t, f)
            return self.goto(st, fr, f, sink)
        n = self.check(st, z3.Not(c))
        if n == z3.unsat:
            self.nbranch_pruned += 1
            self.note_decided(st, fr, t, f)
            return self.goto(st, fr, t, sink)
        self.maybe_cut(st, fr, t, f)
        o = st.fork()
        o.pc.append(z3.Not(c))
        fo = o.frames[-1]
        try:
            if not self.goto(o, fo, f, sink):
                work.append(o)
        except PathEnd:
            pass
        st.pc.append(c)
        return self.goto(st, fr, t, sink)

    def unroll_guard(self, st, fr, t, f):
        pass

    def maybe_cut(self, st, fr, t, f):
        """a symbolic decision on whether to stay in a loop: the loop needs an invariant if the contract has one left"""
        if st.spec or self.bounded is not None:
            return
        for h, body in fr.fn.loops.items():
            if fr.bi in body and ((t in body) != (f in body)):
                key = (fr.fn.name, h)
                if key not in self.cuts and not st.hits.get(('conc', len(st.frames), key)) and not self.meta['skiploop'](fr.fn.name):
                    self.need_cut(st, fr, key, h)

    def need_cut(self, st, fr, key, h):
        # an enclosing loop whose exit was decided by the solver (not by constants) is cut first
        for h2, body in sorted(fr.fn.loops.items(), key=lambda x: -len(x[1])):
            k2 = (fr.fn.name, h2)
            if h2 != h and h in body and k2 not in self.cuts and st.hits.get(('symdec', len(st.frames), k2)) and not st.hits.get(('conc', len(st.frames), k2)) and not self.meta['skiploop'](fr.fn.name):
                raise NeedCut(k2)
        raise NeedCut(key)

    def note_decided(self, st, fr, t, f):
        for h, body in fr.fn.loops.items():
            if fr.bi in body and ((t in body) != (f in body)):
                st.hits[('symdec', len(st.frames), (fr.fn.name, h))] = True

    def note_concrete(self, st, fr, t, f):
        """the decision to stay in a loop was concrete: the loop is unrolled"""
        if t == f:
            return
        for h, body in fr.fn.loops.items():
            if fr.bi in body and t in body and f not in body:
                st.hits[('conc', len(st.frames), (fr.fn.name, h))] = True

    def goto(self, st, fr, t, sink):
        src = fr.bi
        loops = fr.fn.loops
        depth = len(st.frames)
        if st.active:
            while st.active and st.active[-1]['depth'] == depth and t not in st.active[-1]['body']:
                st.active.pop()
        fr.prev, fr.bi, fr.ii = src, t, 0
        if t in loops:
            body = loops[t]
            key = (fr.fn.name, t)
            if src in body:
                if t in fr.cuts and not st.spec:
                    self.cut_back(st, fr, t, key)
                    return True
                k = ('ur', depth, key)
                n = st.hits.get(k, 0) + 1
                st.hits[k] = n
                lim = self.opts['unroll']
                if self.bounded is not None and not st.spec and n > self.bounded:
                    self.bound_hit = True
                    return True
                if n > max(lim, 0) and not st.spec:
                    if n > 5000 or n > lim and not self.opts.get('longloops') and not self.own_loop(fr, t):
                        if key not in self.cuts and self.bounded is None:
                            raise NeedCut(key)
                        raise Unsupported('loop %s:%d unrolled more than %d times' % (self.meta['dem'](fr.fn.name), t, n))
                if n > 5000:
                    raise Unsupported('loop unrolled too often')
            else:
                st.hits[('ur', depth, key)] = 0
                st.hits[('conc', depth, key)] = False
                st.hits[('symdec', depth, key)] = False
                if key in self.cuts and not st.spec and self.bounded is None:
                    self.cut_enter(st, fr, t, key)
        return False

    def own_loop(self, fr, t):
        """a loop of the contract text itself: unrolled as long as its condition is concrete"""
        for ins in fr.fn.blocks[t].insts + fr.fn.blocks[fr.prev].insts:
            if ins.file:
                return ins.file.startswith('vc') or ins.file in self.meta['contract_files']
        return False

    bounded_loops = ()
    bound_hit = False

    # ------------------------------------------------------------ loop invariants
    def phis(self, st, fr, t):
        b = fr.fn.blocks[t]
        out = []
        for I in b.insts[:b.nphi]:
            for pb, v in I.ops:
                if pb == fr.prev:
                    out.append(self.ev(st, fr, v))
                    break
        return out

    def candidates(self, st, fr, t):
        """values an invariant may speak about: loop-carried values of this loop, then of enclosing loops, then local objects"""
        b = fr.fn.blocks[t]
        c = [('phi', i, b.insts[i].ty) for i in range(b.nphi)]
        for h, body in sorted(fr.fn.loops.items(), key=lambda x: len(x[1])):
            if h != t and t in body:
                bb = fr.fn.blocks[h]
                c += [('ophi', (h, i), bb.insts[i].ty) for i in range(bb.nphi)]
        for k in range(len(st.frames) - 1, 0, -1):
            f = st.frames[k]
            for (oid, tyname) in f.allocas:
                c.append(('alloca', (len(st.frames) - 1 - k, st.mem[oid].name, tyname), None))
        return c

    def do_match(self, st, fr, t, ci):
        if ci['inv'] is None:
            ci['match'] = []
            ci['ncand'] = []
            return
        fn = self.mod.fn(ci['inv'])
        cands = self.candidates(st, fr, t)
        hint = (ci['hint'] or '').split(',')
        match = []
        nc = []
        used = set()
        for n, pt in enumerate(fn.params):
            h = hint[n] if n < len(hint) else ''
            if h.startswith('alloca='):
                pat = h[7:]
                m = [c for c in cands if c[0] == 'alloca' and c[1][2] and re.search(pat, c[1][2]) and c not in used]
                # local objects that have a value on entry and that the loop writes come first
                w = set(n_ for n_, _ in ci['writes'])
                init = {o.name for o in st.mem.values() if o.cells or o.arrs}
                m.sort(key=lambda c: 0 if c[1][1] in w and c[1][1] in init else 1)
                front = [c for c in m if c[1][1] in w and c[1][1] in init] or m
                nc.append(len(front))
                perm = self.meta.get('perm', {}).get(ci['idx'])
                k = perm[n] if perm is not None and n < len(perm) and perm[n] < len(front) else 0
                if k >= len(front):
                    raise Unsupported('invariant %s: no local object %s' % (ci['inv'], pat))
                used.add(front[k])
                match.append(front[k])
                continue
            nc.append(len(self.of_type(cands, pt)))
            ok = [c for c in self.of_type(cands, pt) if c not in used]
            if h.startswith('phi'):
                want = int(h[3:])
                ok = [c for c in ok if c[0] == 'phi' and c[1] == want] or ok
            perm = self.meta.get('perm', {}).get(ci['idx'])
            if perm is not None and n < len(perm) and perm[n] < len(ok):
                c = ok[perm[n]]
            elif ok:
                c = ok[0]
            else:
                raise Unsupported('invariant %s: no loop-carried value of type %r for parameter %d' % (ci['inv'], pt, n))
            used.add(c)
            match.append(c)
        ci['match'] = match
        ci['ncand'] = nc

    def of_type(self, cands, pt):
        """loop-carried values for a parameter: of its type, then integers of another width"""
        c = [c for c in cands if c[0] in ('phi', 'ophi') and c[2] is not None]
        a = [x for x in c if repr(x[2]) == repr(pt)]
        if pt.k == 'int' and pt.w > 1:
            a += [x for x in c if x[2].k == 'int' and x[2].w > 1 and x[2].w != pt.w]
        return a

    def inv_args(self, st, fr, t, ci, vals):
        out = self.inv_args0(st, fr, t, ci, vals)
        fn = self.mod.fn(ci['inv']) if ci['inv'] else None
        for i, v in enumerate(out):
            pt = fn.params[i]
            if isinstance(v, IV) and pt.k == 'int' and v.w != pt.w:
                u = v.U()
                if pt.w < v.w:
                    u = u % (1 << pt.w)
                out[i] = IV(pt.w, u=u)
        return out

    def inv_args0(self, st, fr, t, ci, vals):
        out = []
        for kind, x, ty in ci['match']:
            if kind == 'phi':
                out.append(vals[x])
            elif kind == 'ophi':
                h, i = x
                out.append(fr.env[fr.fn.blocks[h].insts[i].id])
            else:
                up, name, tyname = x
                f = st.frames[len(st.frames) - 1 - up]
                oid = None
                for (o, tn) in f.allocas:
                    if st.mem[o].name == name:
                        oid = o
                if oid is None:
                    raise Unsupported('invariant object vanished')
                out.append(Ptr(oid, Lin(0)))
        return out

    def exit_bounds(self, st, fr, t):
        """operands that the loop's exit test compares a loop-carried value with, on the first iteration"""
        sub = st.fork()
        sub.spec = True
        sub.br = []
        sub.active = []
        depth = len(sub.frames)
        out = []
        try:
            for _ in range(400):
                f = sub.frames[-1]
                b = f.fn.blocks[f.bi]
                ins = b.insts[f.ii]
                if len(sub.frames) == depth:
                    if ins.op == 'icmp' and ins.ops[0].ty.k == 'int':
                        for n, o in enumerate(ins.ops):
                            v = self.ev(sub, f, o)
                            if isinstance(v, IV):
                                out.append((ins.ops[0].ty.w, ins.x[0] == 's', v))
                    elif ins.op == 'icmp' and ins.ops[0].ty.k == 'ptr':
                        for n, o in enumerate(ins.ops):
                            v = self.ev(sub, f, o)
                            if isinstance(v, Ptr):
                                out.append(('ptr', False, v))
                    if ins.op in ('br', 'switch', 'ret', 'unreachable'):
                        if ins.op == 'br' and len(ins.x['succs']) == 1 and ins.x['succs'][0] in fr.fn.loops.get(t, ()) and ins.x['succs'][0] not in fr.fn.loops:
                            f.prev, f.bi, f.ii = f.bi, ins.x['succs'][0], 0
                            continue
                        break
                elif ins.op in ('br', 'switch'):
                    c = self.ev(sub, f, ins.ops[0]) if ins.ops else True
                    if ins.op == 'switch' or not isinstance(c, bool):
                        break
                    nx = ins.x['succs'][0 if c else 1]
                    if nx in f.fn.loops:
                        break
                    f.prev, f.bi, f.ii = f.bi, nx, 0
                    continue
                if self.step(sub, f, b, ins, [], []):
                    break
        except (Unsupported, PathEnd, ForkOn, Concretize, KeyError):
            pass
        return out

    def auto_cands(self, st, fr, t, vals, nv, bounds, ci):
        """candidate invariants (kept only while provable): bounds of loop-carried integers by their initial value and by the exit test"""
        out = []
        b = fr.fn.blocks[t]
        moved = []
        for i, I in enumerate(b.insts[:b.nphi]):
            v, x = vals[i], nv[i]
            stp = self.loop_step(fr, t, I)
            if stp and I.ty.k == 'ptr' and isinstance(v, Ptr) and isinstance(x, Ptr) and v.obj == x.obj:
                moved.append((i, stp, x.off.add(v.off.scale(-1)).term()))
            elif stp and I.ty.k == 'int' and I.ty.w == 64:
                moved.append((i, stp, x.U() - v.U()))
            elif stp and I.ty.k == 'int' and I.ty.w in (8, 16, 32):
                moved.append((i, stp, x.U() - v.U()))
            if I.ty.k == 'ptr' and isinstance(v, Ptr) and isinstance(x, Ptr) and v.obj == x.obj:
                out.append(((i, 'p', 'ge'), cmp('ge', x.off.term(), v.off.term())))
                out.append(((i, 'p', 'le'), cmp('le', x.off.term(), v.off.term())))
                n = 0
                for (w, s_, bv) in bounds:
                    if w == 'ptr' and bv.obj == x.obj:
                        out.append(((i, 'pb', n), cmp('le', x.off.term(), bv.off.term())))
                        out.append(((i, 'pc', n), cmp('ge', x.off.term(), bv.off.term())))
                        n += 1
            if I.ty.k != 'int' or I.ty.w not in (8, 16, 32, 64):
                continue
            for sg in ('u', 's'):
                g = (lambda y: y.U()) if sg == 'u' else (lambda y: y.S())
                out.append(((i, sg, 'ge'), cmp('ge', g(x), g(v))))
                out.append(((i, sg, 'le'), cmp('le', g(x), g(v))))
            n = 0
            for (w, s_, bv) in bounds:
                if w == I.ty.w and bv is not v:
                    g = (lambda y: y.S()) if s_ else (lambda y: y.U())
                    out.append(((i, 'b', n), cmp('le', g(x), g(bv))))
                    out.append(((i, 'c', n), cmp('ge', g(x), g(bv))))
                    n += 1
        # induction variables advance together
        for a in range(1, len(moved)):
            i, s1, d1 = moved[0]
            j, s2, d2 = moved[a]
            out.append(((i, 'rel', j), cmp('eq', d1 * s2, d2 * s1)))
        return [(k, c) for k, c in out if k not in ci['dead']]

    def loop_step(self, fr, t, I):
        """constant by which a loop-carried value advances in every iteration"""
        key = (fr.fn.name, t, I.id)
        if key in self.steps:
            return self.steps[key]
        body = fr.fn.loops[t]
        insts = {i.id: i for bb in fr.fn.blocks for i in bb.insts}
        res = None
        for pb, ov in I.ops:
            if pb in body:
                r = None
                if ov.k == 'inst' and ov.v in insts:
                    g = insts[ov.v]
                    if g.op in ('add', 'sub') and g.ops[0].k == 'inst' and g.ops[0].v == I.id and g.ops[1].k == 'int':
                        c = g.ops[1].v
                        w = I.ty.w
                        c = c - (1 << w) if c >= 1 << (w - 1) else c
                        r = c if g.op == 'add' else -c
                    elif g.op == 'gep' and len(g.ops) == 2 and g.ops[0].k == 'inst' and g.ops[0].v == I.id and g.ops[1].k == 'int':
                        c = g.ops[1].v
                        c = c - (1 << 64) if c >= 1 << 63 else c
                        r = c * g.x.size
                if r is None or (res is not None and res != r):
                    res = None
                    break
                res = r
        self.steps[key] = res
        return res

    def inv_parts(self, st, ci, args):
        if ci['inv'] is None:
            return True
        v = self.pure(st, ci['inv'], args)
        return v

    def split_and(self, g):
        """conjuncts of a goal, to give the solvers small obligations"""
        if isinstance(g, bool):
            return [g]
        if z3.is_and(g):
            out = []
            for c in g.children():
                out += self.split_and(c)
            return out
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(g):
            c, a, b = g.children()
            if z3.is_false(b):
                return self.split_and(c) + [z3.Implies(c, x) if not isinstance(x, bool) else x for x in self.split_and(a)]
            if z3.is_false(a):
                return self.split_and(z3.Not(c)) + self.split_and(b)
        if z3.is_quantifier(g) and g.is_forall() and g.num_vars() == 1:
            b = g.body()
            if z3.is_implies(b):
                v = z3.FreshConst(g.var_sort(0), 'q')
                bb = z3.substitute_vars(b, v)
                ps = self.split_and(bb.arg(1))
                if len(ps) > 1:
                    return [z3.ForAll([v], z3.Implies(bb.arg(0), p)) for p in ps]
        return [g]

    def oblige_split(self, st, goal, name, kind):
        parts = self.split_and(goal)
        for i, p in enumerate(parts):
            self.oblige(st, p, name if len(parts) == 1 else '%s [%d/%d]' % (name, i + 1, len(parts)), kind)

    def cut_enter(self, st, fr, t, key):
        ci = self.cuts[key]
        self.do_match(st, fr, t, ci)
        vals = self.phis(st, fr, t)
        args = self.inv_args(st, fr, t, ci, vals)
        g = self.inv_parts(st, ci, args)
        lname = '%s loop@%s' % (self.meta['dem'](key[0]).split('(')[0], self.where(st))
        if ci['inv'] is not None:
            self.oblige_split(st, g, 'loop invariant %s holds on entry of %s' % (ci['inv'], lname), 'inv-entry')
        bounds = self.exit_bounds(st, fr, t)
        for k, c in self.auto_cands(st, fr, t, vals, vals, bounds, ci):
            if c is not True and not self.proved(st, c, 400):
                ci['dead'].add(k)
        # havoc
        byname = {}
        for oid, o in st.mem.items():
            byname.setdefault(o.name, oid)
        for (name, loc) in sorted(ci['writes'], key=repr):
            if name == '<flat>':
                st.flat[loc] = z3.Array(self.fresh(st, 'heap.loop:' + loc), z3.IntSort(), keysort(loc))
                continue
            oid = byname.get(name)
            if oid is None:
                continue
            o = st.wobj(oid)
            if loc[0] == 'arr':
                if o.stride is None:
                    continue
                o.arrs[(loc[1], loc[2])] = z3.Array(self.fresh(st, '%s.loop.%d:%s' % (o.name, loc[1], loc[2])), z3.IntSort(), keysort(loc[2]))
            else:
                _, off, k, sz = loc
                if o.stride is not None:
                    raise Unsupported('object became strided inside a loop')
                for q, cc in list(o.cells.items()):
                    if q < off + sz and off < q + cc[0] and q != off:
                        del o.cells[q]
                old = o.cells.get(off)
                o.cells[off] = (sz, k, self.havoc_like(st, old[2] if old else None, k, '%s.loop+%d' % (o.name, off)))
        b = fr.fn.blocks[t]
        nv = []
        for I, v in zip(b.insts[:b.nphi], vals):
            if I.ty.k == 'ptr':
                nv.append(self.havoc_ptr(st, fr, t, I, v))
            else:
                nv.append(self.fresh_key(st, tykey(I.ty), 'phi.%d.%d' % (t, I.id)))
        for I, v in zip(b.insts[:b.nphi], nv):
            fr.env[I.id] = v
        fr.ii = b.nphi
        args = self.inv_args(st, fr, t, ci, nv)
        g = self.inv_parts(st, ci, args)
        self.assume(st, g)
        for k, c in self.auto_cands(st, fr, t, vals, nv, bounds, ci):
            self.assume(st, c)
        fr.cuts[t] = (vals, bounds)
        st.active.append(dict(depth=len(st.frames), key=key, body=fr.fn.loops[t], objs={oid: o.name for oid, o in st.mem.items()}))

    def havoc_like(self, st, old, key, name):
        if key == 'ptr' and isinstance(old, Ptr):
            o = st.mem[old.obj]
            if o.stride is not None:
                k = z3.Int(self.fresh(st, name))
                return Ptr(old.obj, old.off.add(Lin(0, {k.get_id(): (k, o.stride)})))
        if key == 'i64' and isinstance(old, IV) and isinstance(old.prov, Ptr):
            pass
        return self.fresh_key(st, key, name)

    def havoc_ptr(self, st, fr, t, I, v):
        if isinstance(v, Ptr):
            step = None
            body = fr.fn.loops[t]
            insts = {i.id: i for bb in fr.fn.blocks for i in bb.insts}
            for pb, ov in I.ops:
                if pb in body and ov.k == 'inst':
                    g = insts.get(ov.v)
                    if g is not None and g.op == 'gep' and len(g.ops) == 2 and g.ops[1].k == 'int':
                        step = g.x.size
            if step:
                k = z3.Int(self.fresh(st, 'ptrphi'))
                return Ptr(v.obj, v.off.add(Lin(0, {k.get_id(): (k, step)})))
        return self.fresh_key(st, 'ptr', 'ptrphi')

    def cut_back(self, st, fr, t, key):
        ci = self.cuts[key]
        vals = self.phis(st, fr, t)
        v0, bounds = fr.cuts[t]
        for k, c in self.auto_cands(st, fr, t, v0, vals, bounds, ci):
            if c is not True and not self.proved(st, c, 400):
                ci['dead'].add(k)
                self.dirty = True
        args = self.inv_args(st, fr, t, ci, vals)
        g = self.inv_parts(st, ci, args)
        lname = '%s loop@%s' % (self.meta['dem'](key[0]).split('(')[0], self.where(st))
        if ci['inv'] is not None:
            self.oblige_split(st, g, 'loop invariant %s preserved by %s' % (ci['inv'], lname), 'inv-preserved')
        self.endstates += 1

    def i_switch(self, st, fr, ins, work, sink):
        v = self.ev(st, fr, ins.ops[0])
        c = v.const()
        if c is not None:
            for k, t in ins.x['cases']:
                if k == c:
                    return self.goto(st, fr, t, sink)
            return self.goto(st, fr, ins.x['default'], sink)
        u = v.U()
        rest = []
        for k, t in ins.x['cases']:
            cond = cmp('eq', u, k)
            rest.append(bnot(cond))
            if not st.spec and self.check(st, cond) == z3.unsat:
                continue
            o = st.fork()
            (o.br if o.spec else o.pc).append(cond)
            try:
                if not self.goto(o, o.frames[-1], t, sink):
                    work.append(o)
            except PathEnd:
                pass
        cond = z3.And(*rest)
        if not st.spec and self.check(st, cond) == z3.unsat:
            raise PathEnd()
        (st.br if st.spec else st.pc).append(cond)
        return self.goto(st, fr, ins.x['default'], sink)

    def i_ret(self, st, fr, ins, work, sink):
        v = self.ev(st, fr, ins.ops[0]) if ins.ops else None
        depth = len(st.frames)
        while st.active and st.active[-1]['depth'] >= depth:
            st.active.pop()
        st.frames.pop()
        for oid, _ in fr.allocas:
            o = st.mem.get(oid)
            if o is not None and o.kind == 'alloca':
                o = st.wobj(oid)
                o.freed = True
        if not st.frames:
            if sink is not None:
                sink.append((st, v))
            else:
                self.endstates += 1
                self.on_end(st)
            return True
        pf = st.frames[-1]
        pf.env[fr.ret] = v
        pf.ii += 1
        return False

    def on_end(self, st):
        pass

    def i_unreachable(self, st, fr, ins, work, sink):
        if not st.spec:
            self.oblige(st, False, 'unreachable code is not reached', 'unreachable')
        raise PathEnd()

    # integer arithmetic
    def math_spec(self, st, ins):
        return st.spec and (ins.file.startswith('vc') or ins.file in self.meta['contract_files'])

    def wrap_u(self, st, w, t, lo_possible, hi_possible):
        M = 1 << w
        if isinstance(t, int):
            return t % M
        if lo_possible and not self.proved(st, t >= 0):
            if hi_possible and not self.proved(st, t < M):
                return z3.If(t < 0, t + M, z3.If(t >= M, t - M, t))
            return z3.If(t < 0, t + M, t)
        if hi_possible and not self.proved(st, t < M):
            return z3.If(t >= M, t - M, t)
        self.nexact += 1
        return t

    def arith(self, st, ins, a, b, op):
        w = ins.ty.w
        if w == 1:
            raise Unsupported('i1 arithmetic')
        nuw, nsw = ins.x
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            r = {'add': ca + cb, 'sub': ca - cb, 'mul': ca * cb}[op] % (1 << w)
            return IV(w, u=r)
        f = {'add': iadd, 'sub': isub, 'mul': imul}[op]
        M = 1 << w
        if self.math_spec(st, ins) and not nsw:
            # spec integers are mathematical
            sg = a.u is None or b.u is None and cb is None
            if cb is not None and op in ('add', 'sub') and cb >= M // 2:
                return IV(w, u=f(a.U(), cb - M))
            return IV(w, s=f(a.S(), b.S())) if sg else IV(w, u=f(a.U(), b.U()))
        if nsw:
            t = f(a.S(), b.S())
            if not isinstance(t, int) and not st.spec and self.opts.get('overflow', True):
                self.oblige(st, z3.And(t >= -(M // 2), t < M // 2), 'no signed overflow in %s' % op, 'overflow')
            return IV(w, s=t)
        if nuw:
            return IV(w, u=f(a.U(), b.U()))
        # provenance
        if op == 'add' and (isinstance(a.prov, Ptr) or isinstance(b.prov, Ptr)):
            if isinstance(b.prov, Ptr):
                a, b, ca, cb = b, a, cb, ca
            off = self.scaled(st, b, 1)
            p = Ptr(a.prov.obj, a.prov.off.add(off))
            return IV(w, u=iadd(self.base(st, p.obj), p.off.term()), prov=p)
        if op == 'sub' and isinstance(a.prov, Ptr):
            if isinstance(b.prov, Ptr) and b.prov.obj == a.prov.obj:
                return IV(w, s=a.prov.off.add(b.prov.off.scale(-1)).term())
            if not isinstance(b.prov, Ptr):
                off = self.scaled(st, b, 1)
                p = Ptr(a.prov.obj, a.prov.off.add(off.scale(-1)))
                return IV(w, u=iadd(self.base(st, p.obj), p.off.term()), prov=p)
        if st.spec:
            sgn = False
        if a.u is None and (b.u is None or cb is not None) and a.s is not None:
            t = f(a.s, b.S())
            if not st.spec and self.proved(st, z3.And(t >= -(M // 2), t < M // 2)):
                return IV(w, s=t)
            if op == 'mul':
                return IV(w, u=t % M)
            return IV(w, s=z3.If(t >= M // 2, t - M, z3.If(t < -(M // 2), t + M, t)))
        au, bu = a.U(), b.U()
        if op == 'add':
            if cb is not None and cb >= M // 2:
                return IV(w, u=self.wrap_u2(st, w, isub(au, M - cb), True, False))
            if ca is not None and ca >= M // 2:
                return IV(w, u=self.wrap_u2(st, w, isub(bu, M - ca), True, False))
            return IV(w, u=self.wrap_u2(st, w, iadd(au, bu), False, True))
        if op == 'sub':
            return IV(w, u=self.wrap_u2(st, w, isub(au, bu), True, False))
        t = imul(au, bu)
        if isinstance(t, int):
            return IV(w, u=t % M)
        if not st.spec and self.proved(st, t < M):
            return IV(w, u=t)
        return IV(w, u=t % M)

    def wrap_u2(self, st, w, t, lo, hi):
        if st.spec and not isinstance(t, int):
            M = 1 << w
            if lo:
                return z3.If(t < 0, t + M, t)
            return z3.If(t >= M, t - M, t)
        return self.wrap_u(st, w, t, lo, hi)

    def i_add(self, st, fr, ins):
        return self.arith(st, ins, self.ev(st, fr, ins.ops[0]), self.ev(st, fr, ins.ops[1]), 'add')

    def i_sub(self, st, fr, ins):
        return self.arith(st, ins, self.ev(st, fr, ins.ops[0]), self.ev(st, fr, ins.ops[1]), 'sub')

    def i_mul(self, st, fr, ins):
        return self.arith(st, ins, self.ev(st, fr, ins.ops[0]), self.ev(st, fr, ins.ops[1]), 'mul')

    def nz(self, st, t):
        if isinstance(t, int):
            if t == 0:
                self.oblige(st, False, 'no integer division by zero', 'divzero')
                raise PathEnd()
            return
        self.oblige(st, t != 0, 'no integer division by zero', 'divzero')

    def i_udiv(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        x, y = a.U(), b.U()
        self.nz(st, y)
        if isinstance(x, int) and isinstance(y, int):
            return IV(ins.ty.w, u=x // y)
        # (k*y)/y with an exact product
        if isinstance(y, int) and not isinstance(x, int):
            l = lin_of(x)
            if l.t and l.c % y == 0 and all(c % y == 0 for _, c in l.t.values()):
                return IV(ins.ty.w, u=Lin(l.c // y, {k: (q, c // y) for k, (q, c) in l.t.items()}).term())
        return IV(ins.ty.w, u=rc_int(x) / y)

    def i_urem(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        x, y = a.U(), b.U()
        self.nz(st, y)
        if isinstance(x, int) and isinstance(y, int):
            return IV(ins.ty.w, u=x % y)
        return IV(ins.ty.w, u=rc_int(x) % y)

    def tdiv(self, x, y):
        if isinstance(x, int) and isinstance(y, int):
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if isinstance(y, int) and y > 0:
            l = lin_of(x) if not isinstance(x, int) else Lin(x)
            if l.t and l.c % y == 0 and all(c % y == 0 for _, c in l.t.values()):
                return Lin(l.c // y, {k: (q, c // y) for k, (q, c) in l.t.items()}).term()
            return z3.If(x >= 0, x / y, -((-x) / y))
        x = rc_int(x)
        ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
        return z3.If((x >= 0) == (y >= 0), ax / ay, -(ax / ay))

    def i_sdiv(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        x, y = a.S(), b.S()
        self.nz(st, y)
        return IV(ins.ty.w, s=self.tdiv(x, y))

    def i_srem(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        x, y = a.S(), b.S()
        self.nz(st, y)
        if isinstance(x, int) and isinstance(y, int):
            return IV(ins.ty.w, s=x - y * self.tdiv(x, y))
        if isinstance(y, int) and y > 0:
            return IV(ins.ty.w, s=z3.If(x >= 0, x % y, -((-x) % y)))
        return IV(ins.ty.w, s=isub(x, imul(y, self.tdiv(x, y))))

    def bitfn(self, st, name, w, x, y):
        if not isinstance(x, int) and not isinstance(y, int) and x.get_id() > y.get_id() or isinstance(y, int) is False and isinstance(x, int):
            x, y = y, x
        f = z3.Function('%s%d' % (name, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = f(rc_int(x), rc_int(y))
        x, y = rc_int(x), rc_int(y)
        if name == 'and':
            self.fact(st, z3.And(r >= 0, r <= x, r <= y))
        elif name == 'or':
            self.fact(st, z3.And(r >= x, r >= y, r <= x + y, r < (1 << w)))
        else:
            self.fact(st, z3.And(r >= 0, r <= x + y, r < (1 << w)))
        return r

    def i_and(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        if ins.ty.w == 1:
            return band(a, b)
        w = ins.ty.w
        x, y = a.U(), b.U()
        if isinstance(x, int) and not isinstance(y, int):
            a, b, x, y = b, a, y, x
        if isinstance(x, int) and isinstance(y, int):
            return IV(w, u=x & y)
        if isinstance(y, int):
            if y == 0:
                return IV(w, u=0)
            if y == (1 << w) - 1:
                return a
            if (y & (y + 1)) == 0:
                k = y.bit_length()
                if a.cat is not None:
                    return IV(w, cat=None, u=self.extract(a, 0, k).U())
                return IV(w, u=x % (y + 1))
            # contiguous mask
            tz = (y & -y).bit_length() - 1
            m = y >> tz
            if (m & (m + 1)) == 0:
                hi = m.bit_length() + tz
                t = x if hi >= w else x % (1 << hi)
                return IV(w, u=t - t % (1 << tz))
        return IV(w, u=self.bitfn(st, 'and', w, x, y))

    def i_or(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        if ins.ty.w == 1:
            return bor(a, b)
        w = ins.ty.w
        x, y = a.U(), b.U()
        if isinstance(x, int) and isinstance(y, int):
            return IV(w, u=x | y)
        if x == 0 if isinstance(x, int) else False:
            return b
        if y == 0 if isinstance(y, int) else False:
            return a
        # disjoint: low/high halves
        for p, q in ((x, y), (y, x)):
            s = self.shift_of(p)
            if s and (self.bits_of(q) or 99) <= s:
                return IV(w, u=iadd(p, q))
        if not st.spec:
            for p, q in ((x, y), (y, x)):
                for k in (32, 16, 8):
                    if k < w and not isinstance(p, int) and not isinstance(q, int) and self.proved(st, z3.And(q < (1 << k), p % (1 << k) == 0)):
                        return IV(w, u=iadd(p, q))
        return IV(w, u=self.bitfn(st, 'or', w, x, y))

    def shift_of(self, t):
        """number of known trailing zero bits of a term"""
        if isinstance(t, int):
            return (t & -t).bit_length() - 1 if t else 64
        l = lin_of(t)
        if not l.t:
            return 0
        g = min(((c & -c).bit_length() - 1) for _, c in l.t.values())
        if l.c:
            g = min(g, (l.c & -l.c).bit_length() - 1)
        return g

    def bits_of(self, t):
        if isinstance(t, int):
            return t.bit_length()
        return self.known_bits.get(t.get_id(), (None, None))[1]

    known_bits = {}

    def i_xor(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        if ins.ty.w == 1:
            if b is True:
                return bnot(a)
            if a is True:
                return bnot(b)
            if isinstance(a, bool) and isinstance(b, bool):
                return a != b
            if b is False:
                return a
            if a is False:
                return b
            return z3.Xor(a, b)
        w = ins.ty.w
        x, y = a.U(), b.U()
        if isinstance(x, int) and isinstance(y, int):
            return IV(w, u=x ^ y)
        M = (1 << w) - 1
        if isinstance(y, int) and y == M:
            return IV(w, u=M - x)
        if isinstance(y, int) and y == 0:
            return a
        return IV(w, u=self.bitfn(st, 'xor', w, x, y))

    def i_shl(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        w = ins.ty.w
        k = b.const()
        ca = a.const()
        if k is not None:
            if k >= w:
                raise Unsupported('shift too far')
            if ca is not None:
                return IV(w, u=(ca << k) % (1 << w))
            t = a.U() * (1 << k)
            if not st.spec and self.proved(st, t < (1 << w)) or self.math_spec(st, ins):
                return IV(w, u=t)
            return IV(w, u=t % (1 << w))
        if ca is not None or True:
            # x << k as an uninterpreted power of two
            f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
            p = f(rc_int(b.U()))
            self.fact(st, p >= 1)
            kt = rc_int(b.U())
            self.fact(st, z3.And(*[z3.Implies(kt == i, p == (1 << i)) for i in range(0, w)]))
            t = imul(a.U(), p)
            return IV(w, u=t % (1 << w))

    def i_lshr(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        k = b.const()
        w = ins.ty.w
        if k is None:
            raise Unsupported('variable shift')
        ca = a.const()
        if ca is not None:
            return IV(w, u=ca >> k)
        return IV(w, u=a.U() / (1 << k))

    def i_ashr(self, st, fr, ins):
        a, b = (self.ev(st, fr, o) for o in ins.ops)
        k = b.const()
        w = ins.ty.w
        if k is None:
            raise Unsupported('variable shift')
        s = a.S()
        if isinstance(s, int):
            return IV(w, s=s >> k)
        l = lin_of(s)
        m = 1 << k
        if l.t and l.c % m == 0 and all(c % m == 0 for _, c in l.t.values()):
            return IV(w, s=Lin(l.c // m, {kk: (q, c // m) for kk, (q, c) in l.t.items()}).term())
        return IV(w, s=s / m)

    # conversions
    def i_trunc(self, st, fr, ins):
        a = self.ev(st, fr, ins.ops[0])
        w = ins.ty.w
        if w == 1:
            if a.b is not None:
                return a.b
            u = a.U()
            if isinstance(u, int):
                return bool(u & 1)
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(u.arg(1)) and z3.is_int_value(u.arg(2)):
                x, y = u.arg(1).as_long() & 1, u.arg(2).as_long() & 1
                return ite(u.arg(0), bool(x), bool(y))
            return u % 2 == 1
        if a.cat is not None:
            return self.extract(a, 0, w)
        if a.const() is not None:
            return IV(w, u=a.const() % (1 << w))
        if a.s is not None and a.u is None:
            if not st.spec and self.proved(st, z3.And(a.s >= -(1 << (w - 1)), a.s < (1 << (w - 1)))):
                return IV(w, s=a.s)
            if self.math_spec(st, ins):
                return IV(w, s=a.s)
        u = a.U()
        if not st.spec and self.proved(st, u < (1 << w)) or self.math_spec(st, ins):
            return IV(w, u=u)
        return IV(w, u=u % (1 << w))

    def i_zext(self, st, fr, ins):
        a = self.ev(st, fr, ins.ops[0])
        w = ins.ty.w
        if isinstance(a, bool) or z3.is_expr(a) and z3.is_bool(a):
            t = ite(a, 1, 0)
            return IV(w, u=t, s=t, b=a)
        u = a.U()
        if not isinstance(u, int) and a.s is not None and not isinstance(a.s, int) and not st.spec:
            if self.proved(st, a.s >= 0):
                u = a.s
        if not isinstance(u, int):
            self.known_bits[u.get_id()] = (u, a.w)
        return IV(w, u=u, s=u, b=a.b)

    def i_sext(self, st, fr, ins):
        a = self.ev(st, fr, ins.ops[0])
        w = ins.ty.w
        if isinstance(a, bool) or z3.is_expr(a) and z3.is_bool(a):
            return IV(w, s=ite(a, -1, 0))
        s = a.S()
        return IV(w, s=s)

    def i_fptoui(self, st, fr, ins):
        x = self.ev(st, fr, ins.ops[0])
        w = ins.ty.w
        if isc(x):
            return IV(w, u=int(x) % (1 << w))
        t = z3.ToInt(x)
        if not st.spec:
            self.oblige(st, z3.And(x > -1, x < (1 << w)), 'float to integer conversion in range', 'overflow')
        return IV(w, u=z3.If(x >= 0, t, 0))

    def i_fptosi(self, st, fr, ins):
        x = self.ev(st, fr, ins.ops[0])
        w = ins.ty.w
        if isc(x):
            return IV(w, s=int(x))
        if not st.spec and self.opts.get('overflow', True):
            self.oblige(st, z3.And(x > -(1 << (w - 1)) - 1, x < (1 << (w - 1))), 'float to integer conversion in range', 'overflow')
        return IV(w, s=z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))

    def itof(self, st, t, bits):
        if isinstance(t, int):
            return Fraction(t)
        lim = 1 << bits
        r = z3.ToReal(t)
        if st.spec or self.proved(st, z3.And(t <= lim, t >= -lim)):
            return r
        f = z3.Real(self.fresh(st, 'rounded'))
        e = z3.Q(1, 1 << bits)
        a = z3.If(t >= 0, r, -r)
        st.pc.append(z3.And(z3.Implies(z3.And(t <= lim, t >= -lim), f == r), f - r <= a * e, r - f <= a * e))
        return f

    def i_uitofp(self, st, fr, ins):
        a = self.ev(st, fr, ins.ops[0])
        if isinstance(a, bool) or z3.is_expr(a) and z3.is_bool(a):
            return ite(a, Fraction(1), Fraction(0))
        return self.itof(st, a.U(), 24 if ins.ty.k == 'float' else 53)

    def i_sitofp(self, st, fr, ins):
        a = self.ev(st, fr, ins.ops[0])
        return self.itof(st, a.S(), 24 if ins.ty.k == 'float' else 53)

    def i_fptrunc(self, st, fr, ins):
        return self.ev(st, fr, ins.ops[0])

    i_fpext = i_fptrunc

    def i_freeze(self, st, fr, ins):
        return self.ev(st, fr, ins.ops[0])

    def i_bitcast(self, st, fr, ins):
        a = self.ev(st, fr, ins.ops[0])
        f, t = ins.ops[0].ty, ins.ty
        if f.k == t.k:
            return a
        if t.k == 'int' and f.k in ('double', 'float'):
            iv = IV(t.w, u=self.opaque_bits(st, a))
            iv.prov = ('fbits', a)
            return iv
        if isinstance(a, IV) and isinstance(a.prov, tuple):
            return a.prov[1]
        raise Unsupported('bitcast %r to %r' % (f, t))

    def i_ptrtoint(self, st, fr, ins):
        return self.ptrtoint(st, self.ev(st, fr, ins.ops[0]), ins.ty.w)

    def i_inttoptr(self, st, fr, ins):
        return self.inttoptr(st, self.ev(st, fr, ins.ops[0]))

    # floats
    def i_fadd(self, st, fr, ins):
        return radd(self.ev(st, fr, ins.ops[0]), self.ev(st, fr, ins.ops[1]))

    def i_fsub(self, st, fr, ins):
        return rsub(self.ev(st, fr, ins.ops[0]), self.ev(st, fr, ins.ops[1]))

    def i_fmul(self, st, fr, ins):
        return rmul(self.ev(st, fr, ins.ops[0]), self.ev(st, fr, ins.ops[1]))

    def i_fneg(self, st, fr, ins):
        return rneg(self.ev(st, fr, ins.ops[0]))

    def i_fdiv(self, st, fr, ins):
        a, b = self.ev(st, fr, ins.ops[0]), self.ev(st, fr, ins.ops[1])
        if not isc(b) and not st.spec and self.opts.get('fdiv'):
            self.oblige(st, b != 0, 'no floating-point division by zero', 'fdivzero')
        if isc(b) and b == 0:
            if not st.spec:
                self.oblige(st, False, 'no floating-point division by zero', 'fdivzero')
            raise PathEnd()
        return rdiv(a, b)

    def i_frem(self, st, fr, ins):
        raise Unsupported('frem')

    def i_fcmp(self, st, fr, ins):
        a, b = self.ev(st, fr, ins.ops[0]), self.ev(st, fr, ins.ops[1])
        p = ins.x
        if p == 'ord' or p == 'true':
            return True
        if p == 'uno' or p == 'false':
            return False
        return cmp(p[1:], a, b)

    # icmp
    def i_icmp(self, st, fr, ins):
        a, b = self.ev(st, fr, ins.ops[0]), self.ev(st, fr, ins.ops[1])
        p = ins.x
        ty = ins.ops[0].ty
        if ty.k == 'ptr':
            return self.pcmp(st, p, a, b)
        if ty.w == 1:
            if p == 'eq':
                return bnot(self.bxor(a, b))
            if p == 'ne':
                return self.bxor(a, b)
            raise Unsupported('i1 order')
        if p in ('eq', 'ne'):
            if isinstance(a.prov, Ptr) and isinstance(b.prov, Ptr):
                return self.pcmp(st, p, a.prov, b.prov)
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                return (ca == cb) == (p == 'eq')
            if a.b is not None and cb is not None:
                r = bnot(a.b) if cb == 0 else (a.b if cb == 1 else False)
                return r if p == 'eq' else bnot(r)
            if a.s is not None and (b.s is not None or cb is not None) and (a.u is None or b.u is None):
                return cmp(p, a.s, b.S())
            if a.u is not None and (b.u is not None or cb is not None):
                return cmp(p, a.u, b.U())
            if b.s is not None and ca is not None:
                return cmp(p, a.S(), b.s)
            return cmp(p, a.U(), b.U())
        if p[0] == 'u':
            if a.u is None and a.s is not None and b.s is not None and not isinstance(a.s, int) and not st.spec:
                if self.proved(st, z3.And(a.s >= 0, b.s >= 0)):
                    return cmp(p[1:], a.s, b.s)
            return cmp(p[1:], a.U(), b.U())
        return cmp(p[1:], a.S(), b.S())

    def bxor(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a != b
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return bnot(a) if b else a
        return z3.Xor(a, b)

    def pcmp(self, st, p, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                return (a.name == b.name) == (p == 'eq')
            if p in ('eq', 'ne'):
                o = b if isinstance(a, FnPtr) else a
                if isinstance(o, Raw) and isinstance(o.a, int):
                    return p == 'ne'
            raise Unsupported('function pointer comparison')
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            op = p if p in ('eq', 'ne') else p[1:]
            d = a.off.add(b.off.scale(-1))
            if d.isconst():
                return bool(CMP[op](d.c, 0))
            return cmp(op, a.off.term(), b.off.term())
        if p in ('eq', 'ne'):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                oa, ob = st.mem[a.obj], st.mem[b.obj]
                if oa.kind != 'region' and ob.kind != 'region':
                    return p == 'ne'
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ptr) and isinstance(y, Raw) and isinstance(y.a, int) and y.a == 0:
                    return p == 'ne'
            op = p
        else:
            op = p[1:]
        return cmp(op, self.addr(st, a), self.addr(st, b))

    def i_select(self, st, fr, ins):
        c, a, b = (self.ev(st, fr, o) for o in ins.ops)
        if isinstance(c, bool):
            return a if c else b
        s = z3.simplify(c)
        if z3.is_true(s):
            return a
        if z3.is_false(s):
            return b
        if isinstance(a, (Ptr, Raw, FnPtr, Agg)) or isinstance(b, (Ptr, Raw, FnPtr, Agg)):
            pn = self.pinned(st, c)
            if pn is not None:
                return a if pn else b
            raise ForkOn(c)
        if isinstance(a, IV):
            r = self.merge(c, a, b)
            if a.const() in (0, 1) and b.const() in (0, 1):
                r.b = ite(c, bool(a.const()), bool(b.const()))
            return r
        return ite(c, a, b)

    # memory
    def i_alloca(self, st, fr, ins):
        n = self.ev(st, fr, ins.ops[0]).const()
        ty = ins.x
        o = self.new_obj(st, 'L:%s.%d' % (fr.fn.name[-24:], ins.id), ty.size * (n or 1), 'alloca', lazy=True)
        fr.allocas.append((o.id, ty.name if ty.k == 'struct' else repr(ty)))
        self.layouts[o.id] = self.flatten(ty)
        return Ptr(o.id, Lin(0))

    def i_load(self, st, fr, ins):
        p = self.ev(st, fr, ins.ops[0])
        return self.load(st, self.fixp(st, p), ins.ty)

    def fixp(self, st, p):
        if isinstance(p, Ptr) and not p.off.isconst():
            t = p.off.term()
            v = st.hits.get(('val', t.get_id()))
            if v is not None:
                return Ptr(p.obj, Lin(v[0]))
        return p

    def i_store(self, st, fr, ins):
        v = self.ev(st, fr, ins.ops[0])
        p = self.ev(st, fr, ins.ops[1])
        self.store(st, self.fixp(st, p), v, ins.ops[0].ty)
        return None

    def i_gep(self, st, fr, ins):
        p = self.ev(st, fr, ins.ops[0])
        return self.gep(st, p, ins.x, [self.ev(st, fr, o) for o in ins.ops[1:]], ins.ops[1:])

    def i_extractvalue(self, st, fr, ins):
        a = self.ev(st, fr, ins.ops[0])
        ty = ins.ops[0].ty
        for i in ins.x:
            ty = ty.elems[i] if ty.k == 'struct' else ty.elems[0]
            a = a.vals[i]
        if a is None:
            return self.undef(st, ty)
        return a

    def i_insertvalue(self, st, fr, ins):
        a = self.ev(st, fr, ins.ops[0])
        v = self.ev(st, fr, ins.ops[1])

        def ins_(x, idx):
            y = Agg(list(x.vals))
            y.vals[idx[0]] = v if len(idx) == 1 else ins_(x.vals[idx[0]], idx[1:])
            return y
        return ins_(a, ins.x)

    def i_fence(self, st, fr, ins):
        return None

    def i_atomicrmw(self, st, fr, ins):
        raise Unsupported('atomicrmw')

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins, work, sink):
        cv = ins.x
        if cv.k == 'fn':
            name = cv.v
        else:
            f = self.ev(st, fr, cv)
            if not isinstance(f, FnPtr):
                raise Unsupported('indirect call through %r at %s' % (f, self.where(st)))
            name = f.name
        args = [self.ev(st, fr, o) if o.k != 'meta' else None for o in ins.ops]
        if name in self.meta['pure'] and not st.spec:
            fr.env[ins.id] = self.pure(st, name, args)
            fr.ii += 1
            return False
        stub = self.meta['stub'](name)
        if stub is not None and not any(f.fn.name == stub for f in st.frames):
            if not st.spec:
                self.stubs_used.add((name, stub))
            name = stub
        else:
            r = self.builtin(st, fr, ins, name, args, work)
            if r is not NotImplemented:
                if r is PathEnd:
                    raise PathEnd()
                fr.env[ins.id] = r
                fr.ii += 1
                return False
        fn = self.mod.fn(name)
        if fn is None or fn.decl:
            raise Unsupported('call of external function %s' % self.meta['dem'](name))
        if len(st.frames) > 120:
            raise Unsupported('recursion too deep in %s' % self.meta['dem'](name))
        if not st.spec:
            self.functions.add(name)
        nf = self.newframe(fn, args, ins.id)
        st.frames.append(nf)
        return False

    def cstr(self, st, p):
        if not isinstance(p, Ptr):
            return '?'
        o = st.mem[p.obj]
        nm = o.name
        while nm.startswith('spec:'):
            nm = nm[5:]
        if nm.startswith('g:'):
            g = self.mod.glob(re.sub(r'!\d+$', '', nm[2:].split('#')[0]))
            if g.init is not None and g.init.x:
                return g.init.x[p.off.c:].split(b'\0')[0].decode()
        return '?'

    def builtin(self, st, fr, ins, name, a, work):
        b = BUILTINS.get(name)
        if b is not None:
            return b(self, st, ins, a)
        if name.startswith('llvm.'):
            base = name.split('.')[1]
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                self.memcpy(st, self.fixp(st, a[0]), self.fixp(st, a[1]), a[2])
                return None
            if name.startswith('llvm.memset'):
                self.memset(st, a[0], a[1], a[2])
                return None
            if base in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'prefetch', 'var', 'stackrestore'):
                return None
            if base == 'expect':
                return a[0]
            if base == 'fabs':
                return m_fabs(self, st, ins, a)
            if base == 'sqrt':
                return m_sqrt(self, st, ins, a)
            if base == 'floor':
                return m_floor(self, st, ins, a)
            if base == 'ceil':
                return m_ceil(self, st, ins, a)
            if base in ('minnum', 'maxnum'):
                x, y = a
                return ite(cmp('lt' if base == 'minnum' else 'gt', x, y), x, y)
            if base == 'fmuladd':
                return radd(rmul(a[0], a[1]), a[2])
            if base in ('smax', 'smin', 'umax', 'umin'):
                if base[0] == 's':
                    x, y = a[0].S(), a[1].S()
                    return IV(a[0].w, s=ite(cmp('gt' if base[1:] == 'max' else 'lt', x, y), x, y))
                x, y = a[0].U(), a[1].U()
                return IV(a[0].w, u=ite(cmp('gt' if base[1:] == 'max' else 'lt', x, y), x, y))
            if base == 'abs':
                x = a[0].S()
                return IV(a[0].w, s=ite(cmp('ge', x, 0), x, -x))
            if base == 'trap':
                self.oblige(st, False, 'trap', 'unreachable')
                return PathEnd
            if base == 'is':
                return False
            if base == 'stacksave':
                return NULL
            if base == 'umul' or base == 'uadd':
                w = a[0].w
                t = imul(a[0].U(), a[1].U()) if base == 'umul' else iadd(a[0].U(), a[1].U())
                if isinstance(t, int):
                    return Agg([IV(w, u=t % (1 << w)), t >= (1 << w)])
                if self.proved(st, t < (1 << w)):
                    return Agg([IV(w, u=t), False])
                return Agg([IV(w, u=t % (1 << w)), t >= (1 << w)])
            raise Unsupported('intrinsic %s' % name)
        if 'gthread' in name or name.startswith('pthread_mutex'):
            return IV(32, u=0, s=0)
        return NotImplemented


def rc_int(x):
    return z3.IntVal(x) if isinstance(x, int) else x


# ---------------------------------------------------------------- builtin models
def m_fabs(ex, st, ins, a):
    x = a[0]
    if isc(x):
        return abs(x)
    return z3.If(x >= 0, x, -x)


def exact_sqrt(x):
    import math
    x = Fraction(x)
    if x < 0:
        return None
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        return Fraction(n, d)
    return None


def root_of_square(ex, st, s):
    """the square root of c * x^2 * y^4 ..., if the sign of the root is known"""
    R = ex.ring(st)
    try:
        p = R.of(s)
    except poly.TooBig:
        return None
    if len(p) != 1:
        return None
    (m, k), = p.items()
    k = exact_sqrt(k)
    if k is None or any(e % 2 or R.terms[a][0] != 't' for a, e in m):
        return None
    r = z3.RealVal(str(k))
    for a, e in m:
        for _ in range(e // 2):
            r = r * R.terms[a][1]
    if ex.proved(st, r >= 0, 500):
        return r
    if ex.proved(st, r <= 0, 500):
        return -r
    return None


def m_sqrt(ex, st, ins, a):
    x = a[0]
    if isc(x):
        r = exact_sqrt(x)
        if r is not None:
            return r
        x = rc(Fraction(x))
    s = z3.simplify(x, som=True)
    if z3.is_rational_value(s):
        r = exact_sqrt(Fraction(s.numerator_as_long(), s.denominator_as_long()))
        if r is not None:
            return r
    if ex.quant and consts_of(s) & set(v.decl().name() for v in ex.quant):
        raise Unsupported('square root under a quantifier')
    c = ex.sqrt_cache.get(s.get_id())
    if c is None and ex.opts.get('nl') and not st.spec:
        for c2 in ex.sqrt_cache.values():       # an equal argument
            if ('sqrt', c2[0].get_id()) in st.hits and ex.vanishes(st, c2[0] - s):
                c = c2
                break
    if c is None and ex.opts.get('nl') and not st.spec and not isc(x) and z3.is_expr(s) and not z3.is_const(s) and ex.vanishes(st, s - 1):
        return Fraction(1)     # the length of a unit vector
    if c is None and ex.opts.get('nl') and not st.spec and z3.is_expr(s) and not z3.is_const(s):
        r = root_of_square(ex, st, s)
        if r is not None:
            return r
    if c is None:
        r = z3.Real(ex.fresh(st, 'sqrt'))
        c = (s, r, x)
        ex.sqrt_cache[s.get_id()] = c
    s, r, x0 = c
    k = ('sqrt', s.get_id())
    if k not in st.hits:
        st.hits[k] = s
        # is the argument provably non-negative?  then drop the guard
        if not st.spec and ex.proved(st, x0 >= 0, 500):
            st.pc.append(r >= 0)
            st.pc.append(r * r == x0)
        else:
            st.pc.append(z3.Implies(x0 >= 0, z3.And(r >= 0, r * r == x0)))
    return r


def m_floor(ex, st, ins, a):
    x = a[0]
    if isc(x):
        import math
        return Fraction(math.floor(x))
    return z3.ToReal(z3.ToInt(x))


def m_ceil(ex, st, ins, a):
    x = a[0]
    if isc(x):
        import math
        return Fraction(math.ceil(x))
    return -z3.ToReal(z3.ToInt(-x))


def uf(name, n=1):
    return z3.Function(name, *([z3.RealSort()] * (n + 1)))


def m_trig(name):
    def f(ex, st, ins, a):
        x = rc(a[0])
        if isc(a[0]) and a[0] == 0:
            return Fraction(0 if name == 'sin' else 1)
        s, c = uf('sin')(x), uf('cos')(x)
        if ('trig', x.get_id()) not in st.hits:
            st.hits[('trig', x.get_id())] = x
            ex.fact(st, z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
        return s if name == 'sin' else c
    return f


def m_uf(name, n=1, fact=None):
    def f(ex, st, ins, a):
        xs = [rc(x) for x in a]
        r = uf(name, n)(*xs)
        if fact is not None:
            k = (name, r.get_id())
            if k not in st.hits:
                st.hits[k] = r
                ex.fact(st, fact(r, *xs))
        return r
    return f


PIQ = z3.Q(31415926535897932384, 10 ** 19)


def ACOS(r, x):
    return z3.And(r >= 0, r <= PIQ, z3.Implies(z3.And(x >= -1, x <= 1), z3.And(uf('cos')(r) == x, uf('sin')(r) >= 0, uf('sin')(r) * uf('sin')(r) + x * x == 1)))


def b_assert_fail(ex, st, ins, a):
    if not st.spec:
        ex.oblige(st, False, 'assertion (%s)' % ex.cstr(st, a[0]), 'code-assert')
    return PathEnd


def b_any(key):
    def f(ex, st, ins, a):
        nm = ex.cstr(st, a[0])
        n = st.ctr.get('in:' + nm, 0)
        st.ctr['in:' + nm] = n + 1
        nm = nm + ('#%d' % n if n else '')
        if key == 'bool':
            t = z3.Bool('in:' + nm)
            st.inputs.append((nm, 'bool', t))
            return t
        if key == 'f64':
            t = z3.Real('in:' + nm)
            st.inputs.append((nm, 'f64', t))
            return t
        sg = key[0] == 's'
        w = int(key[1:])
        t = z3.Int('in:' + nm)
        st.inputs.append((nm, key, t))
        if sg:
            st.pc.append(z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1))))
            return IV(w, s=t)
        st.pc.append(z3.And(t >= 0, t < (1 << w)))
        return IV(w, u=t)
    return f


def tobool(ex, v):
    if isinstance(v, IV):
        if v.b is not None:
            return v.b
        return cmp('ne', v.U(), 0)
    return v


def b_assume(ex, st, ins, a):
    c = tobool(ex, a[0])
    if c is False:
        return PathEnd
    if c is True:
        return None
    s = z3.simplify(c)
    if z3.is_false(s):
        return PathEnd
    if z3.is_true(s):
        return None
    st.pc.append(c)
    if ex.check(st, True) == z3.unsat:
        ex.ended_by_assume = getattr(ex, 'ended_by_assume', 0) + 1
        return PathEnd
    return None


def b_assert(ex, st, ins, a):
    c = tobool(ex, a[0])
    nm = ex.cstr(st, a[1])
    if st.spec:
        return None
    for i, g in enumerate(ex.split_and(c)):
        ex.oblige(st, g, nm, 'assert')
    return None


def b_require(ex, st, ins, a):
    """precondition of a contract at a call site: obligation, then assumed"""
    c = tobool(ex, a[0])
    if st.spec:
        return None
    ex.oblige_split(st, c, ex.cstr(st, a[1]), 'precondition')
    ex.assume(st, c)
    return None


def b_step(ex, st, ins, a):
    """a proof step: obligation, then assumed"""
    c = tobool(ex, a[0])
    if st.spec:
        return None
    ex.oblige_split(st, c, ex.cstr(st, a[1]), 'step')
    ex.assume(st, c)
    return None


def b_by(ex, st, ins, a):
    """a proof step from named facts only: each fact is an obligation here, the goal is proved from them alone, then assumed"""
    goal, nm = tobool(ex, a[0]), ex.cstr(st, a[1])
    if st.spec:
        return None
    hyps = [h for h in (tobool(ex, x) for x in a[2:]) if h is not True]
    for h in hyps:
        if not any(h is not False and h.eq(c) for c in st.pc):
            ex.oblige(st, h, nm + ' (premise)', 'step')
    sub = st.fork()
    sub.pc = [z3.BoolVal(False) if h is False else h for h in hyps]
    ex.oblige(sub, goal, nm, 'step')
    ex.assume(st, goal)
    return None


def b_havoc(ex, st, ins, a):
    p, n = a[0], a[1].const()
    nm = ex.cstr(st, a[2])
    if not isinstance(p, Ptr):
        raise Unsupported('havoc of a raw pointer')
    o = st.wobj(p.obj)
    if p.off.isconst() and o.stride is None and n is not None:
        for q, cc in list(o.cells.items()):
            if q < p.off.c + n and p.off.c < q + cc[0]:
                ex.wrote(st, o, ('cell', q, cc[1], cc[0]))
                del o.cells[q]
        o = st.wobj(p.obj)
        o.lazy = True
        if p.off.c == 0 and (n == o.size):
            o.iname = ex.fresh(st, 'hv:' + nm)
            o.ver = 0
            o.input = nm
            ex.havoced.setdefault(nm, {})
            st.inputs.append((nm, 'mem', o.iname))
        else:
            # a part of an object: materialise the known layout with fresh values
            lay = [x for x in (ex.layouts.get(o.id) or []) if p.off.c <= x[0] and x[0] + keysize(x[1]) <= p.off.c + n]
            if not lay:
                lay = [(q, 'i64') for q in range(p.off.c, p.off.c + n, 8)]
            for fo, key in lay:
                v = ex.fresh_key(st, key, 'hv:%s+%d' % (nm, fo - p.off.c))
                ex.cell_store(st, st.mem[p.obj], fo, key, keysize(key), v)
        return None
    if n is not None and o.stride is None and not p.off.isconst():
        cs = [abs(c) for x, c in p.off.t.values()]
        ex.make_strided(st, o, min(cs))
    if o.stride is not None and n is not None:
        f = p.off.c % o.stride
        for (fo, key) in list(o.arrs):
            if f <= fo and fo + keysize(key) <= f + n:
                v = ex.fresh_key(st, key, 'hv:%s' % nm)
                ex.store_key(st, ex.padd(p, fo - f), key, v)
        return None
    raise Unsupported('havoc')


def b_array(ex, st, ins, a):
    """vc_array(count, stride, name): object with a symbolic number of elements and arbitrary contents"""
    cnt, stride = a[0].U(), a[1].const()
    nm = ex.cstr(st, a[2])
    size = imul(cnt, stride)
    o = ex.new_obj(st, 'arr:' + nm, size, 'array', lazy=True)
    o.iname = 'hv:' + o.name
    o.input = nm
    o.stride = stride
    o.count = cnt
    st.inputs.append((nm, 'arr', (o.iname, cnt, stride)))
    return Ptr(o.id, Lin(0))


def b_alloc(ex, st, ins, a):
    """vc_alloc(bytes, name): fresh uninitialised memory"""
    n = a[0].U()
    nm = ex.cstr(st, a[1])
    o = ex.new_obj(st, 'mem:' + nm, n, 'array', lazy=True)
    return Ptr(o.id, Lin(0))


def b_release(ex, st, ins, a):
    p = a[0]
    if isinstance(p, Ptr):
        o = st.wobj(p.obj)
        if o.freed:
            ex.oblige(st, False, 'memory %s is not released twice' % o.name, 'double-free')
        if not (p.off.isconst() and p.off.c == 0):
            ex.oblige(st, cmp('eq', p.off.term(), 0), 'released pointer is the start of its block', 'free')
        if len(a) > 1 and a[1] is not None and o.size is not None:
            ex.oblige(st, cmp('eq', a[1].U(), o.size), 'released size is the allocated size', 'free')
        o.freed = True
        return None
    if isinstance(p, Raw):
        ex.oblige(st, cmp('eq', p.a, 0), 'released pointer was allocated', 'free')
        return None
    raise Unsupported('release of %r' % (p,))


def b_isfreed(ex, st, ins, a):
    p = a[0]
    return isinstance(p, Ptr) and st.mem[p.obj].freed


def b_snapshot(ex, st, ins, a):
    p = a[0]
    o = st.mem[p.obj]
    if p.off.isconst() is False:
        raise Unsupported('snapshot of inner pointer')
    s = o.clone(st.token)
    s.id = next(ex.obj_ids)
    s.name = ex.fresh(st, 'snap:' + o.name)
    s.freed = False
    s.kind = 'snap'
    st.mem[s.id] = s
    if o.id in ex.layouts:
        ex.layouts[s.id] = ex.layouts[o.id]
    return Ptr(s.id, p.off)


def b_field(ex, st, ins, a):
    """vc_field(array, offset, kind): declares a field of the elements of an array"""
    p = a[0]
    o = st.mem[p.obj]
    ex.arr_get(st, o, a[1].const(), ex.cstr(st, a[2]))
    return None


def b_layout(ex, st, ins, a):
    """vc_layout_like(array, object): the array elements have the layout of the given local object"""
    p, q = a
    o = st.mem[p.obj]
    for fo, key in ex.layouts.get(q.obj, []):
        ex.arr_get(st, st.mem[p.obj], fo, key)
    return None


def b_elems(ex, st, ins, a):
    """vc_elems(block, stride): the block is a sequence of elements of that size"""
    p = a[0]
    if isinstance(p, Ptr):
        o = st.wobj(p.obj)
        if o.stride is None:
            ex.make_strided(st, o, a[1].const())
    return None


def pick_patterns(i, body):
    """instantiate a universal fact at the reads that other reads go through (a chain's link), not at the reads it leads to: avoids matching loops"""
    iid = i.get_id()
    memo = {}

    def has(t):
        r = memo.get(t.get_id())
        if r is None:
            if t.get_id() == iid:
                r = True
            elif z3.is_quantifier(t):
                r = has(t.body())
            else:
                r = any(has(c) for c in t.children())
            memo[t.get_id()] = r
        return r
    direct, deep, bad = {}, {}, set()
    stack, seen = [(body, False)], set()
    while stack:
        t, inside = stack.pop()
        if (t.get_id(), inside) in seen or not has(t):
            continue
        seen.add((t.get_id(), inside))
        if z3.is_quantifier(t):
            stack.append((t.body(), False))
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
            a, ix = t.arg(0), t.arg(1)
            if ix.get_id() == iid and z3.is_const(a) and not has(a):
                direct[t.get_id()] = t
                if inside:
                    deep[t.get_id()] = t
            stack.append((a, inside))
            stack.append((ix, True))
            continue
        for c in t.children():
            stack.append((c, inside))
    if not deep:
        return None
    return [z3.MultiPattern(t) if False else t for t in list(deep.values())[:4]]


def quantify(which):
    def f(ex, st, ins, a):
        lo, hi, fn, ctx = a
        lo, hi = (lo.S() if lo.u is None else lo.U()), (hi.S() if hi.u is None else hi.U())
        if not isinstance(fn, FnPtr):
            raise Unsupported('quantifier body')
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 24:
            r = which == 'forall'
            for i in range(lo, hi):
                v = tobool(ex, ex.pure(st, fn.name, [ctx, IV(64, u=i, s=i)]))
                r = band(r, v) if which == 'forall' else bor(r, v)
            return r
        i = z3.Int(ex.fresh(st, 'k!'))
        ex.quant = ex.quant + [i]
        saved = ex.qfacts
        ex.qfacts = []
        n0 = len(st.pc)
        try:
            v = tobool(ex, ex.pure(st, fn.name, [ctx, IV(64, u=i, s=i)]))
        finally:
            qf = ex.qfacts
            ex.quant = ex.quant[:-1]
            ex.qfacts = saved
        # facts that mention the bound variable become universally quantified facts
        nm = i.decl().name()
        keep = []
        for c in st.pc[n0:]:
            if nm in consts_of(c):
                qf.append(c)
            else:
                keep.append(c)
        st.pc[n0:] = keep
        inner = [c for c in qf if nm in consts_of(c)]
        outer = [c for c in qf if nm not in consts_of(c)]
        for c in outer:
            ex.fact(st, c)
        if inner:
            seen = set()
            for c in inner:
                if c.get_id() in seen:
                    continue
                seen.add(c.get_id())
                ex.fact(st, z3.ForAll([i], c))
        rng = []
        rng.append(i >= lo)
        rng.append(i < hi)
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        if which == 'forall':
            pats = pick_patterns(i, v)
            return z3.ForAll([i], z3.Implies(z3.And(*rng), v), patterns=pats) if pats else z3.ForAll([i], z3.Implies(z3.And(*rng), v))
        return z3.Exists([i], z3.And(*(rng + [v])))
    return f


def b_pure(ex, st, ins, a):
    fn, ctx = a
    return tobool(ex, ex.pure(st, fn.name, [ctx]))


def b_heapptr(ex, st, ins, a):
    """an arbitrary pointer into the flat heap"""
    nm = ex.cstr(st, a[0])
    t = z3.Int(ex.fresh(st, 'hp:' + nm))
    st.pc.append(z3.And(t >= 0, t < (1 << 63)))
    return Raw(t)


def b_real(ex, st, ins, a):
    return a[0]


def b_eq(ex, st, ins, a):
    return cmp('eq', a[0], a[1])


def b_same(ex, st, ins, a):
    return ex.vanishes(st, rc(a[0]) - rc(a[1]))


def b_le(ex, st, ins, a):
    return cmp('le', a[0], a[1])


def b_lt(ex, st, ins, a):
    return cmp('lt', a[0], a[1])


def b_and(ex, st, ins, a):
    return band(tobool(ex, a[0]), tobool(ex, a[1]))


def b_implies(ex, st, ins, a):
    return bor(bnot(tobool(ex, a[0])), tobool(ex, a[1]))


def b_new(ex, st, ins, a):
    n = a[0].U()
    o = ex.new_obj(st, 'new', n, 'heap', lazy=True)
    return Ptr(o.id, Lin(0))


def b_delete(ex, st, ins, a):
    p = a[0]
    if isinstance(p, Ptr):
        st.wobj(p.obj).freed = True
    return None


def b_memcpy(ex, st, ins, a):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


def b_memset(ex, st, ins, a):
    ex.memset(st, a[0], IV(8, u=a[1].U() % 256) if isinstance(a[1].U(), int) else a[1], a[2])
    return a[0]


def b_cover(ex, st, ins, a):
    nm = ex.cstr(st, a[0])
    if ex.covers.get(nm) != 'sat':
        r = ex.check(st, True, 3000)
        if r == z3.sat or nm not in ex.covers:
            ex.covers[nm] = str(r)
    return None


def b_uf(ex, st, ins, a):
    """vc_uf(name, x, y): an uninterpreted function of two 64-bit integers (ghost)"""
    nm = ex.cstr(st, a[0])
    f = z3.Function('uf:' + nm, z3.IntSort(), z3.IntSort(), z3.IntSort())
    x = [rc_int(v.U()) for v in a[1:3]]
    r = f(*x)
    ex.fact(st, z3.And(r >= 0, r < M64))
    return IV(64, u=r)


def b_ufb(ex, st, ins, a):
    nm = ex.cstr(st, a[0])
    f = z3.Function('ufb:' + nm, z3.IntSort(), z3.IntSort(), z3.BoolSort())
    x = [rc_int(v.U()) for v in a[1:3]]
    return f(*x)


def b_ro(ex, st, ins, a):
    p = a[0]
    o = st.wobj(p.obj)
    o.ro = bool(a[1] if isinstance(a[1], bool) else True)
    return None


def b_end(ex, st, ins, a):
    return PathEnd


def b_feasible(ex, st, ins, a):
    """vc_split(c): makes both cases separate paths (a lemma-style case split)"""
    c = tobool(ex, a[0])
    if isinstance(c, bool):
        return c
    if st.spec:
        return c
    pn = ex.pinned(st, c)
    if pn is not None:
        return pn
    raise ForkOn(c)


BUILTINS = {
    '__assert_fail': b_assert_fail, 'abort': lambda ex, st, ins, a: (ex.oblige(st, False, 'abort is not reached', 'unreachable'), PathEnd)[1],
    '__cxa_pure_virtual': b_assert_fail,
    'vc_any_bool': b_any('bool'), 'vc_any_real': b_any('f64'), 'vc_any_i32': b_any('s32'), 'vc_any_u32': b_any('u32'),
    'vc_any_u64': b_any('u64'), 'vc_any_u16': b_any('u16'), 'vc_any_u8': b_any('u8'), 'vc_any_i64': b_any('s64'),
    'vc_assume': b_assume, 'vc_assert': b_assert, 'vc_require': b_require, 'vc_step': b_step, 'vc_by': b_by, 'vc_havoc': b_havoc, 'vc_array_': b_array, 'vc_alloc': b_alloc,
    'vc_release': b_release, 'vc_is_released': b_isfreed, 'vc_snapshot_': b_snapshot, 'vc_field': b_field, 'vc_layout_like': b_layout,
    'vc_forall_': quantify('forall'), 'vc_exists_': quantify('exists'), 'vc_eq': b_eq, 'vc_le': b_le, 'vc_lt': b_lt,
    'vc_and': b_and, 'vc_implies': b_implies, 'vc_native': lambda ex, st, ins, a: False, 'vc_cover': b_cover, 'vc_uf': b_uf, 'vc_ufb': b_ufb,
    'vc_pure_': b_pure, 'vc_same': b_same, 'vc_heapptr': b_heapptr,
    'vc_elems': b_elems, 'vc_readonly': b_ro, 'vc_end': b_end, 'vc_split': b_feasible,
    '_Znwm': b_new, '_Znam': b_new, 'malloc': b_new, '_ZdlPv': b_delete, '_ZdaPv': b_delete, '_ZdlPvm': b_delete, 'free': b_delete,
    '_ZdlPvSt11align_val_t': b_delete,
    'memcpy': b_memcpy, 'memmove': b_memcpy, 'memset': b_memset,
    'sqrt': m_sqrt, 'sqrtf': m_sqrt, 'fabs': m_fabs, 'fabsf': m_fabs, 'floor': m_floor, 'floorf': m_floor, 'ceil': m_ceil, 'ceilf': m_ceil,
    'sin': m_trig('sin'), 'cos': m_trig('cos'), 'sinf': m_trig('sin'), 'cosf': m_trig('cos'),
    'acos': m_uf('acos', 1, ACOS), 'acosf': m_uf('acos', 1, ACOS),
    'asin': m_uf('asin', 1), 'asinf': m_uf('asin', 1), 'atan2': m_uf('atan2', 2), 'atan2f': m_uf('atan2', 2), 'tan': m_uf('tan', 1),
    'pow': m_uf('pow', 2), 'powf': m_uf('pow', 2), 'fmod': m_uf('fmod', 2), 'fmodf': m_uf('fmod', 2), 'log': m_uf('log', 1),
}
