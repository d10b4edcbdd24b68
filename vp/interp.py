"""Disjunctive dataflow analysis over MIR.

Computes, for one function, its guarded outcomes: under which branch facts which value is returned
and what every &mut argument becomes, as terms over the inputs.  Local functions and closures are
analysed in place; recursive calls and calls of unknown functions stay opaque terms.  Loops are
solved by fixpoint (which places change), then summarised as binders over one generic iteration.
No input values are chosen and nothing of the analysed program is executed.
"""
import os
from .mir import T, mk, head
from .terms import *
from .facts import St, INF, neg, and_, or_, lt, le, eqi, ge0

DEBUG = os.environ.get('VP_DEBUG')


class Limit(Exception):
    pass


class Frame:
    __slots__ = ('body', 'env', 'fid', 'loopctx')

    def __init__(self, body, env, fid):
        self.body = body
        self.env = env
        self.fid = fid
        self.loopctx = None


class Outcome:
    def __init__(self, st, ret, cells, I):
        self.st = st
        self.ret = ret
        self.cells = cells
        self.I = I

    @property
    def facts(self):
        return self.st.facts_since(None)


class LoopRec:
    pass


ERASED = ('std::boxed::Box', 'alloc::boxed::Box', 'std::ptr::Unique', 'core::ptr::Unique', 'std::ptr::NonNull',
          'core::ptr::NonNull', 'std::mem::ManuallyDrop', 'core::mem::ManuallyDrop', 'std::mem::MaybeUninit',
          'core::mem::MaybeUninit', 'std::mem::MaybeDangling', 'core::mem::MaybeDangling')
SAME = ERASED + ('std::borrow::Cow', 'alloc::borrow::Cow')   # what they hold is all there is to them

SKIP = mk('SKIP',)
PHASE = mk('PHASE',)


def const_result(body):
    """the integer or bool a function returns on every path, if it does nothing else"""
    r = body.__dict__.get('_const', 0)
    if r == 0:
        r = body._const = const_result_(body)
    return r


def const_result_(body):
    got = set()
    succ = {}
    for i, bl in enumerate(body.blocks):
        if bl['cl']:
            continue
        t = bl['t']
        if t[0] not in ('goto', 'switch', 'ret'):
            return None
        succ[i] = [t[1]] if t[0] == 'goto' else [x[1] for x in t[3]] + [t[4]] if t[0] == 'switch' else []
        for s in bl['s']:
            if s[0] == '=':
                if s[1][0] == 0:
                    if s[1][1] or s[2][0] != 'use' or s[2][1][0] != 'k' or not isinstance(s[2][1][1], dict) or s[2][1][1].get('c') != 'int':
                        return None
                    got.add(int(s[2][1][1]['v']))
                    body._constop = s[2][1][1]
                elif s[2][0] not in ('discr', 'use'):
                    return None
            elif s[0] not in ('live', 'dead'):
                return None
    if len(got) != 1:
        return None
    state = {}

    def acyclic(b):
        if state.get(b) == 1:
            return False
        if b not in succ or state.get(b) == 2:
            return True
        state[b] = 1
        ok = all(acyclic(x) for x in succ[b])
        state[b] = 2
        return ok
    return got.pop() if acyclic(0) else None


class Interp:
    def __init__(self, crate, opaque=(), max_steps=400000, max_paths=6000):
        self.crate = crate
        self.opaque = set(opaque)
        self.log = None
        self.watch = None
        self.rtypes = {}
        self.nvariants = {}
        self.dpath = {}
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.reset()
        from . import models
        self.models = models

    def reset(self):
        self.steps = 0
        self.fid = 0
        self.lid = 0
        self.tmp = 0
        self.depth = 0
        self.panics = []
        self.pstack = []
        self.loops = {}
        self.stack = []
        self.notes = set()
        self.calls = set()
        self.quiet = 0
        self.fns = set()
        self.heap = 0
        self.assumed = []

    # ------------------------------------------------------------------ entry
    def run(self, body, args, env=None, setup=None, st=None):
        """args: list of values; a value ('mutsym',name) makes a fresh cell and passes a reference"""
        if st is None:
            st = St(self)
            st.cells['trace'] = EMPTY
        vals = []
        roots = {}
        for i, a in enumerate(args):
            if a[0] == 'mut':
                key = mk('arg', i)
                st.cells[key] = a[1]
                roots[i] = key
                vals.append(mk('ref', key, ()))
            else:
                vals.append(a)
        if setup:
            st = setup(st) or st
        outs = []
        for s, r in self.call_body(body, env or {}, vals, st, None, force=True):
            cells = {i: s.cells[k] for i, k in roots.items()}
            cells['trace'] = s.cells['trace']
            outs.append(Outcome(s, self.flat(s, r), cells, self))
        return outs

    def flat(self, st, v):
        return v

    def envkey(self, env):
        return tuple(sorted((k, ser(v)) for k, v in env.items() if v is not mk('param', k)))

    # ------------------------------------------------------------------ functions
    def call_body(self, body, env, args, st, site, force=False):
        key = (body.key, self.envkey(env))
        if not force and (body.key in self.opaque or any(k == key for k in self.stack)):
            return self.opaque_call(body, env, args, st)
        k = const_result(body)
        if k is not None and not force:
            self.fns.add(body.path)
            return self.const(Frame(body, env, 0), st, body._constop)
        if len(self.stack) > 60:
            self.notes.add('depth')
            return self.opaque_call(body, env, args, st)
        self.fns.add(body.path)
        self.stack.append(key)
        self.pstack.append((body, site))
        self.fid += 1
        fid = self.fid
        fr = Frame(body, env, fid)
        st = st.copy()
        n = body.argc
        if len(args) != n:
            if body.kind == 'closure' and len(args) == 2 and args[1][0] == 'tup':
                args = [args[0]] + list(args[1][1])
        for i, a in enumerate(args):
            st.cells[mk('l', fid, i + 1)] = a
        try:
            ev = self.region(fr, 0, st, None)
        finally:
            self.stack.pop()
            self.pstack.pop()
        out = []
        rk = mk('l', fid, 0)
        for e in ev:
            if e[0] != 'ret':
                continue
            s = e[1]
            r = s.cells.get(rk, UNIT)
            for c in [c for c in s.cells if isinstance(c, T) and c[0] == 'l' and c[1] == fid]:
                del s.cells[c]
            out.append((s, r))
        if len(out) > self.max_paths:
            raise Limit('paths in ' + body.path)
        return self.dedupe(out)

    def dedupe(self, out):
        if len(out) < 2:
            return out
        seen = {}
        res = []
        for s, r in out:
            k = (r, frozenset((c, v) for c, v in s.cells.items()), frozenset(s.vals.items()),
                 frozenset(s.atoms.items()), frozenset(s.rng.items()))
            if k in seen:
                continue
            seen[k] = 1
            res.append((s, r))
        return res

    def dedupe_states(self, sts):
        return [s for s, _ in self.dedupe([(s, UNIT) for s in sts])]

    def fname(self, body):
        if body.trait or body.intrait:
            t = (body.trait or body.intrait).split('::')[-1]
            h = head(self.crate.ty(body.selfty)).split('::')[-1] if body.selfty is not None else 'Self'
            return '<%s>::%s::%s' % (h, t, body.name)
        return body.path

    def opaque_call(self, body, env, args, st, name=None):
        st = st.copy()
        nm = name or self.fname(body)
        ats = body.locals[1:1 + body.argc] if body else []
        return self.opaque_app(nm, args, st, [self.crate.ty(t, env) for t in ats], body)

    def opaque_app(self, nm, args, st, atys=(), body=None):
        """opaque function: result is a term; every &mut argument becomes a term too"""
        self.calls.add(nm)
        if self.log is not None and not self.quiet:
            self.log.append((body, nm, [self.load(st, a[1], a[2]) if a[0] == 'ref' else a for a in args], st.copy()))
        vals = []
        muts = []
        for i, a in enumerate(args):
            if a[0] == 'ref':
                v = self.load(st, a[1], a[2])
                vals.append(v)
                if v[0] != 'fnp':
                    muts.append((i, a, v))
            else:
                vals.append(a)
        strs = set()
        for i, a, v in muts:
            ty = atys[i] if i < len(atys) else None
            if ty is not None and ty[0] == 'ref' and ty[1] and head(ty[2]).endswith('string::String'):
                strs.add(i)
        kvals = [UNIT if i in strs else v for i, v in enumerate(vals)]
        r = app(nm, *kvals)
        for i, a, v in muts:
            if i in strs:
                nv = concat(v, mk('txt', (mk('val', app('out:' + nm, *kvals)),)))
                nv = txt(pieces_of(v) + [mk('val', app('out:' + nm, *kvals))])
            else:
                nv = app(nm + '!%d' % i, *kvals)
            self.store(st, a[1], a[2], nv)
        if muts or any(v[0] == 'fnp' for v in vals):
            self.event(st, r)
        return [(st, r)]

    def event(self, st, t):
        if self.watch is not None and not self.quiet:
            self.watch.append((t, st.copy()))
        tr = st.cells['trace']
        st.cells['trace'] = seq(list(segs_of(tr)) + [one(t)])

    # ------------------------------------------------------------------ regions
    def region(self, fr, bb, st, loop):
        ev = []
        work = [(bb, st, True)]
        loops = fr.body.loops
        while work:
            bb, st, start = work.pop()
            if loop is not None and not start:
                if bb == loop[0]:
                    ev.append(('back', st))
                    continue
                if bb not in loop[1]:
                    ev.append(('exit', bb, st))
                    continue
            if bb in loops and not (loop is not None and bb == loop[0]):
                for e in self.run_loop(fr, (bb, loops[bb]), st):
                    if e[0] == 'exit':
                        work.append((e[1], e[2], False))
                    else:
                        ev.append(e)
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit('steps in ' + fr.body.path)
            for e in self.block(fr, bb, st, loop):
                if e[0] == 'goto':
                    work.append((e[1], e[2], False))
                else:
                    ev.append(e)
            if len(ev) > self.max_paths:
                raise Limit('paths in ' + fr.body.path)
        return ev

    def block(self, fr, bb, st, loop):
        b = fr.body.blocks[bb]
        st = st.copy()
        sts = [st]
        for s in b['s']:
            k = s[0]
            if k == '=':
                nxt = []
                for st in sts:
                    for st2, v in self.rvalue(fr, st, s[2]):
                        self.write_place(fr, st2, s[1], v)
                        nxt.append(st2)
                sts = nxt
            elif k == 'dead':
                for st in sts:
                    st.cells.pop(mk('l', fr.fid, s[1]), None)
            elif k == 'sd':
                pass
        out = []
        for st in sts:
            out.extend(self.term(fr, bb, b, st, loop))
        return out

    def term(self, fr, bb, b, st, loop):
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [('goto', t[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'drop':
            return [('goto', t[2], st)]
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            if t[3] == 'other':
                # debug assertions on raw pointers (alignment, null) from the lowering of vec![]
                return [('goto', t[5], st)]
            out = []
            for s, c in self.operand_cond(fr, st, t[1]):
                for r, s2 in s.fork(c):
                    if r == t[2]:
                        out.append(('goto', t[5], s2))
                    else:
                        if t[3].startswith('Overflow(Add') or t[3].startswith('overflow:Add'):
                            continue
                        self.panic(s2, t[3], b, [self.operand(fr, s2, o)[0][1] if True else None for o in t[4]])
            return out
        if k == 'call':
            out = []
            for s, r in self.call(fr, bb, b, st, t):
                if r is SKIP:
                    out.append(('back', s))
                    continue
                if r is PHASE:
                    out.append(('phase', s))
                    continue
                if r is None or t[4] < 0:
                    continue
                s = s.copy()
                if r[0] == 'app' and not t[3][1]:
                    self.rtypes[r] = self.crate.ty(fr.body.locals[t[3][0]], fr.env)
                self.write_place(fr, s, t[3], r)
                out.append(('goto', t[4], s))
            return out
        if k == 'unreachable':
            return []
        self.notes.add('term:' + k)
        return []

    def panic(self, st, kind, b, ops=(), what=''):
        if self.quiet:
            return
        stk = tuple((bd.path, site) for bd, site in self.pstack)
        self.panics.append(dict(kind=kind, ops=ops, st=st, stack=stk, span=b['sp'] if b else '', what=what,
                                fn=self.pstack[-1][0].path if self.pstack else '', x=b.get('x', '') if b else ''))

    # ------------------------------------------------------------------ places
    def rawty(self, ti, env):
        return self.crate.types[ti]

    def walk(self, fr, st, pl):
        """place -> (root, proj steps)"""
        root = mk('l', fr.fid, pl[0])
        steps = []
        ty = fr.body.locals[pl[0]]
        T_ = self.crate.types
        var = None
        tt = T_[ty] if ty is not None else None
        if tt and tt['k'] == 'param' and fr.env.get(tt['n']):
            tt = None
        for e in pl[1]:
            if e == '*':
                v = self.load(st, root, steps)
                if v[0] == 'ref':
                    root, steps = v[1], list(v[2])
                if tt is not None:
                    if tt['k'] in ('ref', 'ptr'):
                        tt = T_[tt['e']]
                    elif tt['k'] == 'adt' and tt['p'] in ERASED:
                        tt = T_[tt['a'][0]]
                    else:
                        tt = None
                var = None
            elif e[0] == 'v':
                var = e[1]
            elif e[0] == 'f':
                if tt is not None and tt['k'] == 'adt' and tt['p'] in SAME:
                    pass
                elif tt is not None and tt['k'] == 'tuple':
                    steps.append(mk('t', len(tt['a']), e[1]))
                elif tt is not None and tt['k'] == 'closure':
                    steps.append(mk('c', e[1]))
                elif tt is not None and tt['k'] == 'adt':
                    steps.append(mk('f', tt['p'], var if var is not None else 0, e[1]))
                else:
                    v = self.load(st, root, steps)
                    if v[0] == 'tup':
                        steps.append(mk('t', len(v[1]), e[1]))
                    elif v[0] == 'clo':
                        steps.append(mk('c', e[1]))
                    elif v[0] == 'adt':
                        steps.append(mk('f', v[1], v[2], e[1]))
                    else:
                        steps.append(mk('t', -1, e[1]))
                tt = T_[e[2]] if e[2] is not None else None
                if tt and tt['k'] == 'param':
                    tt = None
                var = None
            elif e[0] == 'i':
                ix = self.load(st, mk('l', fr.fid, e[1]), ())
                steps.append(mk('e', ix))
                tt = T_[tt['e']] if tt and 'e' in tt else None
            elif e[0] == 'ci':
                if e[3]:
                    v = self.load(st, root, steps)
                    ix = sub(length(v), INT(e[1]))
                else:
                    ix = INT(e[1])
                steps.append(mk('e', ix))
                tt = T_[tt['e']] if tt and 'e' in tt else None
            elif e[0] == 'ss':
                v = self.load(st, root, steps)
                hi = sub(length(v), INT(e[2])) if e[3] else INT(e[2])
                root = self.newcell(st, slice_(v, INT(e[1]), hi))
                steps = []
            else:
                self.notes.add('proj:' + str(e))
        return root, mk(*steps)

    def newcell(self, st, v):
        self.tmp += 1
        c = mk('tmp', self.tmp)
        st.cells[c] = v
        return c

    def load(self, st, root, steps):
        v = st.cells.get(root)
        if v is None:
            if root[0] == 'rgn':
                v = app('deref', root[1])
                v = root[1]
            else:
                v = mk('uninit',)
        for s in steps:
            v = self.step_get(st, v, s)
        return v

    def step_get(self, st, v, s):
        k = s[0]
        if k == 'f':
            return fld(v, s[2], s[3])
        if k == 't':
            return tfld(v, s[2])
        if k == 'c':
            return v[2][s[1]] if v[0] == 'clo' else mk('tfld', v, s[1])
        if k == 'e':
            return elem(v, s[1])
        if k == 'm':
            from .models import mapget
            g = mapget(v, s[1])
            return g[3][0] if g[0] == 'adt' and g[2] == 1 else fld(g, 1, 0)
        raise ValueError(s)

    def store(self, st, root, steps, nv):
        if not steps:
            st.cells[root] = nv
            return
        v = st.cells.get(root)
        if v is None:
            v = root[1] if root[0] == 'rgn' else mk('uninit',)
        st.cells[root] = self.step_set(st, v, list(steps), nv)

    def step_set(self, st, v, steps, nv):
        if not steps:
            return nv
        s = steps[0]
        k = s[0]
        sub_ = self.step_get(st, v, s)
        x = self.step_set(st, sub_, steps[1:], nv)
        if x is sub_:
            return v
        if k == 'f':
            path, var, i = s[1], s[2], s[3]
            if v[0] == 'adt' and v[2] == var and i < len(v[3]):
                fs = list(v[3])
                fs[i] = x
                return self.adt(path, var, fs)
            n = len(self.crate.adts[path]['vars'][var]['f']) if path in self.crate.adts else None
            if n is None:
                n = {OPT: 1, RES: 1}.get(path, i + 1)
            fs = list(v[3]) if v[0] == 'adt' and v[2] == var else [fld(v, var, j) for j in range(n)]
            fs[i] = x
            return self.adt(path, var, fs)
        if k == 't':
            n = s[1]
            if v[0] == 'tup':
                xs = list(v[1])
            else:
                if n < 0:
                    n = s[2] + 1
                xs = [tfld(v, j) for j in range(n)]
            xs[s[2]] = x
            return tup(*xs)
        if k == 'c':
            cs = list(v[2])
            cs[s[1]] = x
            return mk('clo', v[1], cs, v[3])
        if k == 'e':
            return self.updi(v, s[1], x)
        if k == 'm':
            return app('mapins', v, s[1], x)
        raise ValueError(s)

    def updi(self, v, i, x):
        if v[0] == 'updi' and v[2] is i:
            v = v[1]
        if x is elem(v, i):
            return v
        if v[0] == 'seq' and i[0] == 'int':
            segs = list(v[1])
            if all(s[0] == 'one' for s in segs[:i[1] + 1]) and i[1] < len(segs):
                segs[i[1]] = one(x)
                return seq(segs)
        return mk('updi', v, i, x)

    def adt(self, path, var, fs):
        if fs:
            b = None
            for j, f in enumerate(fs):
                if f[0] == 'fld' and f[2] == var and f[3] == j and (b is None or b is f[1]):
                    b = f[1]
                else:
                    b = None
                    break
            if b is not None and self.dpath.get(b, path) == path:
                n = len(self.crate.adts[path]['vars'][var]['f']) if path in self.crate.adts else 1
                if n == len(fs):
                    return b
        return mk('adt', path, var, fs)

    def read_place(self, fr, st, pl):
        root, steps = self.walk(fr, st, pl)
        return self.load(st, root, steps)

    def write_place(self, fr, st, pl, v):
        if not pl[1]:
            st.cells[mk('l', fr.fid, pl[0])] = v
            return
        root, steps = self.walk(fr, st, pl)
        self.store(st, root, steps, v)

    # ------------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        if o[0] in ('c', 'm'):
            return [(st, self.read_place(fr, st, o[1]))]
        if o[0] == 'k':
            return self.const(fr, st, o[1])
        return [(st, mk('unk', str(o[0])))]

    def operand_cond(self, fr, st, o):
        return self.operand(fr, st, o)

    def const(self, fr, st, c):
        k = c['c']
        ty = self.crate.types[c['t']]
        tk = ty['k']
        if k == 'zst':
            if tk == 'fndef':
                ts = tuple(self.crate.ty(a, fr.env) if isinstance(a, int) else a for a in ty.get('a', []))
                return [(st, mk('fn', c['t'], ty['key'], ty['p'], ts))]
            if tk == 'tuple':
                return [(st, UNIT)]
            if tk == 'closure':
                return [(st, mk('clo', ty['key'], (), self.envterm(fr.env)))]
            if tk == 'adt':
                return [(st, mk('adt', ty['p'], 0, ()))]
            return [(st, UNIT)]
        if k == 'int':
            v = int(c['v'])
            n = ty.get('n') or tk
            if n == 'bool':
                return [(st, TRUE if v else FALSE)]
            if n == 'char':
                return [(st, mk('chr', v))]
            if n.startswith('i') and v >= 1 << (c['sz'] * 8 - 1):
                v -= 1 << (c['sz'] * 8)
            if n.startswith('f'):
                return [(st, mk('float', v))]
            if tk == 'adt':
                # fieldless enum constant
                a = self.crate.adts.get(ty['p'])
                if a:
                    for i, x in enumerate(a['vars']):
                        if x['d'] == v:
                            return [(st, mk('adt', ty['p'], i, ()))]
                return [(st, mk('unk', 'constadt'))]
            return [(st, INT(v))]
        if k == 'str':
            return [(st, STR(c['v']))]
        if k == 'bytes':
            return [(st, mk('bytes', c['v']))]
        if k == 'promoted':
            b = self.crate.promoted.get((c['key'], c['p']))
            if b is not None:
                self.quiet += 1
                try:
                    r = self.call_body(b, fr.env, [], st, None, force=True)
                finally:
                    self.quiet -= 1
                if len(r) == 1:
                    st2, v = r[0]
                    return [(st2, v)]
            return [(st, mk('unk', 'promoted'))]
        if k == 'item':
            b = self.crate.bodies.get(c['key'])
            if b is not None:
                r = self.call_body(b, fr.env, [], st, None, force=True)
                if len(r) == 1:
                    return r
            return [(st, app('const:' + c.get('p', c['key'])))]
        return [(st, mk('unk', 'const:' + k))]

    def envterm(self, env):
        return mk(*[mk(k, v) for k, v in sorted(env.items())])

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref':
            pl = r[2]
            if r[1]:
                root, steps = self.walk(fr, st, pl)
                v = self.load(st, root, steps)
                if v[0] == 'ref' and pl[1] and pl[1][-1] == '*':
                    return [(st, v)]
                if v[0] == 'fnp':
                    return [(st, v)]
                return [(st, mk('ref', root, steps))]
            v = self.read_place(fr, st, pl)
            return [(st, v)]
        if k == 'rawptr':
            root, steps = self.walk(fr, st, r[2] if len(r) > 2 else r[1])
            return [(st, mk('ref', root, steps))]
        if k == 'cast':
            out = []
            for s, v in self.operand(fr, st, r[2]):
                out.append((s, self.cast(fr, s, r[1], v, r[3])))
            return out
        if k == 'bin':
            out = []
            for s, a in self.operand(fr, st, r[2]):
                for s2, b in self.operand(fr, s, r[3]):
                    out.append((s2, self.binop(s2, r[1], a, b, fr, r)))
            return out
        if k == 'un':
            out = []
            for s, a in self.operand(fr, st, r[2]):
                if r[1] == 'Not':
                    v = neg(a) if a[0] == 'bool' or a[0] == 'app' else app('not', a)
                elif r[1] == 'Neg':
                    v = sub(INT(0), a)
                elif r[1] == 'PtrMetadata':
                    v = length(self.deref(s, a))
                else:
                    v = app('un:' + r[1], a)
                out.append((s, v))
            return out
        if k == 'discr':
            v = self.deref(st, self.read_place(fr, st, r[1]))
            ty = self.place_ty(fr, r[1])
            if v[0] == 'adt':
                return [(st, mk('discr', v))]
            if ty and ty['k'] == 'adt':
                self.note_enum(v, ty['p'])
            return [(st, mk('discr', v))]
        if k == 'agg':
            sts = [(st, [])]
            for o in r[2]:
                sts = [(s2, vs + [v]) for s, vs in sts for s2, v in self.operand(fr, s, o)]
            out = []
            for s, vs in sts:
                d = r[1]
                if d[0] == 'tuple':
                    v = tup(*vs) if vs else UNIT
                elif d[0] == 'array':
                    v = seq([one(x) for x in vs])
                elif d[0] == 'adt':
                    if d[1] in SAME:
                        v = vs[0] if vs else UNIT
                    else:
                        v = self.adt(d[1], d[2], vs)
                        if d[1].endswith('ops::Range'):
                            v = mk('adt', d[1], 0, vs)
                elif d[0] == 'closure':
                    v = mk('clo', d[1], vs, self.envterm(fr.env))
                elif d[0] == 'rawptr':
                    v = vs[0]
                else:
                    v = mk('unk', 'agg')
                out.append((s, v))
            return out
        if k == 'repeat':
            out = []
            for s, v in self.operand(fr, st, r[1]):
                n = str(r[2])
                n = int(n.split('_')[0]) if n.split('_')[0].isdigit() else None
                out.append((s, seq([one(v)] * n) if n is not None and n < 64 else mk('unk', 'repeat')))
            return out
        self.notes.add('rv:' + k)
        return [(st, mk('unk', 'rv:' + k))]

    def note_enum(self, v, path):
        if v in self.dpath:
            return
        self.dpath[v] = path
        vs = self.crate.variants(path)
        if vs:
            self.nvariants[v] = len(vs)
        elif path in (OPT, RES):
            self.nvariants[v] = 2

    def place_ty(self, fr, pl):
        T_ = self.crate.types
        ty = fr.body.locals[pl[0]]
        tt = T_[ty]
        for e in pl[1]:
            if tt is None:
                return None
            if e == '*':
                if tt['k'] in ('ref', 'ptr'):
                    tt = T_[tt['e']]
                elif tt['k'] == 'adt' and tt['p'] in ERASED:
                    tt = T_[tt['a'][0]]
            elif e[0] == 'f':
                tt = T_[e[2]] if e[2] is not None else None
            elif e[0] in ('i', 'ci'):
                tt = T_[tt['e']] if 'e' in tt else None
        if tt is not None and tt['k'] == 'param':
            return None
        return tt

    def deref(self, st, v):
        n = 0
        while v[0] == 'ref' and n < 20:
            v = self.load(st, v[1], v[2])
            n += 1
        return v

    def deep(self, st, v):
        """value with references inside known structures replaced by what they point to"""
        if v[0] == 'ref':
            return self.deep(st, self.deref(st, v))
        if v[0] == 'tup':
            xs = [self.deep(st, x) for x in v[1]]
            if any(a is not b for a, b in zip(xs, v[1])):
                return tup(*xs)
        if v[0] == 'adt' and v[3]:
            xs = [self.deep(st, x) for x in v[3]]
            if any(a is not b for a, b in zip(xs, v[3])):
                return self.adt(v[1], v[2], xs)
        return v

    def cast(self, fr, st, kind, v, ti):
        ty = self.crate.types[ti]
        if kind == 'IntToInt':
            if v[0] == 'int':
                return v
            if v[0] == 'chr':
                return INT(v[1])
            if v[0] == 'bool':
                return INT(1 if v[1] else 0)
            if v[0] == 'discr':
                return v
            n = ty.get('n') or ty['k']
            if n == 'char':
                return app('int2char', v)
            return app('cast:' + n, v)
        if kind.startswith('Pointer') or kind in ('PtrToPtr', 'Transmute', 'Subtype', 'FnPtrToPtr'):
            return v
        if 'Float' in kind:
            return app('cast:' + ty.get('n', ''), v)
        return v

    def binop(self, st, op, a, b, fr=None, r=None):
        ad = a if a[0] != 'ref' else self.deref(st, a)
        bd = b if b[0] != 'ref' else self.deref(st, b)
        a, b = ad, bd
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        if o in ('Add', 'Sub', 'Mul') and (a[0] == 'float' or b[0] == 'float'):
            return app('f' + o, a, b)
        if o == 'Add':
            v = add(a, b)
        elif o == 'Sub':
            v = sub(a, b)
        elif o == 'Mul':
            v = mul(a, b)
        elif o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, o, a, b)
        elif o in ('BitAnd', 'BitOr') and (self.isbool(a) or self.isbool(b)):
            v = and_(a, b) if o == 'BitAnd' else or_(a, b)
        elif o in ('Div', 'Rem') and a[0] == 'int' and b[0] == 'int' and b[1] > 0 and a[1] >= 0:
            v = INT(a[1] // b[1] if o == 'Div' else a[1] % b[1])
        else:
            v = app(o, a, b)
        if 'WithOverflow' in op:
            ov = app('overflow:' + o, a, b)
            if o == 'Sub':
                ov = lt(a, b)
                if a[0] == 'app' and a[1].startswith('parse_signed'):
                    ov = app('overflow:' + o, a, b)
            elif o == 'Add':
                ov = app('overflow:Add', a, b)
                if a[0] == 'int' and b[0] == 'int':
                    ov = FALSE
            elif a[0] == 'int' and b[0] == 'int':
                ov = FALSE
            return tup(v, ov)
        return v

    BOOLS = ('not', 'is', 'ge0', 'eq0', 'and', 'or', 'eq', 'contains', 'starts_with', 'ends_with')

    def isbool(self, c):
        return c[0] == 'bool' or (c[0] == 'app' and c[1] in self.BOOLS)

    def compare(self, st, o, a, b):
        if a[0] == 'discr' or b[0] == 'discr':
            if a[0] != 'discr':
                a, b = b, a
            if b[0] == 'discr':
                va, vb = a[1], b[1]
                if vb[0] == 'adt' and va[0] != 'adt':
                    c = app('is', va, INT(vb[2]))
                elif va[0] == 'adt' and vb[0] != 'adt':
                    c = app('is', vb, INT(va[2]))
                elif va[0] == 'adt':
                    c = TRUE if va[2] == vb[2] else FALSE
                else:
                    fa, fb = st.variant(va), st.variant(vb)
                    if fa is not None and fb is not None:
                        c = TRUE if fa == fb else FALSE
                    elif fa is not None:
                        c = app('is', vb, INT(fa))
                    elif fb is not None:
                        c = app('is', va, INT(fb))
                    else:
                        x, y = sorted((va, vb), key=ser)
                        c = app('samevariant', x, y)
            else:
                c = app('is', a[1], b) if a[1][0] != 'adt' else (TRUE if self.discr_of(a[1]) == b[1] else FALSE)
            return c if o == 'Eq' else neg(c)
        num = lambda x: x[0] in ('int', 'lin', 'fld', 'tfld', 'elem', 'sym', 'bv', 'lv', 'first', 'nth', 'post', 'app')
        if o in ('Eq', 'Ne'):
            c = self.make_eq(st, a, b)
            return c if o == 'Eq' else neg(c)
        if a[0] == 'chr' or b[0] == 'chr':
            a = INT(a[1]) if a[0] == 'chr' else app('code', a)
            b = INT(b[1]) if b[0] == 'chr' else app('code', b)
        if a[0] == 'float' or b[0] == 'float':
            return app('f' + o, a, b)
        return {'Lt': lt(a, b), 'Le': le(a, b), 'Gt': lt(b, a), 'Ge': le(b, a)}[o]

    def discr_of(self, v):
        a = self.crate.adts.get(v[1])
        if a:
            return a['vars'][v[2]]['d']
        return v[2]

    def make_eq(self, st, a, b):
        if a[0] == 'discr' or b[0] == 'discr':
            return self.compare(st, 'Eq', a, b)
        a = self.deref(st, a)
        b = self.deref(st, b)
        if a is b:
            return TRUE
        lit = ('int', 'bool', 'chr', 'str', 'unit')
        if a[0] in lit and b[0] in lit and a[0] == b[0]:
            return FALSE
        if a[0] in lit or (a[0] == 'adt' and b[0] not in lit and b[0] != 'adt'):
            a, b = b, a
        if b[0] == 'bool':
            return a if b[1] else neg(a)
        if b[0] == 'str':
            if b[1] == '':
                return eqi(length(a), INT(0))
            if a[0] == 'txt':
                return app('eq', a, b)
            return app('is', a, b)
        if b[0] == 'chr':
            return app('is', a, b)
        if b[0] == 'int':
            return eqi(a, b)
        if b[0] == 'adt':
            if a[0] == 'adt':
                if a[2] != b[2]:
                    return FALSE
                return and_(*[self.make_eq(st, x, y) for x, y in zip(a[3], b[3])])
            self.note_enum(a, b[1])
            c = app('is', a, INT(b[2]))
            vs = self.crate.variants(b[1])
            if vs is not None and len(vs) == 1:
                c = TRUE
            return and_(c, *[self.make_eq(st, fld(a, b[2], i), y) for i, y in enumerate(b[3])])
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            return and_(*[self.make_eq(st, x, y) for x, y in zip(a[1], b[1])])
        if b[0] == 'seq' and not b[1] and a[0] != 'lin':
            return eqi(length(a), INT(0))
        if a[0] == 'seq' and not a[1]:
            return eqi(length(b), INT(0))
        if a[0] == 'lin' or b[0] == 'lin' or (a[0] == 'app' and a[1] == 'len') or (b[0] == 'app' and b[1] == 'len'):
            return eqi(a, b)
        if ser(a) > ser(b):
            a, b = b, a
        return app('eq', a, b)

    # ------------------------------------------------------------------ switch
    def switch(self, fr, st, t):
        out = []
        for s, v in self.operand(fr, st, t[1]):
            cases = [(int(x[0]), x[1]) for x in t[3]]
            if v[0] == 'ref':
                v = self.deref(s, v)
            if v[0] == 'bool':
                v = INT(1 if v[1] else 0)
            if v[0] == 'chr':
                v = INT(v[1])
            if v[0] == 'int':
                for c, bb in cases:
                    if c == v[1]:
                        out.append(('goto', bb, s))
                        break
                else:
                    out.append(('goto', t[4], s))
                continue
            tyn = self.crate.types[t[2]]
            tyn = tyn.get('n') or tyn['k']
            if v[0] == 'discr':
                base = v[1]
                path = base[1] if base[0] == 'adt' else self.dpath.get(base)
                a = self.crate.adts.get(path) if path else None
                idx = {}
                if a:
                    for i, x in enumerate(a['vars']):
                        idx[x['d']] = i
                if base[0] == 'adt':
                    d = self.discr_of(base)
                    for c, bb in cases:
                        if c == d:
                            out.append(('goto', bb, s))
                            break
                    else:
                        out.append(('goto', t[4], s))
                    continue
                kn = s.variant(base)
                cur = s
                dead = False
                for c, bb in cases:
                    i = idx.get(c, c)
                    if kn is not None:
                        if kn == i:
                            out.append(('goto', bb, cur))
                            dead = True
                            break
                        continue
                    s2 = cur.copy()
                    if s2.set_is(base, i):
                        out.append(('goto', bb, s2))
                    cur = cur.copy()
                    if not cur.set_not(base, i):
                        dead = True
                        break
                    kn = cur.variant(base)
                if not dead:
                    out.append(('goto', t[4], cur))
                continue
            if tyn == 'bool' or self.isbool(v):
                # cases is normally [(0, bb)] with otherwise = true
                for r, s2 in s.fork(v):
                    n = 1 if r else 0
                    for c, bb in cases:
                        if c == n:
                            out.append(('goto', bb, s2))
                            break
                    else:
                        out.append(('goto', t[4], s2))
                continue
            cur = [s]
            for c, bb in cases:
                lit = mk('chr', c) if tyn == 'char' else INT(c)
                cond = self.make_eq(s, v, lit)
                nxt = []
                for s2 in cur:
                    for r, s3 in s2.fork(cond):
                        if r:
                            out.append(('goto', bb, s3))
                        else:
                            nxt.append(s3)
                cur = nxt
            for s2 in cur:
                out.append(('goto', t[4], s2))
        return out

    # ------------------------------------------------------------------ calls
    def call(self, fr, bb, b, st, t):
        f = t[1]
        sts = [(st, [])]
        for o in t[2]:
            sts = [(s2, vs + [v]) for s, vs in sts for s2, v in self.operand(fr, s, o)]
        out = []
        for s, args in sts:
            if 'ind' in f:
                fs = self.operand(fr, s, f['ind']) if isinstance(f['ind'], list) else [(s, mk('unk', 'fnptr'))]
                for s2, fv_ in fs:
                    out.extend(self.call_value(s2, fv_, args, b))
                continue
            out.extend(self.call_fn(fr, s, f, args, b, bb))
        return out

    def call_fn(self, fr, st, f, args, b, bb=None):
        cr = self.crate
        targs = [cr.ty(a, fr.env) if isinstance(a, int) else a for a in f.get('a', [])]
        if 'tr' in f:
            tr = f['tr']
            trl = tr.split('::')[-1]
            m = f['m']
            if f.get('rkey', '').startswith('L'):
                body = cr.bodies.get(f['rkey'])
                if body is not None and body.kind != 'closure' and not body.derived_ignored(trl):
                    ra = [cr.ty(a, fr.env) if isinstance(a, int) else a for a in f.get('ra', [])]
                    env = self.mkenv(body, ra)
                    if f['rkey'] == f['key'] and targs:
                        env = dict(env)
                        env.setdefault('Self', targs[0])
                    return self.call_body(body, env, args, st, b['sp'])
            r = self.resolve(fr, tr, m, targs, f)
            if r is not None:
                body, env = r
                if not body.derived_ignored(trl):
                    return self.call_body(body, env, args, st, b['sp'])
            name = '%s::%s' % (trl, m)
            return self.models.dispatch(self, fr, st, name, args, targs, f, b, bb)
        if f.get('key', '').startswith('L'):
            body = cr.bodies.get(f['key'])
            if body is not None:
                ra = [cr.ty(a, fr.env) if isinstance(a, int) else a for a in f.get('ra', f.get('a', []))]
                return self.call_body(body, self.mkenv(body, ra), args, st, b['sp'])
        if 'im' in f:
            raw = cr.types[f['im']]
            if raw['k'] == 'adt' and raw['p'] in ERASED:
                h = raw['p'].split('::')[-1]
            else:
                h = head(cr.ty(f['im'], fr.env)).split('::')[-1]
            name = '%s::%s' % (h, f['m'])
        else:
            name = f['p']
        return self.models.dispatch(self, fr, st, name, args, targs, f, b, bb)

    def mkenv(self, body, ra):
        gen = [g for g in body.gen if not g.startswith("'")]
        ra = [x for x in ra if isinstance(x, T)]
        if len(gen) > len(ra):
            if gen and gen[0] == 'Self':
                pass
        env = {}
        for g, a in zip(gen, ra):
            env[g] = a
        return env

    def resolve(self, fr, tr, m, targs, f):
        """method body for a trait call whose Self type is known only after substitution"""
        if not targs:
            return None
        st_ = targs[0]
        cr = self.crate
        h = st_
        while h[0] == 'ref':
            h = h[2]
        for ity, items, derived in cr.impls.get(tr, []):
            env = {}
            if self.unify(ity, st_, env) or self.unify(ity, h, env):
                if m in items:
                    body = cr.bodies.get(items[m])
                    if body is not None:
                        # method generics follow
                        gen = [g for g in body.gen if not g.startswith("'") and g not in env]
                        rest = targs[1:]
                        ntr = len(rest) - len(gen)
                        for g, a in zip(gen, rest[max(0, ntr):]):
                            env[g] = a
                        return body, env
                # default method
                d = [x for x in cr.bodies.values() if x.intrait == tr and x.name == m and x.kind == 'fn']
                if d:
                    env2 = {'Self': st_}
                    gen = [g for g in d[0].gen if not g.startswith("'") and g != 'Self']
                    for g, a in zip(gen, targs[1:]):
                        env2[g] = a
                    return d[0], env2
        return None

    def unify(self, pat, t, env):
        if pat[0] == 'param':
            if pat[1] in env:
                return env[pat[1]] is t
            if t[0] == 'param':
                pass
            env[pat[1]] = t
            return True
        if pat is t:
            return True
        if not isinstance(t, T) or pat[0] != t[0] or len(pat) != len(t):
            return False
        for a, b in zip(pat, t):
            if isinstance(a, T):
                if not isinstance(b, T) or not self.unify(a, b, env):
                    return False
            elif a != b:
                if pat[0] == 'adt' and isinstance(a, str) and isinstance(b, str) and ("'" in a and "'" in b):
                    continue
                return False
        return True

    def call_value(self, st, fv_, args, b, tupled=False):
        """call a closure / function value / opaque callable; args: list (or [tuple] if tupled)"""
        fv_ = self.deref_fn(st, fv_)
        if tupled:
            a = args[0]
            args = list(a[1]) if a[0] == 'tup' else ([] if a is UNIT else [tfld(a, 0)])
        if fv_[0] == 'clo':
            body = self.crate.bodies[fv_[1]]
            env = dict((x[0], x[1]) for x in fv_[3])
            envarg = fv_
            return self.call_body(body, env, [envarg] + args, st, b['sp'] if b else None)
        if fv_[0] == 'cloref':
            body = self.crate.bodies[fv_[1][1]]
            env = dict((x[0], x[1]) for x in fv_[1][3])
            return self.call_body(body, env, [fv_[2]] + args, st, b['sp'] if b else None)
        if fv_[0] == 'fn':
            ty = self.crate.types[fv_[1]]
            f = dict(ty.get('f') or {})
            if not f:
                f = {'p': fv_[3], 'key': fv_[2], 'a': []}
            return self.models.call_fnitem(self, st, fv_, args, b)
        if fv_[0] == 'fnp':
            return self.opaque_app('call', [fv_] + args, st.copy())
        self.notes.add('call_value:' + fv_[0])
        return self.opaque_app('call', [fv_] + args, st.copy())

    def deref_fn(self, st, v):
        n = 0
        while v[0] == 'ref' and n < 10:
            w = self.load(st, v[1], v[2])
            if w[0] == 'clo':
                # keep identity of mutable captured state
                return mk('cloref', w, v)
            v = w
            n += 1
        return v

    # ------------------------------------------------------------------ loops
    def header_adjacent(self, body, header, bb):
        x = header
        for _ in range(6):
            if x == bb:
                return True
            t = body.blocks[x]['t']
            if t[0] == 'goto':
                x = t[1]
            elif t[0] == 'drop':
                x = t[2]
            elif t[0] == 'call' and t[4] >= 0 and t[1].get('m') in ('deref_mut', 'deref', 'by_ref', 'into_iter', 'iter_mut'):
                x = t[4]
            else:
                return False
        return False

    def run_loop(self, fr, loop, st0, budget=48):
        """-> events ('exit',bb,st) / ('ret',st)"""
        def step(st, k):
            old = fr.loopctx
            fr.loopctx = (loop[0], st)
            try:
                return self.region(fr, loop[0], st, loop)
            finally:
                fr.loopctx = old

        out = []
        pending = [st0]
        n = 0
        while pending:
            st = pending.pop()
            n += 1
            if n > budget:
                self.notes.add('unroll limit in ' + fr.body.path)
                raise Limit('unroll ' + fr.body.path)
            res = self.summarise(st, step, None, '%s@bb%d' % (fr.body.path, loop[0]), fr)
            for e in res:
                if e[0] in ('exit', 'ret'):
                    out.append(e)
                elif e[0] == 'again':
                    pending.append(e[1])
        return out

    def diff(self, a, b, path, out, exp=None):
        if a is b:
            return
        if a[0] == 'adt' and b[0] not in ('adt', 'lv', 'uninit') and a[3]:
            b = mk('adt', a[1], a[2], [fld(b, a[2], i) for i in range(len(a[3]))])
            if a is b:
                return
        if exp is not None and b[0] == 'adt' and b[3] and a[0] in ('sym', 'fld', 'elem', 'tfld') and any(
                any_sub(f, lambda x: x is a) for f in b[3]):
            # a place of known shape: track its fields
            exp[path] = mk('adt', b[1], b[2], [fld(a, b[2], i) for i in range(len(b[3]))])
            return
        if a[0] == b[0]:
            if a[0] == 'adt' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
                for i, (x, y) in enumerate(zip(a[3], b[3])):
                    self.diff(x, y, path + (mk('f', a[1], a[2], i),), out, exp)
                return
            if a[0] == 'tup' and len(a[1]) == len(b[1]):
                for i, (x, y) in enumerate(zip(a[1], b[1])):
                    self.diff(x, y, path + (mk('t', len(a[1]), i),), out, exp)
                return
            if a[0] == 'iter' and a[1] is b[1]:
                if a[2] is not b[2]:
                    out.add(path + (mk('it', 2),))
                if a[3] is not b[3]:
                    out.add(path + (mk('it', 3),))
                return
            if a[0] == 'wrapit' and a[1] == b[1]:
                for i in range(2, len(a)):
                    if isinstance(a[i], T):
                        self.diff(a[i], b[i], path + (mk('it', i),), out)
                return
            if a[0] == 'clo' and a[1] == b[1] and len(a[2]) == len(b[2]):
                for i, (x, y) in enumerate(zip(a[2], b[2])):
                    self.diff(x, y, path + (mk('c', i),), out)
                return
        out.add(path)

    def pget(self, st, p):
        v = st.cells.get(p[0])
        if v is None:
            return None
        for s in p[1:]:
            if s[0] == 'it':
                if v[0] not in ('iter', 'wrapit'):
                    return mk('unk', 'iter')
                v = v[s[1]]
            else:
                v = self.step_get(None, v, s)
        return v

    def pset(self, st, p, nv):
        st.cells[p[0]] = self._pset(st.cells[p[0]], p[1:], nv)

    def _pset(self, v, steps, nv):
        if not steps:
            return nv
        s = steps[0]
        if s[0] == 'it':
            xs = list(v)
            xs[s[1]] = self._pset(v[s[1]], steps[1:], nv)
            return mk(*xs)
        if s[0] == 'f':
            xs = list(v[3])
            xs[s[3]] = self._pset(xs[s[3]], steps[1:], nv)
            return mk('adt', v[1], v[2], xs)
        if s[0] == 't':
            xs = list(v[1])
            xs[s[2]] = self._pset(xs[s[2]], steps[1:], nv)
            return tup(*xs)
        if s[0] == 'c':
            xs = list(v[2])
            xs[s[1]] = self._pset(xs[s[1]], steps[1:], nv)
            return mk('clo', v[1], xs, v[3])
        raise ValueError(s)

    def summarise(self, st0, step, N, label, fr=None):
        """st0: state at the loop head.  step(st,k) -> events.
        N given: closure-driven loop over k<N (step events are back/exit; exhaustion is implicit)"""
        self.lid += 1
        lid = self.lid
        lvl = self.depth
        k = mk('bv', lvl)
        self.depth += 1
        try:
            return self._summarise(st0, step, N, label, fr, lid, k)
        finally:
            self.depth -= 1

    def _summarise(self, st0, step, N, label, fr, lid, k):
        lvt = lambda p: mk('lv', lid, mk(*p))
        C = set()

        def header(extra=None):
            s = st0.copy()
            for p in sorted(C, key=len):
                self.pset(s, p, (extra or {}).get(p) or lvt(p))
            if N is not None:
                if not s.set_rng(sub(sub(N, INT(1)), k), 0, INF):
                    return None
            return s

        self.quiet += 1
        try:
            rounds = 0
            while True:
                rounds += 1
                if rounds > 12:
                    raise Limit('fixpoint ' + label)
                h = header()
                if h is None:
                    ev = []
                    break
                ev = step(h, k)
                if N is None and any(e[0] == 'phase' for e in ev):
                    pass
                new = set()
                exp = {} if not C else None
                for e in ev:
                    if e[0] != 'back':
                        continue
                    for c, v in e[1].cells.items():
                        if c in h.cells and h.cells[c] is not v:
                            self.diff(h.cells[c], v, (c,), new, exp)
                if exp:
                    st0 = st0.copy()
                    for p, v in exp.items():
                        self.pset(st0, p, v)
                    C = set()
                    continue
                new -= C
                if not new:
                    break
                # one iteration consumes a literal element: unroll
                if N is None and rounds == 1 and self.consumes_literal(h, ev):
                    self.quiet -= 1
                    try:
                        ev = step(st0.copy(), k)
                    finally:
                        self.quiet += 1
                    res = []
                    for e in ev:
                        if e[0] in ('back', 'phase'):
                            res.append(('again', e[1]))
                        else:
                            res.append(e)
                    return res
                # widen: drop subpaths
                C |= new
                C = {p for p in C if not any(q != p and p[:len(q)] == q for q in C)}
        finally:
            self.quiet -= 1
        backs = [e for e in ev if e[0] == 'back']
        if not backs:
            h = header()
            if h is None:
                return [('done', st0)] if N is not None else []
            if N is None:
                ev = step(h, k)
                return [('again', e[1]) if e[0] == 'phase' else e for e in ev]
        # ---- classification of changed places
        init = {p: self.pget(st0, p) for p in C}
        ind = set()
        for p in C:
            if all(self.pget(e[1], p) is add(lvt(p), INT(1)) for e in backs) and p[-1] != 'trace':
                ind.add(p)
        over = {p: add(init[p], k) for p in ind}
        point = set()
        for p in C - ind:
            vs = [self.pget(e[1], p) for e in backs]
            if any(v is not None and v[0] == 'updi' for v in vs) and all(
                    v is lvt(p) or (v is not None and v[0] == 'updi' and v[1] is lvt(p)) for v in vs):
                point.add(p)
                over[p] = init[p]
        self.quiet += 1
        try:
            h = header(over)
            ev = step(h, k) if h is not None else []
        finally:
            self.quiet -= 1
        backs = [e for e in ev if e[0] == 'back']
        # places whose new value is the same closed term in every iteration
        last = {}
        for p in C - ind - point:
            vs = {self.pget(e[1], p) for e in backs}
            if len(vs) == 1:
                v = vs.pop()
                if v is not None and not any_sub(v, lambda x: x[0] == 'lv' and x[1] == lid) and not (
                        fv(v) - fv(init[p]) - frozenset((k[1],))) or (v is not None and not any_sub(
                            v, lambda x: x[0] == 'lv' and x[1] == lid)):
                    last[p] = v
        runs = []
        if last:
            o0 = dict(over)
            for p in last:
                o0[p] = init[p]
            h0 = header(o0)
            if h0 is not None and h0.set_rng(k, 0, 0):
                runs.append((h0, True))
            o1 = dict(over)
            km1 = Subst({k: sub(k, INT(1))})
            for p, v in last.items():
                o1[p] = km1(v)
            h1 = header(o1)
            if h1 is not None and h1.set_rng(k, 1, INF):
                runs.append((h1, False))
        else:
            h = header(over)
            if h is not None:
                runs.append((h, None))
        evs = []
        pstart = len(self.panics)
        for h, fl in runs:
            for e in step(h, k):
                evs.append((e, h))
        backs = [(e[1], h) for e, h in evs if e[0] == 'back']
        exits = [(e, h) for e, h in evs if e[0] != 'back']
        base = st0
        bfacts = []
        for s, h in backs:
            bfacts.append(list(s.facts_since(base)))
        # ---- trip count
        n = N
        exhausted = []
        if n is None:
            for e, h in exits:
                s = e[2] if e[0] == 'exit' else e[1]
                for f in s.facts_since(base):
                    c = self.bound_of(f, k)
                    if c is not None and not any_sub(c, lambda x: x[0] == 'lv' and x[1] == lid) and all(
                            any(self.implies_less(g, k, c) for g in bf) for bf in bfacts):
                        n = c
                        exhausted.append((e, h))
                        break
        ex_ids = {id(e) for e, h in exhausted}
        early = [(e, h) for e, h in exits if id(e) not in ex_ids]

        def clean(fs):
            out = []
            for f in fs:
                if f[0] in ('ge', 'le', 'eq') and self.mentions_bound(f, k, n):
                    continue
                out.append(f)
            return out
        # facts common bookkeeping
        hits = []
        for e, h in early:
            s = e[2] if e[0] == 'exit' else e[1]
            hits.append(mk(*clean(s.facts_since(base))))
        misses = [mk(*clean(b)) for b in bfacts]
        vfacts = misses
        # ---- summaries
        rec = LoopRec()
        rec.lid, rec.label, rec.n, rec.k, rec.fr = lid, label, n, k, fr
        rec.init = init
        rec.paths = C
        rec.point = point
        rec.backs = []
        for (s, h), fs in zip(backs, vfacts):
            rec.backs.append((fs, {p: self.pget(s, p) for p in C}, s))
        final = {}
        prefix = {}
        for p in C:
            i0 = init[p]
            lv = lvt(p)
            if p in ind:
                final[p] = lambda cnt, p=p: add(init[p], cnt)
                continue
            if p in last:
                final[p] = ('last', last[p])
                continue
            vs = [self.pget(s, p) for s, h in backs]
            if p in point:
                okp = True
                var = []
                pos = True
                for v, fs in zip(vs, vfacts):
                    if v is i0:
                        var.append((fs, None, None))
                    elif v is not None and v[0] == 'updi' and v[1] is i0:
                        var.append((fs, v[2], v[3]))
                        if v[2] is not k:
                            pos = False
                    else:
                        okp = False
                if okp and pos:
                    vv = mk(*[mk(fs, mk(*[one(elem(i0, k) if x is None else x)])) for fs, ix, x in var])
                    final[p] = ('pt', i0, vv)
                    continue
                if okp:
                    vv = mk(*[mk(fs, mk(*([] if x is None else [mk('w', ix, x)]))) for fs, ix, x in var])
                    final[p] = ('fold', i0, vv)
                    continue
                final[p] = None
                continue
            kind = None
            deltas = []
            for v in vs:
                if v is lv:
                    deltas.append(())
                    continue
                if v is None:
                    kind = 'bad'
                    break
                if v[0] == 'seq' and v[1] and v[1][0][0] == 'all' and v[1][0][1] is lv and not any(
                        occurs(x, lv) for x in v[1][1:]):
                    kk, dd = 'seq', v[1][1:]
                elif v[0] == 'txt' and v[1] and v[1][0][0] == 'val' and v[1][0][1] is lv and not any(
                        occurs(x, lv) for x in v[1][1:]):
                    kk, dd = 'txt', v[1][1:]
                elif v[0] == 'acc' and v[1] and v[1][0] is one(lv) and not any(occurs(x, lv) for x in v[1][1:]):
                    kk, dd = 'acc', v[1][1:]
                elif v[0] == 'lin' and dict(v[2]).get(lv) == 1:
                    d = sub(v, lv)
                    if occurs(d, lv):
                        kind = 'bad'
                        break
                    kk, dd = 'sum', (d,)
                else:
                    kind = 'bad'
                    break
                if kind is None or kind == kk:
                    kind = kk
                    deltas.append(dd)
                else:
                    kind = 'bad'
                    break
            if kind in ('seq', 'txt', 'acc', 'sum'):
                final[p] = (kind, i0, mk(*[mk(fs, mk(*(dd if kind != 'sum' else [one(x) for x in dd])))
                                           for fs, dd in zip(vfacts, deltas)]))
                continue
            # sometimes overwritten by a constant
            cs = {v for v in vs if v is not lv}
            if len(cs) == 1:
                c = cs.pop()
                if c is not None and k[1] not in fv(c) and not any_sub(c, lambda x: x[0] == 'lv' and x[1] == lid):
                    final[p] = ('maybe', c, [fs for v, fs in zip(vs, vfacts) if v is not lv],
                                [fs for v, fs in zip(vs, vfacts) if v is lv])
                    continue
            if kind != 'mixed' and all(v is not None and (v is lv or not occurs(v, lv)) for v in vs):
                # overwritten in some iterations: the last one counts
                final[p] = ('ow', i0, mk(*[mk(fs, mk(*([] if v is lv else [one(v)]))) for fs, v in zip(vfacts, vs)]))
                continue
            final[p] = None
        # eliminate lv of accumulators inside other accumulators (value before iteration k)
        lvmap = {}
        for p, f in final.items():
            if isinstance(f, tuple) and f[0] in ('seq', 'txt', 'acc', 'sum') and not any_sub(
                    f[2], lambda x: x[0] == 'lv' and x[1] == lid):
                lvmap[lvt(p)] = self.accum(f, k, k)
        if lvmap:
            sb = Subst(lvmap)
            for p, f in list(final.items()):
                if isinstance(f, tuple) and f[0] in ('seq', 'txt', 'acc', 'sum', 'pt', 'fold', 'ow'):
                    final[p] = (f[0], f[1], sb(f[2]))
            hits = [sb(x) for x in hits]
            misses = [sb(x) for x in misses]
        else:
            sb = None
        rec.final = final
        rec.after = set()
        rec.hits, rec.misses = hits, misses
        self.loops[lid] = rec
        # ---- results
        res = []
        has_lv = lambda t: any_sub(t, lambda x: x[0] == 'lv' and x[1] == lid)
        P = None
        if early and n is not None:
            P = rebuild_binder('pred', n, k, [mk(*sorted(set(hits), key=ser)), mk(*sorted(set(misses), key=ser))], None)
            P = self.canon_pred(P)
        rec.pred = P

        def finish(s_in, cnt, note):
            """substitute summaries for cnt completed iterations; list of states"""
            m = {k: cnt} if cnt is not None else {k: mk('post', lid, mk('k',))}
            outs = [(s_in, dict(m))]
            for p in C:
                f = final[p]
                nxt = []
                for s, mm in outs:
                    if callable(f):
                        nxt.append((s, mm))
                        continue
                    if f is None:
                        if p in point:
                            # partially understood element updates
                            mm = dict(mm)
                            mm['pt', p] = mk('post', lid, mk(*p))
                        mm = dict(mm)
                        mm[lvt(p)] = mk('post', lid, mk(*p))
                        nxt.append((s, mm))
                        continue
                    if cnt is None:
                        mm = dict(mm)
                        mm[lvt(p)] = mk('post', lid, mk(*p))
                        if f[0] in ('pt', 'fold'):
                            mm['pt', p] = mk('post', lid, mk(*p))
                        nxt.append((s, mm))
                        continue
                    if f[0] == 'last':
                        for r, s2 in s.fork(eqi(cnt, INT(0))):
                            mm2 = dict(mm)
                            mm2['set', p] = init[p] if r else Subst({k: sub(cnt, INT(1))})(f[1])
                            nxt.append((s2, mm2))
                        continue
                    if f[0] == 'maybe':
                        Q = rebuild_binder('pred', cnt, k, [mk(*sorted(set(f[2]), key=ser)), mk(*sorted(set(f[3]), key=ser))], None)
                        Q = self.canon_pred(Q)
                        for r, s2 in s.fork(Q):
                            mm2 = dict(mm)
                            mm2[lvt(p)] = f[1] if r else init[p]
                            nxt.append((s2, mm2))
                        continue
                    mm = dict(mm)
                    if f[0] == 'pt':
                        if note == 'all' and length(f[1]) is cnt:
                            mm['pt', p] = seq([rebuild_binder('each', cnt, k, [f[2]], None)])
                        else:
                            mm['pt', p] = rebuild_binder('fold', cnt, k, [mk(*[mk(fs, mk(*[mk('w', k, x[1]) for x in xs])) for fs, xs in f[2]])], f[1])
                    elif f[0] == 'ow':
                        mm[lvt(p)] = rebuild_binder('lastw', cnt, k, [f[2]], f[1])
                    elif f[0] == 'fold':
                        mm['pt', p] = rebuild_binder('fold', cnt, k, [f[2]], f[1])
                    else:
                        mm[lvt(p)] = self.accum(f, k, cnt)
                    nxt.append((s, mm))
                outs = nxt
            for s, mm in outs:
                rec.after.update((p, mm[lvt(p)]) for p in C if lvt(p) in mm)
            return outs

        def apply(s, h, mm, early_facts):
            sm = Subst({a: b for a, b in mm.items() if isinstance(a, T)})
            r = St(self)
            r.vals = dict(base.vals)
            r.atoms = dict(base.atoms)
            r.rng = dict(base.rng)
            for src in (s,):
                pass
            r.cells = {}
            for c, v in s.cells.items():
                if c in base.cells and base.cells[c] is v and not any(p[0] == c for p in C):
                    r.cells[c] = v
                else:
                    r.cells[c] = sm(v)
            for key, v in mm.items():
                if isinstance(key, tuple) and not isinstance(key, T) and key[0] in ('pt', 'set'):
                    p = key[1]
                    if p[0] in r.cells and (key[0] == 'set' or True):
                        cur = self.pget(s, p)
                        if key[0] == 'set':
                            # only if the exit path did not overwrite it
                            hv = self.pget(h, p)
                            if cur is hv:
                                self.pset(r, p, v)
                        elif cur is init[p]:
                            self.pset(r, p, v)
                        elif cur is not None and cur[0] == 'updi' and cur[1] is init[p]:
                            self.pset(r, p, self.updi(v, sm(cur[2]), sm(cur[3])))
            fs = [sm(f) for f in early_facts]
            q = r.add_facts(fs)
            return q

        if N is not None:
            # exhaustion is implicit
            s = st0.copy()
            for p in C:
                self.pset(s, p, over.get(p) or (lvt(p) if p not in last else init[p]))
            s2s = [s]
            if P is not None:
                s2s = s.assume(P, False)
            for s in s2s:
                for s3, mm in finish(s, N, 'all'):
                    b2 = base
                    q = apply(s3, s, mm, s3.facts_since(base))
                    if q is not None:
                        res.append(('done', q))
        for e, h in exhausted:
            s = e[2] if e[0] == 'exit' else e[1]
            keep = [f for f in clean(s.facts_since(base)) if not (k[1] in fv(f) or has_lv(f))]
            s2s = [base.copy()]
            for s2 in s2s:
                t = s2.add_facts(keep)
                if t is None:
                    continue
                ts = t.assume(P, False) if P is not None else [t]
                for t in ts:
                    t = t.copy()
                    t.cells = s.cells
                    for s3, mm in finish(t, n, 'all'):
                        q = apply(s3, h, mm, s3.facts_since(base))
                        if q is not None:
                            res.append((e[0], e[1], q) if e[0] == 'exit' else (e[0], q))
        for (e, h), hf in zip(early, hits):
            s = e[2] if e[0] == 'exit' else e[1]
            cnt = mk('first', P) if P is not None else None
            t = base.copy()
            if P is not None:
                ts = t.assume(P, True)
                if not ts:
                    continue
                t = ts[0].copy()
                t.set_rng(sub(sub(n, INT(1)), cnt), 0, INF)
            t.cells = s.cells
            for s3, mm in finish(t, cnt, 'early'):
                q = apply(s3, h, mm, list(hf) + list(s3.facts_since(base)))
                if q is not None:
                    res.append((e[0], e[1], q) if e[0] == 'exit' else (('again', q) if e[0] == 'phase' else (e[0], q)))
        # panics inside the loop: express them for some iteration
        if sb is not None:
            for pn in self.panics[pstart:]:
                pn['sub'] = (pn.get('sub') or []) + [sb]
        return res

    def consumes_literal(self, h, ev):
        for e in ev:
            if e[0] != 'back':
                continue
            for c, v in e[1].cells.items():
                o = h.cells.get(c)
                if o is not None and o is not v and self.iter_popped(o, v):
                    return True
        return False

    def iter_popped(self, o, v):
        if o[0] == 'iter' and v[0] == 'iter':
            return o[1] is not v[1] and len(o[1]) > 0 and o[1][0][0] == 'one'
        if o[0] == v[0] and o[0] in ('wrapit', 'adt', 'tup') and len(o) == len(v):
            for a, b in zip(o, v):
                if isinstance(a, T) and isinstance(b, T) and a is not b:
                    if a[:1] in (('iter',), ('wrapit',)) or o[0] != 'wrapit':
                        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
                            if self.iter_popped(a, b):
                                return True
                        else:
                            for x, y in zip(a, b):
                                if isinstance(x, T) and isinstance(y, T) and x is not y and x and y and isinstance(x[0], str) and self.iter_popped(x, y):
                                    return True
        return False

    def accum(self, f, k, cnt):
        kind, i0, vv = f
        if kind == 'seq':
            # nested collections: flatten contributions
            e = rebuild_binder('each', cnt, k, [vv], None)
            return seq(list(segs_of(i0)) + [e])
        if kind == 'acc':
            e = rebuild_binder('each', cnt, k, [vv], None)
            return acc(list(acc_segs(i0)) + [e])
        if kind == 'txt':
            e = rebuild_binder('each', cnt, k, [vv], None)
            return txt(pieces_of(i0) + [e])
        # sum
        if all(len(v[1]) == 1 for v in vv):
            ds = {v[1][0][1] for v in vv}
            if len(ds) == 1:
                d = ds.pop()
                if k[1] not in fv(d):
                    return add(i0, mul(d, cnt))
        e = rebuild_binder('each', cnt, k, [vv], None)
        return add(i0, app('sum', mk('seq', (e,))))

    def bound_of(self, f, k):
        """f says k >= c (trip count reached): returns c"""
        if f[0] not in ('ge', 'le', 'eq'):
            return None
        c, parts = lin_parts(f[1])
        kc = parts.get(k)
        if kc not in (1, -1):
            return None
        rest = dict(parts)
        del rest[k]
        if any(k[1] in fv(t) for t in rest):
            return None
        r = lin_make(0, rest)
        v = INT(f[2])
        if f[0] == 'eq':
            return sub(v, r) if kc == 1 else sub(r, v)
        if f[0] == 'ge' and kc == 1:      # k + r >= v
            return sub(v, r)
        if f[0] == 'le' and kc == -1:     # -k + r <= v  ->  k >= r - v
            return sub(r, v)
        return None

    def implies_less(self, f, k, n):
        """f implies k < n"""
        if f[0] not in ('ge', 'le'):
            return False
        d = sub(sub(n, INT(1)), k)       # want d >= 0
        c, parts = lin_parts(d)
        fc, fp = lin_parts(f[1])
        if f[0] == 'ge':
            return fp == parts and f[2] + c >= 0
        return {t: -x for t, x in fp.items()} == parts and -f[2] + c >= 0

    def mentions_bound(self, f, k, n):
        if n is None:
            return False
        c, parts = lin_parts(sub(n, k))
        fc, fp = lin_parts(f[1])
        if fp == parts or {t: -x for t, x in fp.items()} == parts:
            return True
        return False

    def canon_pred(self, P):
        return P

