"""P03, P04, P05: no path through the operations reaches a panic."""
from .common import *
from .descent import call_graph, components
from .cells import cells
from ..interp import Limit
from ..facts import INF
from .. import witness

GENERATED = ('pest_consume', 'pest_derive', 'derive(Parser)')


def entries(c):
    """the functions that can be called from outside: reachable by name or through a trait"""
    return [b for b in c.crate.bodies.values() if b.kind == 'fn' and not b.derived and not b.parent and (b.pub or b.trait or b.intrait)]


def parsing(b):
    """consumer functions of a grammar"""
    return 'Parser' in b.path.split('::')[-2:][0] or 'Rule' in b.path.split('::')[-2:][0] or ('Parser' in str(b.path) and b.path.startswith('<'))


def fmt_trait(b):
    return b.trait and b.trait.split('::')[-1] in ('Display', 'Debug')


def consuming(cr):
    """every inherent method of a type that is a pest parser"""
    ps = {cr.ty(b.selfty) for b in cr.bodies.values() if b.kind == 'fn' and b.name == 'rule_alias' and b.selfty is not None}
    return {b.key for b in cr.bodies.values() if b.kind == 'fn' and not b.trait and b.selfty is not None and cr.ty(b.selfty) in ps}


class Panics:
    def __init__(self, c):
        self.c, self.cr = c, c.crate
        self.all = entries(c)
        self.comp = {}
        for s in components(call_graph(self.cr)):
            for k in s:
                self.comp[k] = s
        self.eaters = consuming(self.cr)
        self.keys = [b.key for b in self.all if not fmt_trait(b)]

    def check(self, rule, b, allowed=None, args=None, setup=None):
        c = self.c
        mine = [k for k in self.comp.get(b.key, ()) if self.cr.bodies[k].kind == 'fn']
        eat = [k for k in self.eaters if k != b.key]
        tries = [[k for k in self.keys if k != b.key or k in mine] + eat, mine + eat + [k for k in self.grammars() if k != b.key]]
        seen, left, why = set(), {}, None
        for n, opaque in enumerate(tries):
            try:
                runs = self.runs(b, opaque, args, setup, steps=None if n == 0 else 60000)
            except (Undecided, Limit, Lost, KeyError, RecursionError) as e:
                why = why or '%s: %s' % (type(e).__name__, str(e)[:160])
                continue
            odd = sorted({x[11:] for r, given, lg in runs for x in r.I.notes if x.startswith('unmodelled ') and not self.outside(x[11:])})
            found = [(p, r, given) for r, given, lg in runs for p in r.I.panics if not self.excused(p, allowed, r) and not self.inductive(p, r)]
            if not found and not odd and not seen:
                c.ok(rule, b.path, '%d paths%s' % (sum(len(r.outs) for r, g, lg in runs), ', %d function values' % (len(runs) - 1) if len(runs) > 1 else ''))
                return
            more = self.report(rule, b, found, seen)
            if odd:
                more[b.path] = 'not known whether these return: ' + ', '.join(odd)[:200]
            if why is None and n == 0 or not left or len(more) < len(left):
                left = more
            if not left:
                return
        for con, text in left.items():
            if con not in seen:
                c.unknown(rule, con, text)
        if not left and not seen:
            c.unknown(rule, b.path, why)

    def report(self, rule, b, found, seen):
        """reports the paths that can be taken; what cannot be told: {construct: why}"""
        c = self.c
        rest, left, tried = [], {}, {}
        for p, r, given in found:
            con = '%s: %s' % (p['fn'] or b.path, p['kind'])
            if con in seen:
                continue
            facts = self.facts(p)
            text = '%s in %s (called by %s) when {%s}' % (p['kind'] + (' ' + show(p['what'])[:80] if p['what'] else ''), p['fn'], b.path, ', '.join(show(f) for f in facts)[:400])
            if all(self.free(f) for f in facts):
                seen.add(con)
                c.bad(rule, con, text, p['span'])
                continue
            rest.append((con, p, r, given, facts, text))
        for con, p, r, given, facts, text in rest:
            if con in seen or tried.get(con, 0) > 6:
                continue
            tried[con] = tried.get(con, 0) + 1
            env, why = witness.search(self.cr, r.I.loops, p['st'], facts, given, self.lib(), self.either, anything=self.outside, types=r.I.rtypes)
            if env is not None:
                seen.add(con)
                c.bad(rule, con, text[:300] + '; for instance ' + witness.shown(env), p['span'])
            else:
                left[con] = '%s; {%s}' % (why, ', '.join(show(f) for f in facts)[:300])
        return {k: v for k, v in left.items() if k not in seen}

    def lib(self):
        if not hasattr(self, '_lib'):
            name = Interp(self.cr).fname
            self._lib = witness.Library(lambda b: analyse(self.c, b, opaque=[k for k in self.keys if k != b.key or k in self.comp.get(b.key, ())]), name,
                                        [b for b in self.cr.bodies.values() if b.kind == 'fn'])
        return self._lib

    def free(self, f):
        """a condition on one thing that can be either way whatever the other conditions are"""
        return not any_sub(f, lambda x: x[0] in ('pred', 'lv', 'post', 'each', 'first', 'nth', 'txt', 'seq') or x[0] == 'app' and not self.anything(x[1])) or is_overflow(f)

    def either(self, f):
        """a condition on the result of something that may give any result"""
        t = f[1]
        while isinstance(t, T) and t[0] in ('fld', 'tfld'):
            t = t[1]
        return isinstance(t, T) and t[0] == 'app' and t[1] != 'len' and (t[1] == 'mapget' and t[2][0][0] == 'sym' or t[1] != 'mapget' and self.anything(t[1]))

    def anything(self, n):
        """functions that may give any result"""
        return n in ('len', 'mapget') or n in self.grammars().values() or '::' in n and self.outside(n.split('!')[0])

    def inductive(self, p, run):
        """a key kept by a loop stays a key of the map that the same loop fills"""
        fs = self.facts(p)
        for f in fs:
            if f[0] != 'is' or f[2] != 0 or f[1][0] != 'app' or f[1][1] != 'mapget':
                continue
            m, x = f[1][2]
            if m[0] != 'post' or x[0] != 'fld' or x[2] != 1 or ('is', x[1], 1) not in [tuple(g) for g in fs]:
                continue
            rec = run.I.loops.get(m[1])
            if rec is None:
                continue
            for q in [q for q, v in rec.after if v is x[1] and q in rec.init]:
                if self.keeps(rec, m[1], tuple(m[2]), q):
                    return True
        return False

    def keeps(self, rec, lid, pm, pk):
        if pm not in rec.init or pk not in rec.init:
            return False
        lvm, lvk = mk('lv', lid, mk(*pm)), mk('lv', lid, mk(*pk))

        def has(m, key, st):
            if m[0] == 'app' and m[1] == 'mapins':
                return m[2][1] is key or has(m[2][0], key, st)
            return st is not None and st.variant(app('mapget', m, key)) == 1

        def over(m):
            while m[0] == 'app' and m[1] == 'mapins':
                m = m[2][0]
            return m is lvm

        def holds(m, k, st):
            v = k[2] if k[0] == 'adt' else st.variant(k) if st is not None else None
            return v == 0 or has(m, fld(k, 1, 0), st)
        return holds(rec.init[pm], rec.init[pk], None) and all(
            over(nv[pm]) if nv[pk] is lvk else holds(nv[pm], nv[pk], st) for fs, nv, st in rec.backs)

    def promise(self, body, nm, at):
        """what a function promises about the arguments it calls its at-th parameter with: indices below lengths"""
        if not hasattr(self, '_pr'):
            self._pr = {}
        key = (body.path if body is not None else nm, at)
        if key in self._pr:
            return self._pr[key]
        self._pr[key] = None
        todo, done, good = [(body, nm, at)], set(), None
        while todo:
            b0, n0, i0 = todo.pop()
            impls = [b for b in self.cr.bodies.values() if b.kind == 'fn' and not b.parent and self.same(b, b0, n0)]
            if not impls:
                return None
            for b in impls:
                if (b.key, i0) in done:
                    continue
                done.add((b.key, i0))
                try:
                    runs = self.runs(b, [k for k in self.keys if k != b.key or k in self.comp.get(b.key, ())], promised=False)
                except (Undecided, Limit, Lost, KeyError, RecursionError):
                    return None
                for r, given, lg in runs:
                    me = r.args[i0] if r.body is b else None
                    me = me or runs[0][0].args[i0]
                    for cb, nm, ats, st in lg:
                        if ats and ats[0] is me and nm == 'call':
                            now = {(i, j) for i in range(1, len(ats)) for j in range(1, len(ats)) if i != j and self.below(ats[i], ats[j], st)}
                            good = now if good is None else good & now
                            continue
                        for j, a in enumerate(ats):
                            while a[0] == 'mut':
                                a = a[1]
                            if a is me:
                                todo.append((cb, nm, j))
        self._pr[key] = good
        return good

    def same(self, b, b0, nm):
        """is b the function called: the very one, or any implementation where the method of a trait is called"""
        if b0 is not None:
            t = b0.trait or b0.intrait
            return b is b0 or b.name == b0.name and bool(t) and t in (b.trait, b.intrait)
        ps = nm.split('::')
        return len(ps) > 1 and b.name == ps[-1] and ps[-2] in [(t or '').split('::')[-1] for t in (b.trait, b.intrait)]

    def below(self, x, xs, st):
        """is x an index into xs, or an Option of one"""
        while xs[0] == 'mut':
            xs = xs[1]
        if x[0] == 'adt' and x[1] != OPT or x[0] in ('clo', 'fnp', 'seq', 'txt') or xs[0] in ('clo', 'fnp', 'txt', 'adt', 'tup', 'int'):
            return False
        if x[0] == 'adt':
            return x[2] == 0 or self.under(x[3][0], xs, st)
        v = st.variant(x)
        return v == 0 or v == 1 and self.under(fld(x, 1, 0), xs, st) or self.under(x, xs, st)

    def under(self, i, xs, st):
        try:
            lo, hi = st.bounds(sub(i, length(xs)))
        except Exception:
            return False
        return hi <= -1

    def assured(self, run_body, good, xs, cb):
        """facts about the arguments of a function value, from what its callers promise"""
        out = []
        for i, j in good or ():
            if i - 1 >= len(xs) or j - 1 >= len(xs):
                continue
            x, y = [a[1] if a[0] == 'mut' else a for a in (xs[i - 1], xs[j - 1])]
            t = self.cr.ty(cb.locals[i + 1])
            while t[0] == 'ref':
                t = t[2]
            opt = t[0] == 'adt' and t[1] == OPT
            out.append((x, fld(x, 1, 0) if opt else x, length(y), opt))
        return out

    def runs(self, b, opaque, args=None, setup=None, promised=True, steps=None):
        """the analysis of a function, and of the function values it hands to functions that are looked at on their own"""
        log = []
        run = analyse(self.c, b, args, opaque=opaque, setup=setup, log=log, steps=steps)
        given = [(a[1] if a[0] == 'mut' else a, self.cr.ty(b.locals[i + 1])) for i, a in enumerate(run.args) if a[0] != 'fnp']
        out = [(run, given, log)]
        seen = set()
        work = [(log, given)]
        while work:
            lg, giv = work.pop()
            for body, nm, ats, st in lg:
                for at, a in enumerate(ats):
                    while a[0] in ('mut',):
                        a = a[1]
                    if a[0] != 'clo' or a in seen or len(seen) > 40:
                        continue
                    seen.add(a)
                    cb = self.cr.bodies[a[1]]
                    xs, more = [], []
                    for i in range(1, cb.argc):
                        t = self.cr.ty(cb.locals[i + 1])
                        s = mk('sym', 'c%d.%d' % (len(seen), i))
                        xs.append(mk('mut', s) if t[0] == 'ref' and t[1] else s)
                        more.append((s, t))
                    known = st.facts_since(None)
                    sure = self.assured(body, self.promise(body, nm, at), xs, cb) if promised else []
                    lg2 = []

                    def start(q, known=known, sure=sure):
                        q.add_facts(known)
                        for x, i, n, opt in sure:
                            q.set_rng(sub(sub(n, INT(1)), i), 0, INF)
                        return q
                    r = run_closure(self.c, a, xs, opaque=opaque, setup=start, log=lg2, steps=steps)
                    out.append((r, giv + more, lg2))
                    work.append((lg2, giv + more))
        return out

    def facts(self, p):
        fs = p['st'].facts_since(None)
        for sb in p.get('sub') or []:
            fs = sb(fs)
        return fs

    def excused(self, p, allowed, run):
        return allowed is not None and allowed(p, run)

    def outside(self, n):
        """calls whose code is not the crate's: what the caller hands in, or another entry of the crate"""
        t = n.split('::')[0].strip('<>')
        return any(x.split('::')[-1] == t for x in self.traits()) or t in ('Visitor', 'Serialize', 'Deserialize', 'DeserializeSeed', 'SeqAccess', 'MapAccess', 'EnumAccess', 'VariantAccess') \
            or n in ('Iterator::next',)

    def traits(self):
        if not hasattr(self, '_tr'):
            self._tr = {t for b in self.cr.bodies.values() for t in (b.intrait,) if t} | {t for b in self.cr.bodies.values() if b.trait for t in (b.trait,) if not t.startswith(('std::', 'core::', 'alloc::', 'serde'))}
        return self._tr


    def parses(self, b):
        """does an entry run a grammar, directly or through helpers that are no entries"""
        return any(parsing(self.cr.bodies[k]) for k in self.around(b))

    def around(self, b):
        """what an entry reaches through helpers that are no entries, and the methods of a parser it reaches first"""
        if not hasattr(self, '_g'):
            self._g = call_graph(self.cr)
        seen, work = {b.key}, [b.key]
        ks = {x.key for x in self.all}
        while work:
            k = work.pop()
            if parsing(self.cr.bodies[k]):
                continue
            for n in self._g.get(k, ()):
                if n not in seen and (n not in ks or parsing(self.cr.bodies[n])):
                    seen.add(n)
                    work.append(n)
        return seen

    def grammars(self):
        """entries that run a grammar: their result may be either, depending on the text"""
        if not hasattr(self, '_gr'):
            self._gr = {b.key: Interp(self.cr).fname(b) for b in self.all if self.parses(b)}
        return self._gr

    def group(self, b):
        """the property an entry belongs to"""
        if self.parses(b):
            return None
        own = self.files().get(b.span.split(':')[0])
        if b.trait and b.trait.startswith('serde') or own:
            return 'P05'
        t = (b.trait or b.intrait or '').split('::')[-1]
        if t in ('YamlInsert', 'Additive', 'Add') or b.path.startswith('path::') or '::insert::' in b.path or b.name == 'fits_conditions':
            return 'P03'
        return 'P04'

    def files(self):
        """source files in which the traits of serde are implemented"""
        if not hasattr(self, '_fs'):
            self._fs = {}
            for b in self.cr.bodies.values():
                if b.trait and b.trait.startswith('serde') and not b.derived:
                    self._fs[b.span.split(':')[0]] = True
        return self._fs


def run_all(c, rule, pid, floor, allowed=None):
    P = Panics(c)
    bs = sorted((b for b in P.all if P.group(b) == pid), key=lambda b: (b.path, b.key))
    for b in bs:
        P.check(rule, b, allowed(P) if allowed else None)
    c.floor(rule, len(bs), floor, 'entry functions')
    return P


def p03(c):
    c.rule('returns', 'no path through a query or an edit reaches a panic')
    run_all(c, 'returns', 'P03', 20)


def p04(c):
    c.rule('returns', 'no path through writing out, prettifying, mapping, visiting or a string helper reaches a panic')
    run_all(c, 'returns', 'P04', 35)


def p05(c):
    c.rule('returns', 'no path through a conversion reaches a panic, as long as a value is asked for after its key')
    c.rule('protocol', 'a key that was handed over leaves its value to be asked for')
    run_all(c, 'returns', 'P05', 70, protocol)
    cells(c)


HALVES = {'next_value_seed': 'next_key_seed', 'serialize_value': 'serialize_key'}


def left(o, it, slot):
    """is a value left to be asked for after an outcome of handing over a key: True, False, None where it cannot be told"""
    st = o.st

    def which(x):
        return x[2] if x[0] == 'adt' else st.variant(x)
    v = which(o.ret)
    if v is None or v == 1:
        return None if v is None else True
    inner = o.ret[3][0] if o.ret[0] == 'adt' else fld(o.ret, 0, 0)
    if inner[0] == 'adt' and inner[1] == OPT or inner[0] != 'unit' and inner[0] != 'adt':
        w = which(inner)
        if w == 0:
            return True
        if w is None:
            return None
    x = fld(o.cells.get(0), slot[2], slot[3])
    w = which(x)
    if w is None and x is slot:
        w = 0
    return True if w == 1 else False if w == 0 else None


def protocol(P):
    """asking for a value that no key came before: excused where each key leaves a value behind"""
    c, cr = P.c, P.cr
    done = {}

    def allowed(p, run):
        b = run.body
        if b.name not in HALVES:
            return False
        fs = P.facts(p)
        me = run.args[0][1] if run.args[0][0] == 'mut' else run.args[0]
        slots = [f[1] for f in fs if f[0] == 'is' and f[2] == 0 and f[1][0] == 'fld' and f[1][1] is me]
        if len(fs) != 1 or len(slots) != 1:
            return False
        slot = slots[0]
        first = [x for x in cr.bodies.values() if x.kind == 'fn' and x.name == HALVES[b.name] and x.selfty == b.selfty and not x.parent]
        if len(first) != 1:
            return False
        key = (first[0].key, slot[3])
        if key not in done:
            r2 = analyse(c, first[0])
            it = r2.args[0][1] if r2.args[0][0] == 'mut' else r2.args[0]

            ok = True
            for o in r2.outs:
                v = left(o, it, slot)
                if v is True:
                    continue
                ok = False
                text = 'a key is handed over without its value: %s when {%s}' % (show(o.ret)[:150], ', '.join(show(f) for f in o.facts)[:200])
                env = None
                if v is False:
                    if all(P.free(f) for f in o.facts):
                        env = {}
                    else:
                        given = [(a[1] if a[0] == 'mut' else a, cr.ty(first[0].locals[i + 1])) for i, a in enumerate(r2.args) if a[0] != 'fnp']
                        env, why = witness.search(cr, r2.I.loops, o.st, o.facts, given, P.lib(), P.either, anything=P.outside, types=r2.I.rtypes)
                if env is None:
                    c.unknown('protocol', first[0].path, text)
                    continue
                c.bad('protocol', first[0].path, text, first[0].span)
                break
            if ok:
                c.ok('protocol', first[0].path, '%d paths' % len(r2.outs))
            done[key] = True
        return True
    return allowed
