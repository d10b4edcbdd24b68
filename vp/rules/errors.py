"""P47: what a failure tells."""
from .common import *
from .format import val


def shown_text(d, got, buf, want):
    """the written text is the given one: a text, or what another value shows"""
    r = any_of([match(d, got, Txt(val(buf), val(w))) for w in want])
    return r if r is not False or understood(got) else None


def any_of(rs):
    return True if True in rs else False if all(r is False for r in rs) else None


def parsed(run):
    """the attempts to parse that the function's paths tell apart"""
    out = []
    for o in run.outs:
        for f in list(o.facts) + [('is', o.ret)]:
            t = f[1]
            if f[0] in ('is', 'not') and t[0] == 'app' and t not in out:
                out.append(t)
    return out


def failing(c, name, b, opaque, wrap):
    """every failure is the one a step reported (wrapped by wrap), and no step that failed is taken for a success"""
    run = analyse(c, b, opaque=opaque)
    steps = [t for t in parsed(run) if t[1].startswith('pest:') or not t[1].startswith('Result')]
    allow([t[1] for t in steps])

    def spec(d, o):
        for t in steps:
            if d.st.variant(t) == 1 or t is o.ret:
                if t is o.ret:
                    return True
                if o.ret[0] != 'adt' or o.ret[2] != 1:
                    return (False if understood(o.ret) else None), 'after %s failed the answer is %s' % (show(t)[:100], show(o.ret)[:200])
                return wrap(d, o.ret, fld(t, 1, 0)), 'the failure of %s is told as %s' % (show(t)[:100], show(o.ret)[:200])
        return True
    return decide(c, 'passed on', name, run, spec)


def p47(c):
    c.rule('place', 'the line and column of a failure are those where the parser says the problem starts')
    c.rule('shown', 'a failure shows exactly its message: the report of the parser, or the text it was made from')
    c.rule('passed on', 'a step of parsing that fails makes the whole fail with that very report, also when typed values are read from the text')
    cr = c.crate
    n = 0
    allow(['debug', 'to_lowercase', 'to_uppercase', 'lines', 'charslice', 'strslice', 'strfrom'])
    # where
    b = cr.method('YamlError', 'location')
    run = analyse(c, b)
    pe = [p for p, a in cr.adts.items() if p.split('::')[-1] == 'Error' and any(f[0] == 'line_col' for f in a['vars'][0]['f'])]
    if len(pe) != 1:
        raise Lost('the report of the parser')
    i = [f[0] for f in cr.variants(pe[0])[0]['f']].index('line_col')
    me = run.args[0]
    inner = fld(me, 0, 0)
    at = fld(inner, 0, i)

    def place(d, o):
        v = d.variant(at, 2)
        p = fld(at, v, 0)
        r = o.ret
        if r[0] == 'tup' and len(r) == 3:
            return conj(match(d, r[j + 1], tfld(p, j)) for j in (0, 1)), 'the place is given as ' + show(r)[:200]
        return match(d, r, p), 'the place is given as ' + show(r)[:200]
    n += decide(c, 'place', 'YamlError::location', run, place)
    # what
    for ty in ('YamlError', 'YamlSerializeError', 'YamlDeserializeError'):
        b = cr.method(ty, 'fmt', 'Display')
        run = analyse(c, b)
        buf = run.args[1]
        buf = buf[1] if buf[0] == 'mut' else buf
        m = fld(run.args[0], 0, 0)

        def shows(d, o):
            if o.ret[0] == 'adt' and o.ret[2] == 1:
                return True
            got = o.cells.get(1)
            if got is None:
                return None
            return shown_text(d, got, buf, [app('display', m)] if ty == 'YamlError' else [m, app('display', m)]), 'what is shown is ' + show(got)[:200]
        n += decide(c, 'shown', ty, run, shows)
        if ty == 'YamlError':
            continue
        b = cr.method(ty, 'custom', 'Error')
        run = analyse(c, b)

        def made(d, o):
            return any_of([match(d, fld(o.ret, 0, 0), w) for w in (app('display', run.args[0]), run.args[0])]), 'the message becomes ' + show(o.ret)[:200]
        n += decide(c, 'shown', ty + '::custom', run, made)
    c.floor('shown', n, 7, 'cases')
    # passed on
    consumers = lambda owner: [x.key for x in cr.bodies.values() if x.kind == 'fn' and x.selfty is not None and head(cr.ty(x.selfty)).split('::')[-1] == owner]
    b = cr.fn('parse_yaml_file')
    k = failing(c, 'parse_yaml_file', b, consumers('YamlParser'), lambda d, r, e: match(d, fld(fld(r, 1, 0), 0, 0), e))
    b = cr.method('YamlPath', 'from_str', 'FromStr')
    k += failing(c, 'YamlPath::from_str', b, consumers('PathParser'), lambda d, r, e: match(d, fld(r, 1, 0), e))

    def told(d, r, e):
        t = fld(fld(r, 1, 0), 0, 0)
        whole = [p[1] for p in t[1] if p[0] == 'val'] if t[0] == 'txt' else [t]
        if any(x[0] == 'app' and x[1] == 'display' and any_sub(x[2][0], lambda y: y is e) for x in whole):
            return True
        return False if understood(t) else None
    b = cr.fn('from_yaml_str')
    k += failing(c, 'from_yaml_str', b, [cr.fn('parse_yaml_file').key], told)
    c.floor('passed on', k, 8, 'cases')
