"""A loop that follows references is read as the recursion it stands for.

`while let Yaml::Anchor(name) = &yaml { .. yaml = ..; anchors = ..; }` and a function that calls itself with the next
tree and anchors are the same program; the rules about references speak of the second. A loop that takes no items and
whose only state is a tree and the anchors it is read with becomes a function of these two that calls itself
where the loop turns."""


def places(x, f):
    """a copy of a MIR fragment with every local renamed"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
            return [f(x[0]), [[e[0], f(e[1])] + e[2:] if isinstance(e, list) and e[0] == 'i' else e for e in x[1]]]
        if len(x) == 2 and x[0] in ('live', 'dead') and isinstance(x[1], int):
            return [x[0], f(x[1])]
        return [places(y, f) for y in x]
    return x


def targets(t, f):
    t = list(t)
    if t[0] == 'goto':
        t[1] = f(t[1])
    elif t[0] == 'switch':
        t[3] = [[v, f(b)] for v, b in t[3]]
        t[4] = f(t[4])
    elif t[0] == 'drop':
        t[2] = f(t[2])
    elif t[0] == 'call' and t[4] >= 0:
        t[4] = f(t[4])
    elif t[0] == 'assert':
        t[5] = f(t[5])
    return t


def terms(t, f):
    """the terminator with its places renamed, its targets left alone"""
    t = list(t)
    if t[0] == 'switch':
        t[1] = places(t[1], f)
    elif t[0] == 'drop':
        t[1] = places(t[1], f)
    elif t[0] == 'call':
        t[1] = places(t[1], f)
        t[2] = places(t[2], f)
        t[3] = places(t[3], f)
    elif t[0] == 'assert':
        t[1:5] = places(t[1:5], f)
    return t


def reads_writes(body, bi):
    """locals read before written, and locals written as a whole, in a block"""
    use, kill = set(), set()

    def read(x):
        def f(l):
            if l not in kill:
                use.add(l)
            return l
        places(x, f)
    blk = body.blocks[bi]
    for s in blk['s']:
        if s[0] == '=':
            read(s[2])
            if s[1][1]:
                read(s[1])
            else:
                kill.add(s[1][0])
        elif s[0] in ('live', 'dead'):
            kill.add(s[1])
        else:
            read(s[1:])
    t = blk['t']
    if t[0] == 'call':
        read(t[1])
        read(t[2])
        if t[3][1]:
            read(t[3])
        else:
            kill.add(t[3][0])
    elif t[0] == 'ret':
        if 0 not in kill:
            use.add(0)
    elif t[0] != 'drop':
        read(t[1:])
    return use, kill


def live_at(body, h):
    n = len(body.blocks)
    rw = [reads_writes(body, i) for i in range(n)]
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            out = set()
            for s in body.succs(i):
                out |= live[s]
            new = rw[i][0] | (out - rw[i][1])
            if new != live[i]:
                live[i] = new
                ch = True
    return sorted(live[h])


def reach(body, at, blocks):
    seen, todo = set(), [at]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        class X:
            pass
        x = X()
        x.blocks = blocks
        todo += type(body).succs(x, b)
    return seen


def constant_at(body, l, h):
    """the statement that gives a local the value it has whenever the loop turns, if that is always the same constant"""
    if body.crate.types[body.locals[l]]['k'] != 'bool':
        return None
    TOP = 'top'
    at = {0: None}
    todo = [0]
    while todo:
        b = todo.pop()
        v = at[b]
        for s in body.blocks[b]['s']:
            if s[0] == '=' and s[1] == [l, []]:
                v = s[2] if s[2][0] == 'use' and s[2][1][0] == 'k' else TOP
            elif s[0] == '=' and s[1][0] == l:
                v = TOP
        t = body.blocks[b]['t']
        if t[0] == 'call' and t[3][0] == l:
            v = TOP
        for x in body.succs(b):
            old = at.get(x, 'none')
            new = v if old == 'none' or old == v else TOP
            if new != old:
                at[x] = new
                todo.append(x)
    v = at.get(h)
    return v if isinstance(v, list) else None


def pieces(cr, body, live):
    """what the loop keeps: (local, field of it or None, type)"""
    out = []
    for l in live:
        t = cr.types[body.locals[l]]
        if t['k'] == 'tuple' and t['a']:
            out += [(l, i, x) for i, x in enumerate(t['a'])]
        else:
            out.append((l, None, body.locals[l]))
    return out


def outlined(body, h, live, ps, same=()):
    """(new body, what is left of the old one)"""
    j = body.j
    k = len(ps)
    key = j['key'] + '@turn'
    ren = lambda l: 0 if l == 0 else l + k
    fn = {'p': j['path'] + '::turn', 'key': key, 'a': []}
    sp = j['blocks'][h]['sp']
    blk = lambda t, s=(): {'s': list(s), 't': t, 'sp': sp, 'x': '', 'cl': False}
    n = len(j['blocks'])
    # the function that calls itself: its first block moves its arguments to where the loop keeps them
    start = []
    for l in live:
        mine = [['m', [i + 1, []]] for i, p in enumerate(ps) if p[0] == l]
        whole = any(p[0] == l and p[1] is None for p in ps)
        start.append(['=', [ren(l), []], ['use', mine[0]] if whole else ['agg', ['tuple'], mine], sp])
    for l, v in same:
        start.append(['=', [ren(l), []], v, sp])
    give = lambda f: [['m', [f(l), [] if i is None else [['f', i, t]]]] for l, i, t in ps]
    new = [blk(['goto', h + 1], start)]
    for b in j['blocks']:
        t = targets(terms(b['t'], ren), lambda x: n + 1 if x == h else x + 1)
        new.append(dict(b, s=[places(s, ren) for s in b['s']], t=t))
    new.append(blk(['call', fn, give(ren), [0, []], n + 2]))
    new.append(blk(['ret']))
    old = []
    for b in j['blocks']:
        old.append(dict(b, t=targets(b['t'], lambda x: n if x == h else x)))
    old.append(blk(['call', fn, give(lambda l: l), [0, []], n + 1]))
    old.append(blk(['ret']))
    for bs in (new, old):
        seen = reach(body, 0, bs)
        for i in range(len(bs)):
            if i not in seen:
                bs[i] = blk(['unreachable'])
    loc = j['locals']
    nj = dict(j, key=key, path=j['path'] + '::turn', name=(j.get('name') or '') + '_turn', argc=k, pub=False,
              locals=[loc[0]] + [t for _, _, t in ps] + loc[1:], blocks=new,
              names=[[nm, places(p, ren)] for nm, p in j['names']])
    return nj, dict(j, blocks=old)


def outline(cr, Body):
    """outlines the loops that follow references; the names of the functions changed"""
    done = []
    yaml = [p for p, a in cr.adts.items() if a['local'] and p.split('::')[-1] == 'Yaml']
    if len(yaml) != 1:
        return done
    for key, b in list(cr.bodies.items()):
        if b.kind != 'fn' or b.trait or b.gen or b.parent or len(b.loops) != 1:
            continue
        h, blocks = next(iter(b.loops.items()))
        if any(b.blocks[i]['t'][0] == 'call' and b.blocks[i]['t'][1].get('m') in ('next', 'next_back') for i in blocks):
            continue
        live = live_at(b, h)
        same = [(l, v) for l in live for v in [constant_at(b, l, h)] if v is not None]
        live = [l for l in live if l not in [x for x, _ in same]]
        ps = pieces(cr, b, live)
        if len(ps) != 2 or 0 in live:
            continue
        ts = [cr.ty(t) for _, _, t in ps]
        if not any(t[:2] == ('adt', yaml[0]) for t in ts):
            continue
        if not any(t[0] == 'adt' and t[1] != yaml[0] and 'HashMap' in str(t) for t in ts):
            continue
        nj, oj = outlined(b, h, live, ps, same)
        cr.bodies[key] = Body(cr, oj)
        nb = cr.bodies[nj['key']] = Body(cr, nj)
        if cr.bypath.get(b.path) is b:
            cr.bypath[b.path] = cr.bodies[key]
        cr.bypath[nj['path']] = nb
        done.append(b.path)
    return done
