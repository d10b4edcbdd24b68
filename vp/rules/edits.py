"""P24, P25 and the counting half of P20: what the edit callbacks do to the entries they are given."""
from .common import *
from . import walk as W


def callbacks(c, w, rule, name, m, nf):
    run = W.default_run(c, w, name)
    return run, W.delegated(c, rule, name, run, m, nf)


def data_args():
    return mk('sym', 'data'), mk('sym', 'key')


def entry_cases(w, f, data, key):
    """the callback for an absent key, and for the position of an entry: the walk only passes positions of entries it found in the
    mapping (checked by P23).  -> (argument, analysis) of both"""
    at = mk('sym', 'position')

    def setup(st):
        st.set_rng(at, 0, INF)
        st.set_rng(sub(sub(length(data), INT(1)), at), 0, INF)
        st.set_is(elem(data, at), w.L.hdE)
        return st
    return [(NONE, run_closure(w.c, f, [mk('mut', data), key, NONE])), (some(at), run_closure(w.c, f, [mk('mut', data), key, some(at)], setup=setup))]


def found_key(w, data, key, ki):
    """the position the walk passes is that of an entry with the key, and it passes none only where there is no such entry"""
    L = w.L

    def pre(d):
        n = d.count(length(data))
        v, k = d.ev(data), d.ev(key)
        at = [j for j in range(n) if v[j][2] == L.hdE and v[j][3][0][3][L.fi(L.he, 'key')] == k]
        if ki == NONE:
            return not at
        return bool(at) and d.count(fld(ki, 1, 0)) == at[0]
    return pre


def insert_spec(w, d, o, data, key, ki, value, overwrite):
    L = w.L
    el = mk('adt', L.hd, L.hdE, (L.make(L.he, key=key, value=value),))
    if ki == NONE:
        want = seq([all_(data), one(el)])
        n = 1
    else:
        ix = fld(ki, 1, 0)
        if d.test(overwrite):
            want, n = mk('updi', data, ix, el), 1
        else:
            want, n = data, 0
    r = match(d, o.cells[0], want)
    return conj((r, match(d, o.ret, INT(n)))), 'entries become %s, counted as %s' % (show(o.cells[0])[:300], show(o.ret)[:100])


def p24(c):
    c.rule('insert', 'absent key: one entry with the given key and value is appended and counted; present key: replaced in place and counted when overwriting, else left alone and not counted')
    w = W.Walk(c)
    n = 0
    for name in ('insert_into_hash', 'insert_into_hash_by_call'):
        run, cb = callbacks(c, w, 'insert', name, 'edit_hash_structure', 1)
        h, overwrite = run.args[2], run.args[3]
        for o, (f,) in cb:
            if f[0] != 'clo':
                c.unknown('insert', name, 'callback is not a closure')
                continue
            data, key = data_args()
            val = h if name == 'insert_into_hash' else app('call', h)
            for ki, rc in entry_cases(w, f, data, key):
                decide(c, 'insert', name + ' callback', rc, lambda d, q: insert_spec(w, d, q, data, key, ki, val, overwrite), pre=found_key(w, data, key, ki))
                n += len(rc.outs)
    c.floor('insert', n, 6, 'insert cases')
    W.run_walks(c, 'hold', W.calls_match, 'reached entry')
    W.run_walks(c, 'hold', W.place_kept, 'rest kept')


def removal(d, got, data, ix):
    """data without position ix"""
    want = seq([all_(slice_(data, INT(0), ix)), all_(slice_(data, add(ix, INT(1)), length(data)))])
    return match(d, got, want)


def p25(c):
    c.rule('remove', 'the addressed entry is taken out of its mapping and counted; a missing key changes nothing')
    c.rule('rename', 'the entry gets the new key, its value is untouched')
    c.rule('wrap', 'the entry keeps its key; its value with its anchor becomes the value under the given key of a new one-entry mapping')
    w = W.Walk(c)
    L = w.L
    n = 0
    run, cb = callbacks(c, w, 'remove', 'remove_from_hash', 'edit_hash_structure', 1)
    for o, (f,) in cb:
        data, key = data_args()

        def spec(d, q):
            if ki == NONE:
                return conj((match(d, q.cells[0], data), match(d, q.ret, INT(0)))), 'a missing key changes something'
            return conj((removal(d, q.cells[0], data, fld(ki, 1, 0)), match(d, q.ret, INT(1)))), 'entries become ' + show(q.cells[0])[:300]
        for ki, rc in entry_cases(w, f, data, key):
            decide(c, 'remove', 'remove_from_hash callback', rc, spec, pre=found_key(w, data, key, ki))
            n += len(rc.outs)
    e = mk('sym', 'entry')
    y = mk('sym', 'root')
    for rule, name in (('rename', 'rename_field'), ('wrap', 'to_object')):
        run, cb = callbacks(c, w, rule, name, 'for_hash', 2)
        k = run.args[2]
        for o, (f, r) in cb:
            rc = run_closure(c, f, [mk('mut', e)])
            if rule == 'rename':
                want = L.make(L.he, key=k, value=L.f(L.he, e, 'value'))
            else:
                inner = mk('adt', L.hd, L.hdE, (L.make(L.he, key=k, value=L.f(L.he, e, 'value')),))
                want = L.make(L.he, key=L.f(L.he, e, 'key'), value=L.make(
                    L.alias, alias=NONE, value=mk('adt', L.yaml, L.Hash, (seq([one(inner)]),))))
            decide(c, rule, name + ' callback for an entry', rc, lambda d, q: (
                conj((match(d, q.cells[0], want), match(d, q.ret, INT(1)))), 'the entry becomes %s, counted as %s' % (show(q.cells[0])[:300], show(q.ret)[:60])))
            rr = run_closure(c, r, [mk('mut', y)])
            decide(c, rule, name + ' callback for the root', rr, lambda d, q: (
                conj((match(d, q.cells[0], y), match(d, q.ret, INT(0)))), 'the root becomes ' + show(q.cells[0])[:300]))
            n += len(rc.outs) + len(rr.outs)
    c.floor('callbacks', n, 6, 'callback cases')
    W.run_walks(c, 'hold', W.calls_match, 'reached entry')
    W.run_walks(c, 'hold', W.place_kept, 'rest kept')


def counts(c, w):
    """every edit callback: zero exactly when the place is as it was, one otherwise"""
    c.rule('callback-count', 'an edit callback returns 0 only with its place untouched and 1 only after a change it was asked for')
    n = 0
    ow = None
    for name in ('insert_into_hash', 'insert_into_hash_by_call', 'remove_from_hash'):
        run, cb = callbacks(c, w, 'callback-count', name, 'edit_hash_structure', 1)
        for o, (f,) in cb:
            data, key = data_args()
            for ki, rc in entry_cases(w, f, data, key):
                decide(c, 'callback-count', name, rc, lambda d, q: count_ok(d, q, data), pre=found_key(w, data, key, ki))
                n += len(rc.outs)
    e = mk('sym', 'place')
    for name in ('rename_field', 'to_object'):
        run, cb = callbacks(c, w, 'callback-count', name, 'for_hash', 2)
        for o, fs in cb:
            for f in fs:
                rc = run_closure(c, f, [mk('mut', e)])
                decide(c, 'callback-count', name, rc, lambda d, q: count_ok(d, q, e))
                n += len(rc.outs)
    c.floor('callback-count', n, 10, 'callback cases')


def count_ok(d, q, orig):
    if d.definite:
        n = d.count(q.ret)
        if n == 1:
            return False if q.cells[0] is orig else None, 'counted as a change, but nothing was changed'
        return n == 0 and match(d, q.cells[0], orig), 'counted as %d, the place becomes %s' % (n, show(q.cells[0])[:300])
    same = match(d, q.cells[0], orig) if q.cells[0] is not orig else True
    if q.ret is INT(0):
        return same, 'counted as no change, but the place becomes ' + show(q.cells[0])[:300]
    if q.ret is INT(1):
        return (False if same is True else True if same is False else None), 'counted as a change, but nothing was changed'
    return (False if q.ret[0] == 'int' else None), 'counted as ' + show(q.ret)[:100]
