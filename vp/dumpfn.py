# debugging aid: pretty-print one body of a MIR dump
import json,sys
d=json.load(open(sys.argv[1]))
def ty(i):
    t=d['types'][i];k=t['k']
    if k=='adt': return t['p'].split('::')[-1]+('<'+','.join(ty(a) if isinstance(a,int) else a for a in t['a'])+'>' if t['a'] else '')
    if k=='ref': return '&'+('mut ' if t['m'] else '')+ty(t['e'])
    if k=='ptr': return '*'+ty(t['e'])
    if k=='slice': return '['+ty(t['e'])+']'
    if k=='array': return '['+ty(t['e'])+';'+t['n']+']'
    if k=='tuple': return '('+','.join(map(ty,t['a']))+')'
    if k=='closure': return 'clo<'+t['key']+'>'
    if k=='fndef': return 'fn<'+t['p']+'>'
    return t.get('n',k)
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s='(%s as %s)'%(s,e[2])
        else: s+='%s'%e
    return s
def op(o):
    if o[0]=='k': 
        c=o[1]; return 'const '+c['c']+':'+str(c.get('v',c.get('key','')))+(':'+ty(c['t']) if c['c'] in('zst','int') else '')
    if o[0]=='rc': return 'rc'
    return ('move ' if o[0]=='m' else '')+pl(o[1])
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&'+('mut ' if r[1] else '')+pl(r[2])
    if k=='cast': return op(r[2])+' as '+ty(r[3])+' ('+r[1]+')'
    if k=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='discr': return 'discr('+pl(r[1])+')'
    if k=='agg': return 'agg %s(%s)'%(r[1],','.join(map(op,r[2])))
    return str(r)
def show(b):
    print('##',b['path'],b['key'],b['kind'],b.get('prom',''),{k:b.get(k) for k in('trait','self','pub','gen','parent','derived')})
    for i,l in enumerate(b['locals']): print('   _%d: %s'%(i,ty(l)))
    print('  names',[(n,pl(p)) for n,p in b['names']])
    for i,bb in enumerate(b['blocks']):
        if bb['cl']: continue
        print('  bb%d:'%i)
        for s in bb['s']:
            if s[0]=='=': print('    ',pl(s[1]),'=',rv(s[2]))
            elif s[0] not in('dead','live'): print('    ',s)
        t=bb['t']
        if t[0]=='call':
            f=t[1]; print('    ',pl(t[3]),'= call',f.get('p',f),[ty(a) if isinstance(a,int) else a for a in f.get('a',[])],'R='+f.get('r','') ,'(',', '.join(map(op,t[2])),') ->',t[4])
        elif t[0]=='switch': print('     switch',op(t[1]),ty(t[2]),t[3],t[4])
        elif t[0]=='assert': print('     assert',op(t[1]),t[2],t[3],[op(o) for o in t[4]],t[5])
        else: print('    ',t)
if __name__=='__main__':
    for b in d['bodies']:
        if any(a in b['path'] for a in sys.argv[2:]): show(b)
    if len(sys.argv)==2:
        for b in d['bodies']: print(b['path'],b['kind'],len(b['blocks']))
