"""Pretty-print a dumped body: python3 pp.py PATTERN"""
import json,sys
D=json.load(open(__import__('os').environ.get('PA_BUILD','/verif/build')+'/dump.json'))
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s='%s.%d'%(s,e[1])
        elif e[0]=='d': s='(%s as v%d)'%(s,e[1])
        elif e[0]=='i': s='%s[_%d]'%(s,e[1])
        else: s='%s%r'%(s,e)
    return s
def op(o):
    if o['o'] in('copy','move'): return o['o'][0]+' '+pl(o['p'])
    if o['o']=='const':
        v=o['v']
        if v['c']=='fn': return 'fn '+D['types'][v['t']].get('path','?')
        return 'const %s %s'%(v['c'],{k:x for k,x in v.items() if k not in('c','t','bytes')})
    return str(o)
def rv(r):
    k=r['r']
    if k=='use': return op(r['a'])
    if k=='ref': return '&%s%s'%('mut ' if r['mut'] else '',pl(r['p']))
    if k=='agg': return '%s#%d<%s>(%s)'%(r['k'],r['v'],D['types'][r['t']]['s'][:60],', '.join(map(op,r['ops'])))
    if k=='bin': return '%s(%s,%s)'%(r['op'],op(r['a']),op(r['b']))
    if k=='un': return '%s(%s)'%(r['op'],op(r['a']))
    if k=='discr': return 'discr(%s)'%pl(r['p'])
    if k=='cast': return 'cast<%s>(%s) -> %s'%(r['k'],op(r['a']),D['types'][r['t']]['s'])
    return str(r)
def show(b):
    B=D['bodies'][b]
    print('ARGS',B['args'],'spread',B['spread'],B['span'])
    for n,p in B['names']: print('  name',n,pl(p))
    for i,l in enumerate(B['locals']): print('  _%d: %s'%(i,D['types'][l]['s'][:150]))
    for i,bb in enumerate(B['bbs']):
        if bb is None: continue
        print('bb%d:'%i)
        for s in bb['s']:
            if s[0]=='=': print('   ',pl(s[1]),'=',rv(s[2]))
            elif s[0] in('live','dead'): pass
            else: print('   ',s)
        t=bb['t']
        if t['t']=='call': print('   ',pl(t['d']),'= CALL',t.get('decl') or op(t['f']),'[%s]'%(D['insts'][t['inst']]['path'] if t.get('inst',-1)>=0 else '?'),'(',', '.join(map(op,t['a'])),') ->',t['b'])
        elif t['t']=='switch': print('    SWITCH',op(t['d']),t['vs'],'else',t['o'])
        elif t['t']=='drop': print('    DROP',pl(t['p']),'->',t['b'])
        else: print('   ',t)
if __name__=='__main__':
    pat=sys.argv[1]
    for i in D['insts']:
        if i['body']>=0 and pat in i['path']:
            print('=====',i['path'],i['kind'],'body',i['body'])
            if len(sys.argv)>2: show(i['body'])
