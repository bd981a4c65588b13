import pickle
D=pickle.load(open('ucd.pkl','rb')); cjk=pickle.load(open('cjk.pkl','rb'))
gc,ccc,nfd,nfkd,comp,qc=[D[k] for k in('gc','ccc','nfd','nfkd','comp','qc')]
py={}
for l in open('py15.txt'):
    p=l.rstrip('\n').split(';'); py[int(p[0],16)]=p[3]
hx=lambda s:' '.join('%04X'%x for x in s)
inv={v:k for k,v in comp.items()}
o=['# Frozen Unicode 16.0.0 reference data. See ucd/gen and DESIGN.md for provenance and cross-validation.']
def ranges(get):
    i=0; out=[]
    while i<0x110000:
        if 0xD800<=i<0xE000: i=0xE000; continue
        j=i
        while j+1<0x110000 and not(0xD800<=j+1<0xE000) and get(j+1)==get(i): j+=1
        out.append((i,j,get(i))); i=j+1
    return out
for a,b,g in ranges(lambda c:gc[c]): o.append('G %04X %04X %s'%(a,b,g))
for c in range(0x110000):
    if ccc[c]: o.append('C %04X %d'%(c,ccc[c]))
for c in sorted(set(nfkd)):
    if py[c]:
        s=py[c]
        o.append('D %04X %s %s'%((c,'k',s.split('> ')[1]) if s.startswith('<') else (c,'c',s)))
    elif c in inv: o.append('D %04X c %s'%(c,hx(inv[c])))
    elif c in nfd: raise SystemExit('singleton new %x'%c)
    else: o.append('D %04X k %s'%(c,hx(nfkd[c])))
for c in sorted(nfd): o.append('F %04X %s'%(c,hx(nfd[c])))
for c in sorted(nfkd): o.append('K %04X %s'%(c,hx(nfkd[c])))
for (a,b),c in sorted(comp.items()): o.append('P %04X %04X %04X'%(a,b,c))
for a,b,q in ranges(lambda c:qc[c]):
    if q!='YYYY': o.append('Q %04X %04X %s'%(a,b,q))
for c in sorted(cjk): o.append('V %04X %s'%(c,hx(cjk[c])))
open('/verif/ucd/ucd16.txt','w').write('\n'.join(o)+'\n')
# sanity: D recursion = F/K
single={}
for l in o:
    if l.startswith('D '):
        p=l.split(); single[int(p[1],16)]=(p[2],[int(x,16) for x in p[3:]])
def rec(c,k):
    if c in single and (k or single[c][0]=='c'):
        return [y for x in single[c][1] for y in rec(x,k)]
    return [c]
assert all(rec(c,0)==nfd[c] for c in nfd) and all(rec(c,1)==nfkd[c] for c in nfkd)
assert all((rec(c,0)!=[c])==(c in nfd) for c in single)
