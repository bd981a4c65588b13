import pickle,re,collections
D=pickle.load(open('ucd.pkl','rb')); nfd=D['nfd']; nfkd=D['nfkd']
py={}
for l in open('py15.txt'):
    p=l.rstrip('\n').split(';'); py[int(p[0],16)]=p[3]
def rec(c):
    d=py.get(c,'')
    if not d: return [c]
    if d.startswith('<'): d=d.split('> ')[1]
    return [y for x in d.split() for y in rec(int(x,16))]
bad=[hex(c) for c in nfkd if py[c] and rec(c)!=nfkd[c]]; print('unsorted full decomps',bad)
def parse(fn):
    t=open(fn).read()
    chars=re.search(r'CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS: &\[char\] = &\[(.*?)\];',t,re.S).group(1)
    chars=[int(x,16) for x in re.findall(r'\\u\{([0-9A-F]+)\}',chars)]
    kv=re.search(r'CJK_COMPAT_VARIANTS_DECOMPOSED_KV[^=]*= &\[(.*?)\];',t,re.S).group(1)
    return {int(k,16):chars[int(o,16):int(o,16)+int(n,16)] for k,o,n in re.findall(r'\(0x([0-9A-F]+), \(0x([0-9A-F]+), 0x([0-9A-F]+)\)\)',kv)}
a=parse('/repo/src/tables.rs'); b=parse('/tmp/src/unicode-normalization-0.1.25/src/tables.rs'); print(len(a),len(b),a==b)
cj=[c for c in nfd if (0xF900<=c<=0xFAFF or 0x2F800<=c<=0x2FA1F)]; print(len(cj), set(cj)==set(a), [hex(c) for c in set(cj)^set(a)])
cnt=collections.Counter(); der={}
for c in sorted(cj):
    d=nfd[c]; assert len(d)==1
    der[c]=[d[0],0xFE00+cnt[d[0]]]; cnt[d[0]]+=1
print([(hex(c),[hex(x) for x in der.get(c,[])],[hex(x) for x in a[c]]) for c in a if der.get(c)!=a[c]])
pickle.dump(a,open('cjk.pkl','wb'))
