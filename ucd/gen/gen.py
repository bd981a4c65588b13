import re,sys,collections
RS='/tmp/src/regex-syntax-0.8.11/src/unicode_tables/'
def parse_char(s):
    s=s[1:-1]
    if s.startswith('\\u{'): return int(s[3:-1],16)
    m={"\\'":39,'\\\\':92,'\\n':10,'\\r':13,'\\t':9,'\\0':0}
    return m[s] if s in m else ord(s)
CH=r"'(?:\\u\{[0-9a-fA-F]+\}|\\.|[^\\])'"
def parse_tables(fn):
    t=open(fn,encoding='utf8').read()
    byname=dict(re.findall(r'\("(\w+)",\s*(\w+)\)',t.split('pub const BY_NAME',1)[1].split('];',1)[0]))
    out={}
    for m in re.finditer(r"pub const (\w+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];",t,re.S):
        out[m.group(1)]=[(parse_char(a),parse_char(b)) for a,b in re.findall(r'\(('+CH+r'),\s*('+CH+r')\)',m.group(2))]
    return {k:out[v] for k,v in byname.items()}
age=parse_tables(RS+'age.rs'); gct=parse_tables(RS+'general_category.rs')
longs={'Uppercase_Letter':'Lu','Lowercase_Letter':'Ll','Titlecase_Letter':'Lt','Modifier_Letter':'Lm','Other_Letter':'Lo','Nonspacing_Mark':'Mn','Spacing_Mark':'Mc','Enclosing_Mark':'Me','Decimal_Number':'Nd','Letter_Number':'Nl','Other_Number':'No','Connector_Punctuation':'Pc','Dash_Punctuation':'Pd','Open_Punctuation':'Ps','Close_Punctuation':'Pe','Initial_Punctuation':'Pi','Final_Punctuation':'Pf','Other_Punctuation':'Po','Math_Symbol':'Sm','Currency_Symbol':'Sc','Modifier_Symbol':'Sk','Other_Symbol':'So','Space_Separator':'Zs','Line_Separator':'Zl','Paragraph_Separator':'Zp','Control':'Cc','Format':'Cf','Private_Use':'Co','Unassigned':'Cn'}
N=0x110000
gc=[None]*N
for k,v in longs.items():
    for a,b in gct[k]:
        for c in range(a,b+1):
            if 0xD800<=c<0xE000: continue
            assert gc[c] is None,(hex(c),gc[c],v); gc[c]=v
scal=[c for c in range(N) if not 0xD800<=c<0xE000]
assert all(gc[c] for c in scal),[hex(c) for c in scal if not gc[c]][:10]
ageof=[None]*N
for k,r in age.items():
    for a,b in r:
        for c in range(a,b+1): ageof[c]=k
hx=lambda s:[int(x,16) for x in s.split()]
node={};go={};py={};icu={};perl={}
for l in open('node17.txt'):
    p=l.rstrip('\n').split(';'); node[int(p[0],16)]=(p[1],hx(p[2]),hx(p[3]),hx(p[4]),hx(p[5]))
for l in open('go17.txt'):
    p=l.rstrip('\n').split(';'); go[int(p[0],16)]=(int(p[1]),hx(p[2]),hx(p[3]),p[4:9],hx(p[9]),hx(p[10]))
for l in open('py15.txt'):
    p=l.rstrip('\n').split(';'); py[int(p[0],16)]=(p[1],int(p[2]),p[3])
for l in open('icu151.txt'):
    p=l.split(';'); icu[int(p[0],16)]=[int(x) for x in p[1:]]
for l in open('perl15.txt'):
    p=l.rstrip('\n').split(';'); perl[int(p[0],16)]=p[1:]
in16=lambda c: gc[c]!='Cn'
print('assigned16',sum(in16(c) for c in scal))
# age consistency
bad=[hex(c) for c in scal if in16(c) and ageof[c] is None]; print('assigned without age',bad[:5],len(bad))
# gc compare
d=[(hex(c),gc[c],node[c][0]) for c in scal if in16(c) and gc[c]!=node[c][0]]; print('gc diff vs node17',len(d),d[:40])
d=[(hex(c),gc[c],py[c][0]) for c in scal if py[c][0]!='Cn' and gc[c]!=py[c][0]]; print('gc diff vs py15',len(d),d[:40])
# ccc
ccc=[0]*N
for c in scal: ccc[c]=go[c][0] if in16(c) else 0
d=[(hex(c),ccc[c],py[c][1]) for c in scal if py[c][0]!='Cn' and ccc[c]!=py[c][1]];print('ccc diff py15',d)
d=[(hex(c),ccc[c],icu[c][1]) for c in scal if icu[c][0]!=0 and ccc[c]!=icu[c][1]];print('ccc diff icu15.1',d)
d=[(hex(c),ccc[c],perl[c][0]) for c in scal if py[c][0]!='Cn' and ccc[c]!=int(perl[c][0])];print('ccc diff perl15',d)
isH=lambda c:0xAC00<=c<0xAC00+11172
nfd={};nfkd={}
for c in scal:
    if not in16(c) or isH(c): continue
    if node[c][1]!=[c]: nfd[c]=node[c][1]
    if node[c][2]!=[c]: nfkd[c]=node[c][2]
print(len(nfd),len(nfkd))
d=[hex(c) for c in scal if in16(c) and not isH(c) and ((go[c][1] or [c])!=node[c][1] or (go[c][2] or [c])!=node[c][2])];print('decomp diff go',d[:10],len(d))
import unicodedata
U=unicodedata
d=[hex(c) for c in scal if py[c][0]!='Cn' and ([ord(x) for x in U.normalize('NFD',chr(c))]!=node[c][1] or [ord(x) for x in U.normalize('NFKD',chr(c))]!=node[c][2] or [ord(x) for x in U.normalize('NFC',chr(c))]!=node[c][3]or [ord(x) for x in U.normalize('NFKC',chr(c))]!=node[c][4])];print('norm diff py15',d)
# composition
comp={}
for c,dd in nfd.items():
    if node[c][3]==[c]:
        b=dd[-1]
        # single level: from py if present
        if py[c][2] and not py[c][2].startswith('<'):
            a,b=hx(py[c][2])
        else:
            a=dd[:-1]
            if len(a)>1: a=next(x for x in nfd if nfd[x]==a and node[x][3]==[x])
            else: a=a[0]
        assert (a,b) not in comp; comp[(a,b)]=c
print('primary composites',len(comp))
# qc
seconds={b for a,b in comp}|set(range(0x1161,0x1176))|set(range(0x11A8,0x11C3))
def maybe(c):
    if c in seconds: return True
    f=nfd.get(c)
    return bool(f) and f[0] in seconds
def qcs(c):
    if not in16(c): return 'YYYY'
    def q(i,form):
        if node[c][i]!=[c]: return 'N'
        if form and maybe(c): return 'M'
        return 'Y'
    return q(3,1)+q(4,1)+q(1,0)+q(2,0)
qc={c:qcs(c) for c in scal}
# compare icu15.1 enumerations: order NFC,NFKC,NFD,NFKD : 0=N 1=Y 2? UNORM_NO=0,YES=1,MAYBE=2 in UNormalizationCheckResult; property value enum: N=0,Y? 
m={0:'N',1:'Y',2:'M'}
d=[]
for c in scal:
    if icu[c][0]==0: continue
    s=''.join(m[x] for x in icu[c][2:6])
    if s!=qc[c]: d.append((hex(c),s,qc[c]))
print('qc vs icu15.1',len(d),d[:20])
d=[]
for c in scal:
    if not in16(c): continue
    yc,ykc,yd,ykd,back=[x=='true' for x in go[c][3]]
    # go: isYesC true iff QC==Y ; combinesBackward maybe
    s=('Y' if yc else ('M' if back else 'N'))
    if s!=qc[c][0] or (qc[c][2]=='Y')!=(yd or isH(c)) and not isH(c): d.append((hex(c),s,yc,ykc,back,qc[c]))
print('qc vs go',len(d),d[:20])
d=[]
for c in scal:
    if py[c][0]=='Cn': continue
    conv=lambda x:{'1':'Y','':'N','M':'M'}[x]
    s=conv(perl[c][1])+conv(perl[c][2])+('Y' if perl[c][3]=='1' else 'N')+('Y' if perl[c][4]=='1' else 'N')
    if s!=qc[c]: d.append((hex(c),s,qc[c]))
print('qc vs perl15',len(d),d[:20])
# age
new16=[c for c in scal if in16(c) and ageof[c] in('V15_1','V16_0')]
print('new since 15.0',len(new16), 'with decomp',[hex(c) for c in new16 if c in nfd], 'compat',[hex(c) for c in new16 if c in nfkd and c not in nfd][:50])
import pickle; pickle.dump(dict(gc=gc,ccc=ccc,nfd=nfd,nfkd=nfkd,comp=comp,qc=qc),open('ucd.pkl','wb'))
