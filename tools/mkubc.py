"""One-off generator of sim/ref/ubc_table.go: turns the pinned C source of the
unavoidable bit conditions into a declarative list of linear conditions.
Usage: python3 mkubc.py /repo/cgo/ubc_check.c > ubc_table.go
The result is committed; no check runs this."""
import re,sys
src=open(sys.argv[1]).read()
names=re.findall(r'static const uint32_t (DV_I+_\d+_\d_bit) = \(uint32_t\)\(1\) << (\d+);',src)
bit={n:int(b) for n,b in names}
assert len(bit)==32
body=src[src.index('void ubc_check('):]
body=body[:body.index('dvmask[0] = mask')]
conds=[]  # (dvbit, w1,b1,w2,b2,const)
def terms(e,outbit):
    # e: expression text holding exactly two W refs with optional own shifts; returns list of (word,bit)
    r=[]
    for m in re.finditer(r'\(W\[(\d+)\]\s*(>>|<<)\s*(\d+)\)|W\[(\d+)\]',e):
        if m.group(1):
            w=int(m.group(1));s=int(m.group(3))
            b=outbit+s if m.group(2)=='>>' else outbit-s
        else:
            w=int(m.group(4));b=outbit
        r.append((w,b))
    assert len(r)==2,(e,r)
    for w,b in r: assert 0<=b<32,(e,r)
    return r
def add(dv,t,c): conds.append((bit[dv],t[0][0],t[0][1],t[1][0],t[1][1],c))
stmts=re.findall(r'mask &= (.*?);',body,re.S)
n=0
for s in stmts:
    s=' '.join(s.split())
    dvs=re.findall(r'DV_\w+_bit',s)
    expr=s[:s.index('| ~')] if '| ~' in s else None
    if expr is None: continue   # 'mask &= ~DV' in the final section
    n+=1
    want=1 if re.search(r'\(0 - ',expr) else 0
    m=re.search(r'\(\(\((\(W\[.*\]\)) >> (\d+)\) & 1\)( - 1)?\)*',expr)
    m1=re.search(r'(\(W\[\d+\] \^ W\[\d+\]\)) >> (\d+)\)? & 1\)',expr)
    m2=re.search(r'\(\(W\[\d+\] >> \d+\) \^ \(W\[\d+\] >> \d+\)\) & 1\)',expr)
    m3=re.search(r'\((W\[\d+\] \^ (?:W\[\d+\]|\(W\[\d+\] (?:>>|<<) \d+\)))\) & \(1 << (\d+)\)',expr)
    m4=re.search(r'(~?)\(+(W\[\d+\] \^ W\[\d+\])\) (<<|>>) (\d+)\)+ ?$',expr)
    if m1: t=terms(m1.group(1),int(m1.group(2)))
    elif m2: t=terms(m2.group(0),0)
    elif m3: t=terms(m3.group(1),int(m3.group(2)))
    elif m4:
        assert len(dvs)==1
        b=bit[dvs[0]]
        b=b-int(m4.group(4)) if m4.group(3)=='<<' else b+int(m4.group(4))
        t=terms(m4.group(2),b); want=0 if m4.group(1) else 1
    else: raise Exception(expr)
    for d in dvs: add(d,t,want)
# final section
for m in re.finditer(r'if \(mask & (DV_\w+_bit)\)\s*if \(\s*(.*?)\)\s*mask &= ~(DV_\w+_bit);',body,re.S):
    assert m.group(1)==m.group(3)
    for c in m.group(2).split('||'):
        c=' '.join(c.split())
        mm=re.match(r'!(\(!)?\(\((W\[\d+\] \^ (?:W\[\d+\]|\(W\[\d+\] (?:>>|<<) \d+\)))\) & \(1 << (\d+)\)\)',c)
        assert mm,c
        add(m.group(1),terms(mm.group(2),int(mm.group(3))),0 if mm.group(1) else 1)
conds=sorted(set(conds))
print('// Code generated by tools/mkubc.py from the pinned C source; DO NOT EDIT.\n\npackage ref\n')
print('// Cond says: bit B1 of W[W1] xor bit B2 of W[W2] must equal C.\ntype Cond struct{ W1, B1, W2, B2 uint8; C uint8 }\n')
print('// UBC lists, per mask bit, the unavoidable bit conditions.\nvar UBC = [32][]Cond{')
for d in range(32):
    print('\t%d: {'%d+', '.join('{%d, %d, %d, %d, %d}'%c[1:] for c in conds if c[0]==d)+'},')
print('}')
sys.stderr.write('%d mask statements, %d conditions, per dv %s\n'%(n,len(conds),[sum(1 for c in conds if c[0]==d) for d in range(32)]))
