#!/usr/bin/env python3
# reword.py: replaces the statement (or quantifier text) of a property in mkprops.py; used while writing
import ast,sys
def reword(new, path='/verif/tools/mkprops.py'):
    s=open(path).read(); t=ast.parse(s); lines=s.splitlines(keepends=True)
    off=[0]
    for l in lines: off.append(off[-1]+len(l.encode()))
    b=s.encode(); reps=[]
    for n in t.body:
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and getattr(n.value.func,'id','')=='p':
            a=n.value.args; i=a[0].value
            for k,idx in (('title',1),('statement',2),('text',4)):
                if k in new.get(i,{}):
                    x=a[idx]; reps.append((off[x.lineno-1]+x.col_offset,off[x.end_lineno-1]+x.end_col_offset,repr(new[i][k])))
    for a,e,r in sorted(reps,reverse=True): b=b[:a]+r.encode()+b[e:]
    open(path,'wb').write(b); print(len(reps),'replaced')
