import ast, sys, os, json, subprocess
REPO='/repo'
OUT=[]
SKIPF={'compat.py'}
def seg(src, lines, n):
    # offsets in utf-8 bytes
    s=lines[n.lineno-1]+n.col_offset; e=lines[n.end_lineno-1]+n.end_col_offset
    return s,e
CMP={ast.Eq:'!=',ast.NotEq:'==',ast.In:'not in',ast.NotIn:'in',ast.Is:'is not',ast.IsNot:'is',ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>'}
def gen(path):
    src=open(path,'rb').read()
    lines=[0]
    for ln in src.split(b'\n'): lines.append(lines[-1]+len(ln)+1)
    tree=ast.parse(src)
    res=[]
    def add(n,new,kind):
        s,e=seg(src,lines,n)
        res.append((s,e,new if isinstance(new,bytes) else new.encode(),kind,n.lineno))
    def text(n):
        s,e=seg(src,lines,n); return src[s:e]
    doc=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.Module,ast.ClassDef,ast.FunctionDef)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant):
            doc.add(n.body[0]); doc.add(n.body[0].value)
    infs=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.JoinedStr):
            for c in ast.walk(n):
                if c is not n: infs.add(c)
    for n in ast.walk(tree):
        if n in doc or n in infs: continue
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            add(n, b'('+text(n.left)+b' '+CMP[type(n.ops[0])].encode()+b' '+text(n.comparators[0])+b')','cmp')
        if isinstance(n,ast.BoolOp):
            op=b' or ' if isinstance(n.op,ast.And) else b' and '
            vals=[b'('+text(v)+b')' for v in n.values]
            add(n,b'('+op.join(vals)+b')','boolop')
            o2=b' and ' if isinstance(n.op,ast.And) else b' or '
            for i in range(len(vals)):
                add(n,b'('+o2.join(vals[:i]+vals[i+1:])+b')','dropop')
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            add(n,b'('+text(n.operand)+b')','not')
        if isinstance(n,(ast.If,ast.IfExp,ast.While)):
            t=n.test
            if not isinstance(n,ast.While):
                add(t,b'True','iftrue')
            add(t,b'False','iffalse')
        if isinstance(n,ast.Constant):
            v=n.value
            if v is True: add(n,'False','const')
            elif v is False: add(n,'True','const')
            elif isinstance(v,int): add(n,str(v+1),'const'); 
            elif isinstance(v,str) and v and n.lineno==n.end_lineno:
                add(n,b"''",'str')
        if isinstance(n,(ast.Assign,ast.AugAssign,ast.Continue,ast.Break,ast.Return,ast.Raise)) or (isinstance(n,ast.Expr) and isinstance(n.value,(ast.Call,ast.Yield,ast.YieldFrom))):
            add(n,b'pass','delstmt')
        if isinstance(n,ast.Call):
            f=n.func
            if isinstance(f,ast.Attribute) and f.attr in ('strip','lstrip','rstrip','replace','lower','copy','escape','unescape','union'):
                add(n,text(f.value) if f.attr not in('escape','unescape') else (text(n.args[0])),'unmethod')
            for k in n.keywords:
                # drop keyword
                s=lines[k.lineno-1]+k.col_offset; e=lines[k.end_lineno-1]+k.end_col_offset
                m=e
                rest=src[e:].lstrip()
                if rest.startswith(b','): m=src.index(b',',e)+1
                elif k.arg is None or len(n.keywords)+len(n.args)>1:
                    pass
                res.append((s,m,b'','dropkw',k.lineno))
        if isinstance(n,(ast.List,ast.Set,ast.Tuple)) and isinstance(getattr(n,'ctx',ast.Load()),ast.Load) and len(n.elts)>1 and all(isinstance(e,ast.Constant) for e in n.elts):
            o,c={ast.List:(b'[',b']'),ast.Set:(b'{',b'}'),ast.Tuple:(b'(',b',)')}[type(n)]
            for i in range(len(n.elts)):
                add(n,o+b', '.join(text(x) for x in n.elts[:i]+n.elts[i+1:])+c,'dropelt')
    seen=set(); out=[]
    for s,e,new,kind,ln in res:
        m=src[:s]+new+src[e:]
        if m==src or m in seen: continue
        try: compile(m,path,'exec')
        except SyntaxError: continue
        seen.add(m)
        out.append(dict(file=os.path.relpath(path,REPO),line=ln,kind=kind,s=s,e=e,old=src[s:e].decode(),new=new.decode()))
    return out
allm=[]
for d,_,fs in os.walk(REPO+'/src/mdpo'):
    for f in sorted(fs):
        if f.endswith('.py') and f not in SKIPF:
            allm+=gen(os.path.join(d,f))
for i,m in enumerate(allm): m['n']=i
json.dump(allm,open('/tmp/mut/mutants.json','w'))
import collections
print(len(allm),collections.Counter(m['file'] for m in allm))
