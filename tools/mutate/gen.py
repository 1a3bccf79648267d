"""Generate mutants: list of (file, start, end, replacement, description)."""
import ast, os, sys, json, random
SRC="/repo/src/svdsuite"
out=[]
CMP={ast.Lt:"<=",ast.LtE:"<",ast.Gt:">=",ast.GtE:">",ast.Eq:"!=",ast.NotEq:"==",ast.Is:"is not",ast.IsNot:"is",ast.In:"not in",ast.NotIn:"in"}
TXT={ast.Lt:"<",ast.LtE:"<=",ast.Gt:">",ast.GtE:">=",ast.Eq:"==",ast.NotEq:"!=",ast.Is:"is",ast.IsNot:"is not",ast.In:"in",ast.NotIn:"not in"}
BIN={ast.Add:("+","-"),ast.Sub:("-","+"),ast.Mult:("*","+"),ast.FloorDiv:("//","*"),ast.LShift:("<<",">>"),ast.RShift:(">>","<<"),ast.BitAnd:("&","|"),ast.BitOr:("|","&"),ast.Mod:("%","//"),ast.Pow:("**","*")}
def run(path):
    src=open(path).read()
    b=src.encode()
    lines=src.split("\n")
    offs=[0]
    for l in lines: offs.append(offs[-1]+len(l.encode())+1)
    def pos(n): return offs[n.lineno-1]+n.col_offset, offs[n.end_lineno-1]+n.end_col_offset
    tree=ast.parse(src)
    def add(n,rep,desc):
        s,e=pos(n); out.append((path,s,e,rep,f"{os.path.relpath(path,SRC)}:{n.lineno} {desc}"))
    def text(n): s,e=pos(n); return b[s:e].decode()
    parents={}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): parents[c]=n
    def in_annot(n):
        while n in parents:
            p=parents[n]
            if isinstance(p,(ast.AnnAssign,)) and p.annotation is n: return True
            if isinstance(p,ast.arg): return True
            if isinstance(p,(ast.FunctionDef,)) and p.returns is n: return True
            if isinstance(p,ast.JoinedStr) : return True
            if isinstance(p,ast.Raise): return True
            if isinstance(p,ast.Call) and ast.unparse(p.func) in ("warnings.warn","cast"): return True
            n=p
        return False
    for n in ast.walk(tree):
        if in_annot(n): continue
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            o=type(n.ops[0])
            add(n,f"{text(n.left)} {CMP[o]} {text(n.comparators[0])}",f"{text(n)[:60]} -> {CMP[o]}")
        if isinstance(n,ast.BoolOp):
            op=" or " if isinstance(n.op,ast.And) else " and "
            add(n,"("+op.join("("+text(v)+")" for v in n.values)+")",f"boolop {text(n)[:60]}")
            for i in range(len(n.values)):
                rest=[v for j,v in enumerate(n.values) if j!=i]
                op2=" and " if isinstance(n.op,ast.And) else " or "
                add(n,"("+op2.join("("+text(v)+")" for v in rest)+")",f"drop operand {i} of {text(n)[:60]}")
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            add(n,f"({text(n.operand)})",f"drop not {text(n)[:60]}")
        if isinstance(n,ast.BinOp) and type(n.op) in BIN and not isinstance(n.left,ast.JoinedStr) and not (isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)):
            add(n,f"{text(n.left)} {BIN[type(n.op)][1]} {text(n.right)}",f"arith {text(n)[:60]}")
        if isinstance(n,ast.Constant) and type(n.value) is int:
            add(n,str(n.value+1),f"const {n.value}+1 in {lines[n.lineno-1].strip()[:60]}")
            if n.value>0: add(n,str(n.value-1),f"const {n.value}-1 in {lines[n.lineno-1].strip()[:60]}")
        if isinstance(n,ast.Constant) and type(n.value) is bool:
            add(n,str(not n.value),f"const not {n.value} in {lines[n.lineno-1].strip()[:60]}")
        if isinstance(n,(ast.If,ast.While)) :
            add(n.test,f"not ({text(n.test)})",f"negate if {text(n.test)[:60]}")
            if isinstance(n,ast.If):
                add(n.test,"False",f"if False: {text(n.test)[:60]}")
        if isinstance(n,ast.IfExp):
            add(n,f"({text(n.body)})",f"ifexp body {text(n)[:60]}")
            add(n,f"({text(n.orelse)})",f"ifexp else {text(n)[:60]}")
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call):
            add(n,"pass",f"delete {text(n)[:70]}")
        if isinstance(n,ast.Assign) and isinstance(n.targets[0],(ast.Attribute,ast.Subscript)):
            add(n,"pass",f"delete {text(n)[:70]}")
        if isinstance(n,ast.AugAssign): add(n,"pass",f"delete {text(n)[:70]}")
        if isinstance(n,ast.Continue): add(n,"break","continue->break"); add(n,"pass","continue->pass")
        if isinstance(n,ast.Break): add(n,"continue","break->continue")
        if isinstance(n,ast.Raise): add(n,"pass",f"delete {text(n)[:70]}")
        if isinstance(n,ast.Return) and n.value is not None and not (isinstance(n.value,ast.Constant) and n.value.value is None):
            add(n,"return None",f"return None for {text(n)[:60]}")
        if isinstance(n,ast.Call):
            f=ast.unparse(n.func)
            for k in n.keywords:
                if k.arg and not isinstance(k.value,ast.Constant):
                    add(k.value,"None",f"kw {k.arg}=None in {f}")
            if f.endswith("or_if_none") and len(n.args)==2:
                add(n,text(n.args[0]),f"or_if_none first {text(n)[:60]}")
                add(n,text(n.args[1]),f"or_if_none second {text(n)[:60]}")
            if f in("sorted","list","set","copy.copy","copy.deepcopy","reversed") and len(n.args)==1:
                add(n,text(n.args[0]),f"drop {f}: {text(n)[:60]}")
            if len(n.args)==2 and not any(isinstance(a,ast.Starred) for a in n.args):
                a,c=n.args
                s,_=pos(a); _,e=pos(c)
                out.append((path,s,e,f"{text(c)}, {text(a)}",f"{os.path.relpath(path,SRC)}:{n.lineno} swap args {text(n)[:60]}"))
for base,_,fs in sorted(os.walk(SRC)):
    for f in sorted(fs):
        if f.endswith(".py") and f not in("_version.py","__init__.py","html_generator.py","type_alias.py"):
            run(os.path.join(base,f))
random.Random(5).shuffle(out)
seen=set(); u=[]
for m in out:
    b=open(m[0],'rb').read()
    new=b[:m[1]]+m[3].encode()+b[m[2]:]
    if new in seen or new==b: continue
    try: compile(new,m[0],'exec')
    except SyntaxError: continue
    seen.add(new); u.append(m)
json.dump(u,open("/tmp/mut/mutants.json","w"))
import collections
print(len(u),collections.Counter(os.path.basename(m[0]) for m in u))
