exec(open('/tmp/seed/common.py').read()); exec(HEAD)
import sys,re,json,warnings
warnings.simplefilter('ignore')
from lxml import etree
sys.path.insert(0,'/verif')
w=json.load(open(sys.argv[1]))
print(w['message'])
x=w['witness']['xml']
from svdmon import refproc, observe
from svdmon.env import *
def lib(s):
    try: process(s); return True
    except Exception as e: return False
want=re.search(r"resolved \(([\w-]+)",w["message"]); print(want.group(1))
def bad(root):
    s=etree.tostring(root,encoding='unicode')
    if not lib(s): return False
    try:
        from svdsuite import Parser
        doc=todoc(Parser.from_xml_str(s).get_parsed_device())
        r=refproc.process(doc).error; globals().__setitem__("last",r); return r==want.group(1)
    except Exception as e:
        return False
import svdmon.observe as O
todoc=O.parsed
root=etree.fromstring(x.encode())
print(bad(root))
changed=True
while changed:
    changed=False
    for el in list(root.iter()):
        p=el.getparent()
        if p is None: continue
        i=p.index(el); p.remove(el)
        if bad(root): changed=True; continue
        p.insert(i,el)
        for a in list(el.attrib):
            v=el.attrib.pop(a)
            if bad(root): changed=True
            else: el.set(a,v)
s=etree.tostring(root,encoding='unicode')
print(re.sub(r'\n+','\n',s))
def show(l,d=1):
    for r in l:
        print(' '*d*2,type(r).__name__,r.name,[f.name for f in getattr(r,'fields',[])])
        if hasattr(r,'registers_clusters'): show(r.registers_clusters,d+1)
for p in process(s).peripherals: print(p.name); show(p.registers_clusters)
