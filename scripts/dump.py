"""debug aid: print the inlined event tree of a function
   dump.py <function> [opaque,names] [max lines] [max columns]"""
import sys
sys.path.insert(0,'/verif/lib')
import facts, tree, world
p=facts.load()
a=sys.argv[2] if len(sys.argv)>2 else "-"
n=int(sys.argv[3]) if len(sys.argv)>3 else 80
w=int(sys.argv[4]) if len(sys.argv)>4 else 170
op=world.world_opaque if a=="-" else (lambda f: any(x in f["name"] for x in a.split(",")))
lines=[]
for fn in p.fns(sys.argv[1]):
    if not fn.get('body'): continue
    lines.append('== %s %s %s:%s'%(fn['name'],fn['id'][:80],fn['file'],fn['line']))
    b=tree.Builder(p,opaque=op)
    t,_=b.root(fn)
    tree.dump(t,out=lines)
for l in lines[:n]: print(l[:w])
