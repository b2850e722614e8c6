"""ad hoc queries while developing: python3 -i analysis/q.py"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from db import *
db = load()
def pr(f, show=True):
    T=f.r["T"]
    def pl(p):
        s="_%d"%p[0]
        for x in p[1]:
            if x[0]=="*": s="(*%s)"%s
            elif x[0]=="f": s+="."+str(x[2] or x[1])
            elif x[0]=="d": s="(%s as %s)"%(s,x[2])
            elif x[0]=="i": s+="[_%d]"%x[1]
            else: s+=str(x)
        return s
    def o(x):
        if x[0]=="c":
            c=x[1]
            return "const "+str(c.get("v",c.get("s",c.get("fn",{}).get("p") if "fn" in c else c.get("k",T.s(c["t"])))))
        return x[0]+" "+pl(x[1]) if len(x)>1 else x[0]
    print(f.id,f.file,f.line)
    for i,(t,n) in enumerate(f.locals): print("  _%d: %s  %s"%(i,short(T.s(t)),n or ""))
    for b in sorted(f.reach):
        bb=f.bbs[b]; print(" bb%d:"%b)
        for s in bb["s"]:
            if s[0]=="=":
                rv=s[2]
                if rv[0] in("ref","raw"): r="&%s %s"%(rv[1],pl(rv[2]))
                elif rv[0]=="discr": r="discr "+pl(rv[1])
                elif rv[0]=="agg": r="%s%s(%s)"%(rv[1].get("p",rv[1]["k"]),"::"+rv[1]["vn"] if "vn" in rv[1] else "",", ".join(map(o,rv[2])))
                elif rv[0]=="bin": r="%s(%s, %s)"%(rv[1],o(rv[2]),o(rv[3]))
                elif rv[0]=="cast": r="%s as %s (%s)"%(o(rv[2]),T.s(rv[3]),rv[1])
                else: r=rv[0]+" "+", ".join(map(o,operands(rv)))
                print("   ",pl(s[1]),"=",r)
        t=bb["t"]
        if t[0]=="call": print("    %s = %s(%s) -> bb%s  @%s %s"%(pl(t[3]),short(t[1].get("r") or t[1].get("p","ptr")),", ".join(map(o,t[2])),t[4],t[5],t[6] or ""))
        elif t[0]=="switch": print("    switch",o(t[1]),t[3],t[4])
        else: print("   ",t)
