"""readable print of a function body in the IR (development aid)"""
def E(e):
    if not isinstance(e,dict): return str(e)
    k=e["k"]
    if k=="var": return f"{e['n']}#{e['id']}"
    if k in("int","flt","bool","str","char"): return str(e.get("v"))
    if k=="bin": return f"({E(e['a'])} {e['op']} {E(e['b'])})"
    if k=="un": return f"{e['op']}{E(e['e'])}"
    if k=="mem": return f"{E(e['o'])}.{e['n']}"
    if k=="idx": return f"{E(e['a'])}[{E(e['b'])}]"
    if k=="cond": return f"({E(e['c'])}?{E(e['a'])}:{E(e['b'])})"
    if k in("cast","copy"): return E(e["e"])
    if k=="call": return (E(e["o"])+"." if e.get("o") else "")+e.get("fn","?").split("::")[-1]+"("+", ".join(map(E,e["a"]))+")"
    if k=="op": return e["op"]+"{"+", ".join(map(E,e["a"]))+"}"
    if k=="ctor": return "ctor<"+e.get("fn","").split("::")[-1]+">("+", ".join(map(E,e["a"]))+")"
    if k=="lambda": return "lambda{..}"
    return k
def S(s,n=0):
    p="  "*n
    if not isinstance(s,dict): return print(p+str(s))
    k=s["k"]
    if k=="block": 
        for x in s["b"]: S(x,n)
    elif k=="expr": print(p+E(s["e"]))
    elif k=="decl":
        for v in s["v"]: print(p+f"{v.get('t')} {v['n']}#{v['id']} = {E(v['i']) if v.get('i') else '-'}")
    elif k=="if":
        print(p+"if "+E(s["c"])); S(s["a"],n+1)
        if s.get("b"): print(p+"else"); S(s["b"],n+1)
    elif k=="for": 
        print(p+"for"); S(s["init"],n+2) if s.get("init") else 0; print(p+"  ;"+E(s["c"])+";"+E(s["inc"])); S(s["b"],n+1)
    elif k=="rfor": print(p+f"rfor {s['v']['n']}#{s['v']['id']} : {E(s['range'])}"); S(s["b"],n+1)
    elif k in("while","do"): print(p+k+" "+E(s["c"])); S(s["b"],n+1)
    elif k=="ret": print(p+"ret "+(E(s["e"]) if s.get("e") else ""))
    else: print(p+k)
