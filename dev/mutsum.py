import ast,collections,sys,random
c=collections.Counter(); k=collections.Counter(); f=collections.Counter(); U=[]; Q=[]
for l in open(sys.argv[1]):
    try: t=ast.literal_eval(l)
    except Exception: continue
    if 'display' in t[0]: continue
    c[t[3]]+=1
    if t[3]!='different':
        k[(t[3],t[1].split('->')[0].split(' ')[0])]+=1; f[t[0].split('(')[0]]+=1
        (U if t[3]=='unknown' else Q).append((t[0].split('(')[0][-40:],t[1],t[2],t[4][:40],t[6][0][1][:90] if t[6] else ''))
print(c,k.most_common(14)); print(f.most_common(25))
random.seed(1)
for L,n in ((U,int(sys.argv[2])),(Q,int(sys.argv[3]))):
    for x in random.sample(L,min(n,len(L))): print(x)
