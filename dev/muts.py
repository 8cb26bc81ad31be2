import ast,sys,random,collections
L=[ast.literal_eval(l) for l in open('/tmp/mut.txt')]
v=sys.argv[1]; n=int(sys.argv[2]); 
L=[r for r in L if r[3]==v and not any(s in r[0] for s in sys.argv[3:])]
random.seed(int(sys.argv[3]) if len(sys.argv)>3 and sys.argv[3].isdigit() else 0)
random.shuffle(L)
for r in L[:n]:
    print(r[0].split('(R')[0].split('(std')[0][:55],'|',r[1],'| l',r[2],'|',r[4][:100] if v!='equal' else '')
    if v=='unknown': print('     ',[x[1][:200] for x in r[6]])
