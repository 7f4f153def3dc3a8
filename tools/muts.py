"""muts.py IDs file  < python list of (old,new[,nth])  : run in parallel"""
import sys,subprocess,concurrent.futures as cf
ids,fn=sys.argv[1:3]
L=eval(sys.stdin.read())
def go(m):
    a=[x.replace('\\','\\\\').replace('\n','\\n') if isinstance(x,str) else str(x) for x in m]
    ff=fn
    r=subprocess.run(['python3','/verif/tools/mut.py',ids,ff]+a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    return r.stdout.decode()
with cf.ThreadPoolExecutor(6) as ex:
    for m,o in zip(L,ex.map(go,L)):
        print('##',m[0][:50].replace('\n',' '),'=>',m[1][:60].replace('\n',' ')); print('\n'.join(l[:200] for l in o.split('\n')[:4]))
