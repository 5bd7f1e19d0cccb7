import sys, json, random, collections, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import runner
os.makedirs('/tmp/mut', exist_ok=True)
rng=random.Random(int(sys.argv[1])); N=int(sys.argv[2]); files=sys.argv[3:]
def scen(f):
    cur=None
    for l in open(f):
        e=json.loads(l)
        if e['e']=='Begin': cur=[]
        cur.append(e)
        if e['e']=='End': yield cur
def wty(e): return e['p'][0][0]>>4
def flat(p): return [b for b,n in p for _ in range(n)]
def rle(x):
    o=[]
    for b in x:
        if o and o[-1][0]==b: o[-1][1]+=1
        else: o.append([b,1])
    return o
def ops(s):
    """(name, mutated)"""
    idx=collections.defaultdict(list)
    for i,e in enumerate(s):
        k=e['e']
        if k=='Wire': k='Wire%d'%wty(e)
        if k=='Notif': k='Notif-'+e['k']
        if k in('Call',) : k='Call-ok' if e['ok'] else 'Call-no'
        idx[k].append(i)
    out=[]
    def m(name,f):
        t=[dict(e) for e in s]; r=f(t)
        if r is not None: out.append((name,r))
    for k,ix in idx.items():
        i=rng.choice(ix)
        if k.startswith(('Wire','Notif','Done','NEnd')):
            m('del '+k,lambda t:t[:i]+t[i+1:])
            m('dup '+k,lambda t:t[:i+1]+[t[i]]+t[i+1:])
            # later: past next settle
            nx=[j for j in range(i+1,len(s)) if s[j]['e']=='Settle']
            if nx: m('late '+k,lambda t:t[:i]+t[i+1:nx[0]+1]+[dict(t[i],t=t[nx[0]]['t'])]+t[nx[0]+1:])
            # earlier: before the previous stimulus
            pv=[j for j in range(0,i) if s[j]['e'] in('BSend','Call','BEnd')]
            if pv: m('early '+k,lambda t:t[:pv[-1]]+[dict(t[i],t=t[pv[-1]]['t'])]+t[pv[-1]:i]+t[i+1:])
        if k.startswith('Wire') and k!='WireEof':
            def corrupt(t):
                b=flat(t[i]['p'])
                if len(b)>2000: return None
                j=rng.randrange(len(b)); b[j]^=1<<rng.randrange(8)
                t[i]['p']=rle(b); return t
            m('flip '+k,corrupt)
        if k.startswith('Notif-'):
            def fld(t):
                e=t[i]; c=[x for x in e if x not in('e','t','k')]
                x=rng.choice(c); v=e[x]
                if isinstance(v,bool): e[x]=not v
                elif isinstance(v,int): e[x]=v+1
                elif isinstance(v,str): e[x]=v+'x'
                elif x=='props': e[x]=v[1:] if v else [{"k":"rt","a":[[65,1]],"b":[]}]
                else: e[x]=v+[[65,1]]
                t[i]=e; return t
            m('field '+k,fld)
        if k=='Done':
            m('flipdone',lambda t:[dict(e,ok=not e['ok']) if e['e']=='Done' else e for e in t])
        if k=='Call-ok': m('refuse',lambda t:t[:i]+[dict(t[i],ok=False)]+t[i+1:])
        if k=='Call-no': m('accept',lambda t:t[:i]+[dict(t[i],ok=True)]+t[i+1:])
        if k=='Call-ok': m('late-call',lambda t:t[:i]+[dict(t[i],late=True)]+t[i+1:])
    # swap adjacent Wire / Notif
    for kind in('Wire','Notif'):
        c=[i for i in range(len(s)-1) if s[i]['e']==kind and s[i+1]['e']==kind and {k:v for k,v in s[i].items()}!=s[i+1]]
        if c:
            i=rng.choice(c); m('swap '+kind,lambda t:t[:i]+[t[i+1],t[i]]+t[i+2:])
    # insert
    p=[i for i,e in enumerate(s) if e['e'] in('Settle','BSend','Call')]
    if p:
        for nm,pk in(('ping',[[192,1],[0,1]]),('puback',rle([64,3,0,1,0])),('disc',rle([224,0])),('pub',rle([48,5,0,1,97,0,65])),('connect',None)):
            i=rng.choice(p)
            if pk is None:
                c=[e for e in s if e['e']=='Wire' and wty(e)==1]
                if not c: continue
                pk=c[0]['p']
            m('ins '+nm,lambda t:t[:i+1]+[dict(e='Wire',t=t[i]['t'],p=pk)]+t[i+1:])
        i=rng.choice(p)
        m('ins done',lambda t:t[:i+1]+[dict(e='Done',t=t[i]['t'],ok=rng.random()<.5,kind='other')]+t[i+1:] if not any(e['e'] in('Done','Panic','Gone') for e in t) else None)
        n=[e for e in s if e['e']=='Notif']
        if n: m('ins notif',lambda t:t[:i+1]+[dict(rng.choice(n),t=t[i]['t'])]+t[i+1:])
        c=[j for j in p if s[j]['e']=='Settle']
        if c:
            j=rng.choice(c); m('polls',lambda t:t[:j]+[dict(t[j],polls=t[j]['polls']+50)]+t[j+1:])
            j2=c[-1]; m('kb',lambda t:t[:j2]+[dict(t[j2],kb=t[j2]['kb']+3000)]+t[j2+1:])
    return out
w=runner.Work(); os.environ
all_=[]
for f in files:
    ss=[s for s in scen(f) if not any(e['e'] in('Bulk','BAcks','Rain','Storm','Threads') for e in s) and len(s)<110 and not s[0].get('grp')]
    rng.shuffle(ss)
    for s in ss[:N]:
        for nm,t in ops(s): all_.append((s[0]['id'],nm,t))
print(len(all_),'mutants',flush=True)
import concurrent.futures as cf
K=600
for sid,nm,t in all_:
    for e in t:
        if 't' not in e: print('no t',sid,nm,e); break
def run(c):
    p=w.path('m%d.ndjson'%c)
    part=all_[c:c+K]
    with open(p,'w') as f:
        for i,(sid,nm,t) in enumerate(part):
            t=[dict(e) for e in t]; t[0]=dict(t[0],id='x%d'%(c+i))
            for e in t: f.write(json.dumps(e,separators=(',',':'))+'\n')
    import shutil; shutil.copy(p,'/tmp/mut/m%d.ndjson'%c); v,n=runner.judge(w,p)
    return v
hit=collections.defaultdict(set)
with cf.ThreadPoolExecutor(3) as ex:
    for v in ex.map(run,range(0,len(all_),K)):
        for pr,sid,why,_ in v: hit[sid].add((pr,why))
tot=collections.Counter(); kil=collections.Counter(); surv=collections.defaultdict(list)
for i,(sid,nm,t) in enumerate(all_):
    tot[nm]+=1
    if hit.get('x%d'%i): kil[nm]+=1
    else: surv[nm].append((sid,t))
for nm in sorted(tot): print('%-22s %4d/%4d'%(nm,kil[nm],tot[nm]), [x[0] for x in surv[nm][:6]])
json.dump({k:[(a,b) for a,b in v[:12]] for k,v in surv.items()},open('/tmp/mut/surv.json','w'))
w.close()
