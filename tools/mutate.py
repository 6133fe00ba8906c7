"""mutation testing: python mut.py N seed [workers]"""
import ast, os, sys, random, subprocess, shutil, json, queue, threading, time
SRC="/repo/src/pymiediff"
FILES=["multishell.py","special.py","main.py","helper/helper.py","helper/tg.py","materials/mat.py","materials/__init__.py","coreshell.py","helper/__init__.py"]
SWAP={ast.Add:"-",ast.Sub:"+",ast.Mult:"/",ast.Div:"*"}
CMP={ast.Lt:"<=",ast.LtE:"<",ast.Gt:">=",ast.GtE:">",ast.Eq:"!=",ast.NotEq:"=="}
def seg(src,off,node):
    a=off[node.lineno-1]+len(src.splitlines(True)[node.lineno-1].encode()[:node.col_offset].decode())
    b=off[node.end_lineno-1]+len(src.splitlines(True)[node.end_lineno-1].encode()[:node.end_col_offset].decode())
    return a,b
def muts(f):
    p=os.path.join(SRC,f)
    if not os.path.exists(p): return []
    src=open(p).read(); tree=ast.parse(src); lines=src.splitlines(True)
    off=[0]
    for l in lines: off.append(off[-1]+len(l))
    out=[]
    def add(node,new,desc,a=None,b=None):
        if a is None: a,b=seg(src,off,node)
        if src[a:b]!=new: out.append((f,node.lineno,a,b,new,desc))
    skip=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.Raise,ast.JoinedStr,ast.Assert)) or (isinstance(n,ast.If) and isinstance(n.test,ast.Compare) and getattr(n.test.left,'id','')=="__name__") or (isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)) or (isinstance(n,ast.FunctionDef) and n.name in("__repr__","__str__","plot_refractive_index","plot_epsilon","funct_grad_checker","num_center_diff","detach_tensor","Ql_torch","psi_torch_logdir","xi_torch_logdir","D3n_torch","_plot")) or (isinstance(n,ast.Call) and getattr(n.func,'attr','')=='warn'):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n,ast.If) and any(isinstance(x,ast.Raise) for x in n.body) :
            pass
    for n in ast.walk(tree):
        if id(n) in skip: continue
        t=src[seg(src,off,n)[0]:seg(src,off,n)[1]] if hasattr(n,'lineno') else ""
        if isinstance(n,ast.BinOp) and type(n.op) in SWAP:
            l=src[slice(*seg(src,off,n.left))]; r=src[slice(*seg(src,off,n.right))]
            # parenthesised operands are cut by the segments: rebuild with parens
            add(n,"((%s) %s (%s))"%(l,SWAP[type(n.op)],r),"op %s"%t[:60])
        elif isinstance(n,ast.BinOp) and isinstance(n.op,ast.Pow):
            l=src[slice(*seg(src,off,n.left))]
            add(n,"(%s)"%l,"pow %s"%t[:60])
        elif isinstance(n,ast.Compare) and len(n.ops)==1 and type(n.ops[0]) in CMP:
            l=src[slice(*seg(src,off,n.left))]; r=src[slice(*seg(src,off,n.comparators[0]))]
            add(n,"(%s) %s (%s)"%(l,CMP[type(n.ops[0])],r),"cmp %s"%t[:60])
        elif isinstance(n,ast.Constant) and isinstance(n.value,bool):
            add(n,str(not n.value),"bool %s"%t)
        elif isinstance(n,ast.Constant) and isinstance(n.value,int):
            add(n,str(n.value+1),"int %s"%t)
        elif isinstance(n,ast.Constant) and isinstance(n.value,float):
            add(n,repr(n.value*(1.03 if n.value<1e3 and n.value>1e-3 else 1e4)),"float %s"%t)
        elif isinstance(n,ast.Constant) and isinstance(n.value,complex):
            add(n,"(-%s)"%t,"cplx %s"%t)
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.USub,ast.Not,ast.Invert)):
            o=src[slice(*seg(src,off,n.operand))]; add(n,"(%s)"%o,"unary %s"%t[:50])
        elif isinstance(n,ast.BoolOp):
            o=src[slice(*seg(src,off,n.values[0]))]; add(n,"(%s)"%o,"bool1 %s"%t[:60])
        elif isinstance(n,ast.If):
            add(n.test,"True","if-true %s"%src[slice(*seg(src,off,n.test))][:60]); add(n.test,"False","if-false %s"%src[slice(*seg(src,off,n.test))][:60])
        elif isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and n.func.attr in("conj","clone","detach","abs","squeeze","lower","resolve_conj","to","contiguous","upper","copy") :
            o=src[slice(*seg(src,off,n.func.value))]; add(n,"(%s)"%o,"drop .%s in %s"%(n.func.attr,t[:50]))
        elif isinstance(n,ast.Attribute) and n.attr in("real","imag","complex128","float64"):
            new={"real":"","imag":".real","complex128":".complex64","float64":".float32"}[n.attr]
            o=src[slice(*seg(src,off,n.value))]; add(n,o+new,"attr .%s in %s"%(n.attr,t[:50]))
        elif isinstance(n,ast.keyword) and n.arg in("precision","n_max","eps_env","backend","which_jn","device","E_0","kind","epsilon","n_add","mat_env","r_layers","D1","D3") and isinstance(n.value,ast.Name):
            pass
    # second family: deleted statements, swapped variables, dropped keywords, swapped functions
    out2=[]
    def add2(node,new,desc):
        a,b=seg(src,off,node)
        if src[a:b]!=new: out2.append((f,node.lineno,a,b,new,desc))
    PAIRS=[("_a","_b"),("_c","_s"),("1","2"),("prev","curr"),("_e","_o"),("_r","_t"),("a_","b_"),("c_","d_"),("r_","eps_"),("psi","zeta"),("D1","D3"),("x","y"),("E","H"),("z1","z2"),("i","s"),("sin","cos"),("te","tm"),("min","max"),("k","k0"),("theta","phi"),("jn","yn"),("_n","_l"),("x","z")]
    for fn in [n for n in ast.walk(tree) if isinstance(n,ast.FunctionDef) and id(n) not in skip]:
        names={m.id for m in ast.walk(fn) if isinstance(m,ast.Name)}|{a.arg for a in fn.args.args}
        seen=set(a.arg for a in fn.args.args)
        for m in ast.walk(fn):
            if id(m) in skip: continue
            if isinstance(m,(ast.Assign,ast.AugAssign)):
                t=m.targets[0] if isinstance(m,ast.Assign) else m.target
                if isinstance(t,ast.Name) and (t.id in seen or isinstance(m,ast.AugAssign)): add2(m,"pass","delete %s"%src[slice(*seg(src,off,m))][:60].replace("\n"," "))
                if isinstance(t,ast.Name): seen.add(t.id)
                if isinstance(t,ast.Subscript): add2(m,"pass","delete %s"%src[slice(*seg(src,off,m))][:60].replace("\n"," "))
            if isinstance(m,ast.Name) and isinstance(m.ctx,ast.Load):
                c=set()
                for u,v in PAIRS:
                    for x,y in ((u,v),(v,u)):
                        if x in m.id:
                            w=m.id.replace(x,y,1)
                            if w in names and w!=m.id: c.add(w)
                for w in sorted(c)[:2]: add2(m,w,"name %s -> %s"%(m.id,w))
            if isinstance(m,ast.Call) and len(m.args)+len(m.keywords)>1:
                for kk in m.keywords:
                    if kk.arg:
                        kws=[x for x in m.keywords if x is not kk]
                        new=src[slice(*seg(src,off,m.func))]+"("+", ".join([src[slice(*seg(src,off,x))] for x in m.args]+[(x.arg+"=" if x.arg else "**")+src[slice(*seg(src,off,x.value))] for x in kws])+")"
                        add2(m,new,"drop keyword %s in %s"%(kk.arg,src[slice(*seg(src,off,m.func))]))
            if isinstance(m,ast.Attribute) and m.attr in SW:
                add2(m,src[slice(*seg(src,off,m.value))]+"."+SW[m.attr],"%s -> %s"%(m.attr,SW[m.attr]))
    return out2 if os.environ.get("MUT_FAMILY")=="2" else out
SW={"sin":"cos","cos":"sin","min":"max","max":"min","all":"any","any":"all","sum":"mean","unsqueeze":"squeeze","logical_and":"logical_or","logical_or":"logical_and","ones_like":"zeros_like","zeros_like":"ones_like","as_tensor":"clone","atleast_1d":"as_tensor","expand":"view","real":"imag","imag":"real"}
def sh(cmd,cwd,env,timeout):
    p=subprocess.Popen(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,executable="/bin/bash",start_new_session=True)
    try: o,_=p.communicate(timeout=timeout); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return -9,"timeout"
ALL=["C%02d"%i for i in range(1,24)]
ORD={"multishell.py":"C01 C02 C03 C05 C09 C12 C04 C10 C22 C11 C06 C08 C19 C20 C23","special.py":"C14 C15 C16 C01 C02 C05 C22 C08 C23 C17 C10 C11 C09 C04 C19",
 "main.py":"C12 C19 C20 C13 C21","helper/helper.py":"C17 C18 C10 C01 C05 C08 C12 C19 C09","helper/tg.py":"C21 C12","materials/mat.py":"C13 C19 C20 C12","coreshell.py":"C12 C19 C02"}
def worker(i,q,log):
    w="/tmp/mut/w%d"%i; v="/tmp/mut/v%d"%i
    for d in (w,v): shutil.rmtree(d,ignore_errors=True)
    subprocess.run(["cp","-a",BASE,w]); os.makedirs(v); subprocess.run("cp -a /verif/{run.py,run.sh,lib,checks,known_findings.txt} %s/"%v,shell=True,executable="/bin/bash")
    env=dict(os.environ,VERIF_REPO=w,VERIF_JOBS="1",VERIF_SEED="1",VERIF_BUDGET_S="150",OMP_NUM_THREADS="1",PYTHONDONTWRITEBYTECODE="1",PYTHONPATH=w+"/src",MPLBACKEND="Agg")
    while True:
        try: f,line,a,b,new,desc=q.get_nowait()
        except queue.Empty: break
        p=os.path.join(w,"src/pymiediff",f); src=open(os.path.join(BASE,"src/pymiediff",f)).read()
        m=src[:a]+new+src[b:]
        r=dict(file=f,line=line,desc=desc,new=new[:80],a=a,b=b,full=new)
        try: compile(m,p,"exec")
        except SyntaxError: continue
        open(p,"w").write(m)
        t=time.time()
        rc,o=sh(". /opt/vp/env.sh; export PYTHONPATH=%s/src; $PY -m pytest -q -x -p no:cacheprovider --timeout=200 -W ignore tests"%w,w,env,400)
        if rc!=0: r["res"]="tests"
        else:
            r["res"]="SURVIVED"; r["err"]=[]
            for c in ORD.get(f," ".join(ALL)).split():
                rc,o=sh("bash run.sh %s --scale %s"%(c,SCALE),v,env,600)
                if rc==1: r["res"]=c; r["msg"]=[l for l in o.splitlines() if l.startswith(c+"/")][:1]; break
                if rc!=0: r["err"].append((c,rc,o[-200:]))
        r["t"]=round(time.time()-t,1)
        open(p,"w").write(src)
        with open(log,"a") as g: g.write(json.dumps(r)+"\n")
if __name__=="__main__":
    N,seed,W=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3]); SCALE=sys.argv[4] if len(sys.argv)>4 else "0.2"
    BASE="/tmp/mut/base"; SRC=BASE+"/src/pymiediff"
    shutil.rmtree(BASE,ignore_errors=True); subprocess.run(["cp","-a",os.environ.get("MUT_BASE","/repo"),BASE])
    only=sys.argv[5].split(",") if len(sys.argv)>5 else FILES
    M=[m for f in only for m in muts(f)]
    print({f:sum(m[0]==f for m in M) for f in only},flush=True)
    random.seed(seed); random.shuffle(M)
    q=queue.Queue()
    for m in M[:N]: q.put(m)
    log="/tmp/mut/log_%d.jsonl"%seed
    ts=[threading.Thread(target=worker,args=(i,q,log)) for i in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]; print("done")
