"""mutate.py LANE OUT FILE:checks[:maxper] ... : AST mutants of files, killed by checks (in order)."""
import ast, os, random, subprocess, sys, time, signal, json
lane, out = sys.argv[1], sys.argv[2]
TREE=f'/tmp/w/mt{lane}'; VH=f'/tmp/w/vh{lane}'
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
sh(f'rm -rf {TREE} {VH}; cp -a /repo {TREE}; mkdir {VH}; cd /verif && git archive HEAD | tar x -C {VH} --exclude=seeded')
ENV=dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
 XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1', MPLBACKEND='Agg', PYTHONPATH=f'{VH}:{TREE}', VERIF_HOME=VH, VERIF_TIER='quick', TMPDIR='/tmp')
def check(c, limit=400):
    p=subprocess.Popen(['/opt/venv/bin/python','-m','mc.main',c],env=ENV,cwd=VH,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
    try:
        o,_=p.communicate(timeout=limit); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.communicate(); return 'timeout',''
SWAP={ast.Add:'-',ast.Sub:'+',ast.Mult:'/',ast.Div:'*',ast.Pow:'*',ast.Mod:'+',ast.FloorDiv:'/'}
CMP={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.In:'not in',ast.NotIn:'in',ast.Is:'is not',ast.IsNot:'is'}
def sites(src):
    tree=ast.parse(src); lines=src.split('\n')
    off=[0]
    for l in lines: off.append(off[-1]+len(l.encode())+1)
    b=src.encode()
    def pos(n): return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
    def seg(n): a,z=pos(n); return b[a:z].decode()
    res=[]
    def add(n,new,op): a,z=pos(n); res.append((n.lineno,op,a,z,new))
    skip=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)):
            if n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant): skip.add(id(n.body[0])); skip.add(id(n.body[0].value))
            if isinstance(n,ast.FunctionDef):
                for a in ast.walk(n.args):
                    if getattr(a,'annotation',None) is not None:
                        for q in ast.walk(a.annotation): skip.add(id(q))
                if n.returns is not None:
                    for q in ast.walk(n.returns): skip.add(id(q))
        if isinstance(n,ast.AnnAssign):
            for q in ast.walk(n.annotation): skip.add(id(q))
        if isinstance(n,ast.JoinedStr) or isinstance(n,ast.Raise):
            for q in ast.walk(n):
                if q is not n: skip.add(id(q))
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and ('logger' in ast.dump(n.value.func) or 'print' in ast.dump(n.value.func)):
            for q in ast.walk(n): skip.add(id(q))
        if isinstance(n,(ast.Import,ast.ImportFrom)):
            for q in ast.walk(n): skip.add(id(q))
        if isinstance(n,ast.Assert) and n.msg is not None:
            for q in ast.walk(n.msg): skip.add(id(q))
        if isinstance(n,ast.If) and '__main__' in ast.dump(n.test):
            for q in ast.walk(n): skip.add(id(q))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n,ast.BinOp) and type(n.op) in SWAP:
            add(n,f'({seg(n.left)}) {SWAP[type(n.op)]} ({seg(n.right)})','binop')
        elif isinstance(n,ast.Compare) and len(n.ops)==1 and type(n.ops[0]) in CMP:
            add(n,f'({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})','cmp')
        elif isinstance(n,ast.Constant):
            if isinstance(n.value,bool): add(n,str(not n.value),'bool')
            elif isinstance(n.value,int): add(n,str(n.value+1),'int')
            elif isinstance(n.value,float): add(n,repr(n.value*1.1 if n.value else 0.1),'float')
            elif n.value is None: pass
        elif isinstance(n,ast.UnaryOp):
            add(n,f'({seg(n.operand)})','unary')
        elif isinstance(n,ast.BoolOp):
            o=' or ' if isinstance(n.op,ast.And) else ' and '
            add(n,'('+o.join('('+seg(v)+')' for v in n.values)+')','boolop')
        elif isinstance(n,(ast.If,ast.IfExp)):
            add(n.test,f'(not ({seg(n.test)}))','cond')
        elif isinstance(n,ast.Expr) and isinstance(n.value,ast.Call): add(n,'pass','delcall')
        elif isinstance(n,(ast.AugAssign,ast.Raise,ast.Assert,ast.Delete)): add(n,'pass','del'+type(n).__name__)
        elif isinstance(n,ast.Assign) and isinstance(n.targets[0],(ast.Attribute,ast.Subscript)): add(n,'pass','delassign')
        elif isinstance(n,ast.Call):
            f=n.func
            if isinstance(f,ast.Attribute) and f.attr in('copy','deepcopy') and not n.args: add(n,seg(f.value),'nocopy')
            elif isinstance(f,ast.Attribute) and f.attr in('copy','deepcopy') and n.args: add(n,seg(n.args[0]),'nocopy')
            elif isinstance(f,ast.Attribute) and f.attr in ('array','asarray','abs','sort','sorted','ravel') and len(n.args)==1 and not n.keywords: add(n,'('+seg(n.args[0])+')','noarr')
            elif isinstance(f,ast.Name) and f.id in ('list','tuple','dict','set','sorted','abs','reversed','int','float') and len(n.args)==1 and not n.keywords: add(n,'('+seg(n.args[0])+')','nocast')
            for k in n.keywords:
                if k.arg and len(n.args)+len(n.keywords)>1:
                    rest=[seg(a) for a in n.args]+[(q.arg+'=' if q.arg else '**')+seg(q.value) for q in n.keywords if q is not k]
                    add(n,f'{seg(f)}({", ".join(rest)})','delkw')
            if len(n.args)>=2 and not any(isinstance(a,ast.Starred) for a in n.args):
                rest=[seg(n.args[1]),seg(n.args[0])]+[seg(a) for a in n.args[2:]]+[(q.arg+'=' if q.arg else '**')+seg(q.value) for q in n.keywords]
                add(n,f'{seg(f)}({", ".join(rest)})','swap')
        elif isinstance(n,ast.Slice):
            if n.lower is not None or n.upper is not None:
                pass
        elif isinstance(n,ast.Return) and n.value is not None and isinstance(n.value,ast.Name): pass
    return res
random.seed(int(os.environ.get('MSEED','3')))
log=open(out,'a',buffering=1)
for spec in sys.argv[3:]:
    parts=spec.split(':'); f=parts[0]; checks=parts[1].split(','); cap=int(parts[2]) if len(parts)>2 else 10**9
    path=f'{TREE}/{f}'; src=open(path).read(); b=src.encode()
    ss=sites(src)
    if len(ss)>cap: ss=sorted(random.sample(ss,cap))
    log.write(f'## {f} {len(ss)} mutants {checks}\n'); killed=0
    done=set()
    for ln,op,a,z,new in sorted(ss):
        m=b[:a]+new.encode()+b[z:]
        if m in done: continue
        done.add(m)
        try: compile(m,path,'exec')
        except SyntaxError: continue
        open(path,'wb').write(m)
        verdict='SURVIVED'; how=[]
        for c in checks:
            t=time.time(); rc,o=check(c)
            if rc!=0:
                verdict='killed'; how.append(f'{c}:{rc if rc=="timeout" or f"VIOLATION property={c}" in o else "norun"}'); break
        if verdict=='killed' and 'norun' not in how[0]: killed+=1
        else:
            old=b[a:z].decode().replace('\n',' ')[:70]
            log.write(f'{verdict} {how} {f}:{ln} {op} | {old} -> {new[:70]!r}\n')
    open(path,'w').write(src)
    log.write(f'## {f} killed {killed} of {len(ss)}\n')
