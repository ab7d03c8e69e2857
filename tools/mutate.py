"""Look for changes of single expressions and statements that no recorded execution notices.

  tools/mutate.py pool DIR            a sample of the cases of every check (quick tier, seed 1), with what /repo does on them
  tools/mutate.py run DIR N [JOBS]    N random mutants: the tests, then the sample; appends to DIR/results.ndjson
  tools/mutate.py show DIR            how many ended how, and those that survived

A mutant is killed if the tests fail or if what is recorded on the sample differs from what /repo does.  It is the sample
that is judged here, not the specification: a difference may be allowed by the property whose check made the case, and a
survivor may be equivalent.  Everything is kept in DIR, outside /verif and /repo.
"""
import ast
import collections
import json
import os
import queue
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
FILES = ['_namedict.py', '_parser.py', '_selectors.py', '_textwrap.py', 'cli.py', 'rendering.py']
PER_CHECK = 40


def mutants(src):
    """(description, new source)"""
    tree=ast.parse(src)
    lines=src.split('\n')
    nodes=[n for n in ast.walk(tree)]
    par={}
    for n in nodes:
        for c in ast.iter_child_nodes(n): par[c]=n
    def func(n):
        names=[]
        while n in par:
            n=par[n]
            if isinstance(n,(ast.FunctionDef,ast.ClassDef)): names.append(n.name)
        return '.'.join(reversed(names))
    out=[]
    def emit(n,desc,apply):
        # apply: mutates in place, returns undo
        undo=apply()
        try:
            s=ast.unparse(ast.fix_missing_locations(tree))
            compile(s,'x','exec')
            out.append(dict(line=n.lineno,func=func(n),desc=desc,text=lines[n.lineno-1].strip(),src=s))
        except Exception as e: pass
        undo()
    def setf(o,f,v):
        def a():
            old=getattr(o,f); setattr(o,f,v)
            return lambda: setattr(o,f,old)
        return a
    def repl(n,new):
        p=par[n]
        for f,v in ast.iter_fields(p):
            if v is n: return setf(p,f,new)
            if isinstance(v,list) and any(x is n for x in v):
                i=[x is n for x in v].index(True)
                def a(v=v,i=i):
                    v[i]=new
                    def u(): v[i]=n
                    return u
                return a
    def isdoc(n):
        return isinstance(par.get(n),ast.Expr)
    CMP={ast.Lt:[ast.LtE,ast.GtE],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE,ast.LtE],ast.GtE:[ast.Gt],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is],ast.In:[ast.NotIn],ast.NotIn:[ast.In]}
    for n in nodes:
        if isinstance(n,ast.Compare):
            for k,o in enumerate(n.ops):
                for r in CMP.get(type(o),[]):
                    new=list(n.ops); new[k]=r()
                    emit(n,'%s->%s'%(type(o).__name__,r.__name__),setf(n,'ops',new))
        elif isinstance(n,ast.BoolOp):
            emit(n,'and/or',setf(n,'op',ast.Or() if isinstance(n.op,ast.And) else ast.And()))
            for k in range(len(n.values)):
                if len(n.values)>1:
                    v=n.values[:k]+n.values[k+1:]
                    emit(n,'drop operand %d'%k,setf(n,'values',v) if len(v)>1 else repl(n,v[0]))
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            emit(n,'drop not',repl(n,n.operand))
        elif isinstance(n,ast.BinOp):
            m={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Add,ast.FloorDiv:ast.Mult,ast.Mod:ast.FloorDiv}.get(type(n.op))
            if m: emit(n,'%s->%s'%(type(n.op).__name__,m.__name__),setf(n,'op',m()))
            emit(n,'left only',repl(n,n.left)); emit(n,'right only',repl(n,n.right))
        elif isinstance(n,ast.Constant) and not isdoc(n):
            if isinstance(n.value,bool): emit(n,'%s flipped'%n.value,setf(n,'value',not n.value))
            elif isinstance(n.value,int):
                emit(n,'%d+1'%n.value,setf(n,'value',n.value+1)); emit(n,'%d-1'%n.value,setf(n,'value',n.value-1))
            elif isinstance(n.value,str):
                emit(n,'%r changed'%n.value,setf(n,'value',(n.value[:-1] if len(n.value)>1 else n.value+'X')))
        elif isinstance(n,(ast.Assign,ast.AugAssign)) or (isinstance(n,ast.Expr) and isinstance(n.value,ast.Call)):
            emit(n,'statement dropped',repl(n,ast.Pass(lineno=n.lineno,col_offset=0)))
        elif isinstance(n,(ast.If,ast.IfExp)):
            emit(n,'if True',setf(n,'test',ast.Constant(True))); emit(n,'if False',setf(n,'test',ast.Constant(False)))
        elif isinstance(n,ast.Return) and n.value is not None:
            emit(n,'return None',setf(n,'value',ast.Constant(None)))
        elif isinstance(n,ast.Break):
            emit(n,'break->continue',repl(n,ast.Continue()))
        elif isinstance(n,ast.Continue):
            emit(n,'continue->break',repl(n,ast.Break()))
        elif isinstance(n,ast.Attribute) and isinstance(n.ctx,ast.Load):
            m={'lstrip':['rstrip','strip'],'rstrip':['lstrip','strip'],'strip':['lstrip','rstrip'],'startswith':['endswith'],'endswith':['startswith'],'append':[],'extend':[],'ljust':['rjust'],'rjust':['ljust'],'isspace':['strip'],'upper':['lower','capitalize','title'],'split':['rsplit'],'index':['rindex'],'find':['rfind']}.get(n.attr,[])
            for x in m: emit(n,'%s->%s'%(n.attr,x),setf(n,'attr',x))
        elif isinstance(n,ast.Call):
            if isinstance(n.func,ast.Name) and n.func.id in('min','max'):
                emit(n,'min/max',setf(n.func,'id','min' if n.func.id=='max' else 'max'))
            if isinstance(n.func,ast.Name) and n.func.id in('any','all'):
                emit(n,'any/all',setf(n.func,'id','any' if n.func.id=='all' else 'all'))
            for k in range(len(n.args)):
                if len(n.args)>1: emit(n,'argument %d dropped'%k,setf(n,'args',n.args[:k]+n.args[k+1:]))
            for k in range(len(n.keywords)):
                emit(n,'keyword %s dropped'%n.keywords[k].arg,setf(n,'keywords',n.keywords[:k]+n.keywords[k+1:]))
            if isinstance(n.func,ast.Attribute) and n.func.attr in('strip','lstrip','rstrip','lower','upper') and not n.args:
                emit(n,'.%s() dropped'%n.func.attr,repl(n,n.func.value))
        elif isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice):
            if n.slice.lower is not None: emit(n,'slice lower dropped',setf(n.slice,'lower',None))
            if n.slice.upper is not None: emit(n,'slice upper dropped',setf(n.slice,'upper',None))
        elif isinstance(n,(ast.List,ast.Tuple)) and isinstance(n.ctx,ast.Load) and len(n.elts)>1:
            for k in range(len(n.elts)):
                emit(n,'element %d dropped'%k,setf(n,'elts',n.elts[:k]+n.elts[k+1:]))
        elif isinstance(n,ast.Dict) and len(n.keys)>=1:
            for k in range(len(n.keys)):
                def a(n=n,k=k):
                    ok,ov=n.keys,n.values
                    n.keys=ok[:k]+ok[k+1:]; n.values=ov[:k]+ov[k+1:]
                    def u(): n.keys,n.values=ok,ov
                    return u
                emit(n,'dict item %d dropped'%k,a)
    return out


def all_mutants():
    found = []
    for f in FILES:
        src = open(os.path.join(REPO, 'gopher_render', f)).read()
        seen = {ast.unparse(ast.parse(src))}
        for m in mutants(src):
            if m['src'] not in seen:
                seen.add(m['src'])
                m['file'] = f
                m['id'] = len(found)
                found.append(m)
    return found


def record(tree, cases, out, scratch, procs='2'):
    env = dict(os.environ, GR_REPO=tree, GR_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               GR_PROCS=procs)
    env.pop('PYTHONPATH', None)
    r = subprocess.run([PYTHON, '-W', 'ignore', os.path.join(VERIF, 'harness', 'impl.py'), cases, out], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode


def load(path):
    out = []
    for line in open(path):
        c = json.loads(line)
        ops = [{k: v for k, v in o.items() if k != 'err'} for o in c['ops']]
        out.append((c.get('pid'), json.dumps(ops, sort_keys=True)))
    return out


def pool(root):
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    sys.dont_write_bytecode = True
    import checks
    import framework
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, 'cases.ndjson'), 'w') as f:
        for pid in sorted(checks.CHECKS):
            ck = framework.Check(pid, 'quick', '1')
            cases = []

            def take(*a, **k):
                cases.extend(ck.cases)
                ck.cases = []
            ck.validate = take
            ck.check_traces = lambda *a, **k: None
            checks.CHECKS[pid](ck)
            take()
            ck.cleanup()
            random.Random(pid).shuffle(cases)
            for c in cases[:PER_CHECK]:
                c['pid'] = pid
                f.write(json.dumps(c) + '\n')
            print(pid, len(cases), flush=True)
    record(REPO, os.path.join(root, 'cases.ndjson'), os.path.join(root, 'base.ndjson'), root, '8')


def run(root, number, jobs):
    results = os.path.join(root, 'results.ndjson')
    done = {json.loads(l)['id'] for l in open(results)} if os.path.exists(results) else set()
    todo = all_mutants()
    random.Random(7).shuffle(todo)
    todo = [m for m in todo if m['id'] not in done][:number]
    stable = len(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    base = load(os.path.join(root, 'base.ndjson'))
    trees = queue.Queue()
    for k in range(jobs):
        d = os.path.join(root, 'tree%d' % k)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        trees.put(d)

    def one(m):
        tree = trees.get()
        path = os.path.join(tree, 'gopher_render', m['file'])
        orig = open(os.path.join(REPO, 'gopher_render', m['file'])).read()
        try:
            with open(path, 'w') as f:
                f.write(m['src'])
            env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1')
            try:
                r = subprocess.run([PYTHON, '-B', '/opt/vp/run_pytest.py', '-q', '--assert=plain', '-p',
                                    'no:cacheprovider', '-x', '-rA', '--tb=no', 'tests'], cwd=tree, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
                if sum(l.startswith('PASSED') for l in r.stdout.split('\n')) < stable:
                    return m, 'tests', None
                out = tree + '.out'
                if record(tree, os.path.join(root, 'cases.ndjson'), out, root):
                    return m, 'crash', None
            except subprocess.TimeoutExpired:
                return m, 'hang', None
            diff = collections.Counter(p for (p, x), (_, y) in zip(load(out), base) if x != y)
            return m, 'killed' if diff else 'SURVIVED', dict(diff)
        finally:
            with open(path, 'w') as f:
                f.write(orig)
            trees.put(tree)
    with ThreadPoolExecutor(jobs) as ex, open(results, 'a') as f:
        for m, res, diff in ex.map(one, todo):
            f.write(json.dumps({k: v for k, v in m.items() if k != 'src'} | {'res': res, 'diff': diff}) + '\n')
            f.flush()


def show(root):
    rows = [json.loads(l) for l in open(os.path.join(root, 'results.ndjson'))]
    print(collections.Counter(r['res'] for r in rows))
    for r in sorted(rows, key=lambda r: (r['file'], r['line'])):
        if r['res'] == 'SURVIVED':
            print(r['id'], r['file'], r['line'], r['func'], '|', r['desc'], '|', r['text'])


if __name__ == '__main__':
    what, root = sys.argv[1:3]
    if what == 'pool':
        pool(root)
    elif what == 'run':
        run(root, int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 4)
    else:
        show(root)
