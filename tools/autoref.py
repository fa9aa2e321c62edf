"""Applies the mechanical rewrites of sa/autoref to scratch copies of /repo,
every rewrite on every file, runs the checks and prints the alarms.
usage: autoref.py [substring,... [C01,C02...]]   (SA: a built checker)"""
import subprocess,sys,os,shutil,tempfile
HERE=os.path.dirname(os.path.abspath(__file__))
TMP=tempfile.mkdtemp(prefix='autoref')
def build(out,pkg):
    subprocess.run(['bash','-c','. /opt/vp/env.sh; GOFLAGS=-mod=mod go build -o %s %s'%(out,pkg)],cwd=os.path.join(HERE,'..','sa'),check=True)
    return out
REF=build(TMP+'/ref','./autoref')
from concurrent.futures import ThreadPoolExecutor
T2='guard-len empty-lit make-cap sprintf-plus extract extract-if swap'.split()
T="range-index range-for range-while negate cond-var body-closure visit append-tmp append-loop field-assign switch if-chain flip split-and init-out args-tmp iife cond-func count rest-slice nest nest-else unnest named".split()
F=["pkg/compare/compare.go","pkg/linter/rules.go","cmd/linter/linter.go","cmd/linter/inline_lint_config.go","cmd/linter/lint_cmd.go","cmd/compare/compare_cmd.go","utils/util.go","pkg/linter/lint_error.go","cmd/root.go"]
CMP="C01 C02 C03 C04 C05 C06 C07 C08 C09 C28 C14 C25 C26 C30".split()
LINT="C16 C17 C18 C19 C20 C14 C25 C26 C30".split()
CMD="C10 C11 C12 C13 C15 C21 C22 C23 C24 C27 C31 C32 C30".split()
def checks(f):
    if 'lexer/' in f: return "C22 C23 C24 C25 C30 C32".split()
    if 'compare.go' in f: return CMP+["C10","C11","C32"]
    if 'rules.go' in f: return LINT+["C21","C32"]
    if 'inline' in f: return CMD+["C14","C25"]
    return CMD+["C20","C14","C25"]
SA=os.environ.get('SA') or build(TMP+'/sa','.')
LX=["cmd/linter/lexer/lexer.go","cmd/linter/lexer/blockstring.go"]
jobs=[(t,f) for f in F for t in T2]+[(t,f) for f in LX for t in T2+T]
if len(sys.argv)>1: jobs=[j for j in jobs if any(a in j[0]+' '+j[1] for a in sys.argv[1].split(','))]
env=dict(os.environ,GOPROXY='off',CGO_ENABLED='0',GOMAXPROCS='2')
def one(j):
    t,f=j
    d=TMP+'/%s-%s'%(t,f.replace('/','_'))
    shutil.rmtree(d,ignore_errors=True)
    try:
        shutil.copytree('/repo',d+'/repo',ignore=shutil.ignore_patterns('.git'))
        r=subprocess.run('. /opt/vp/env.sh; %s $PWD %s %s && go build ./...'%(REF,t,f),shell=True,cwd=d+'/repo',env=env,capture_output=True,text=True)
        if r.returncode: return j,None,r.stdout[-200:]
        out=[]
        for c in (sys.argv[2].split(',') if len(sys.argv)>2 else checks(f)):
            try:
                p=subprocess.run([SA,'check',c,'quick'],cwd=os.path.join(HERE,'..'),env=dict(env,GOFLAGS='-mod=mod',SA_ROOT=d,SA_REPO=d+'/repo'),capture_output=True,text=True,timeout=800)
                if p.returncode: out.append((c,p.returncode,(p.stdout+p.stderr)[:260].replace('\n',' | ')))
            except subprocess.TimeoutExpired: out.append((c,'timeout',''))
        return j,out,''
    finally: shutil.rmtree(d,ignore_errors=True)
n=0
with ThreadPoolExecutor(7) as ex:
    for j,o,e in ex.map(one,jobs):
        if o is None:
            if 'places' not in e or ' 0 places' not in e: print('NOBUILD',j,e[-150:],flush=True)
            continue
        n+=1
        for c in o: print('ALARM',j[0],j[1],*c,flush=True)
print('done',n)
shutil.rmtree(TMP,ignore_errors=True)
