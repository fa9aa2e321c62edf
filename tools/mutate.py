# Random one-line mutants of /repo that build and pass its tests; prints those no
# check reports.  usage: SEED=1 SA=checker mutate.py N [path substring]
import os,re,sys,subprocess,random,tempfile,shutil,json
from concurrent.futures import ThreadPoolExecutor
SA=os.environ.get('SA','/tmp/sa')
random.seed(int(os.environ.get('SEED','1')))
CMP="C02 C01 C07 C06 C08 C05 C04 C03 C09 C28 C25 C26 C14 C30".split()
LINT="C17 C16 C18 C19 C20 C25 C26 C14".split()
CMD="C10 C11 C12 C13 C15 C21 C22 C24 C27 C14 C25 C26 C31 C32 C30".split()
files={"pkg/compare/compare.go":CMP+["C24"],"pkg/linter/rules.go":LINT,"pkg/linter/lint_error.go":["C20"]+CMD,"cmd/linter/linter.go":CMD,"cmd/linter/inline_lint_config.go":CMD,"cmd/linter/lint_cmd.go":CMD,"utils/util.go":CMD+["C01"],"cmd/compare/compare_cmd.go":CMD,"cmd/root.go":CMD}
RE=[(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),(r'<(?![-=])','<='),(r'(?<![-=])>(?![=])','>='),(r'<=','<'),(r'>=','>'),
 (r'\bBreaking\b','Dangerous'),(r'\bDangerous\b','NonBreaking'),(r'\bNonBreaking\b','Breaking'),(r'\bold(\w*)\b',r'new\1'),(r'\bnew([A-Z]\w*)\b',r'old\1'),
 (r'\bot\b','nt'),(r'\bnt\b','ot'),(r'\bof\b','nf'),(r'\bnf\b','of'),(r'\boa\b','na'),(r'\bna\b','oa'),(r'\bov\b','nv'),(r'\bnv\b','ov'),(r'\bod\b','nd'),(r'\bnd\b','od'),(r'\boi\b','ni'),(r'\bni\b','oi'),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bcontinue\b','break'),(r'\bbreak\b','continue'),(r'\+ ?1\b','+ 2'),(r'\b0\b','1'),(r'\b1\b','0'),(r'!(?=[a-zA-Z(])',''),
 (r'\.Name\b','.Description'),(r'\.Position\b','.Type.Position'),(r'Definitions\b','Extensions'),(r'Extensions\b','Definitions'),(r'"([a-z@]\w+)"',r'"\1x"'),(r'Added\b','Removed'),(r'Removed\b','Added')]
def mutants(path):
    src=open('/repo/'+path).read(); lines=src.split('\n'); out=[]
    inimp=False
    for i,l in enumerate(lines):
        t=l.strip()
        if t.startswith('//') or not t or t.startswith('import') or t.startswith('"') or t.startswith('package'): continue
        code=l.split('//')[0] if '"' not in l else l
        for pat,rep in RE:
            for m in re.finditer(pat,code):
                n=code[:m.start()]+m.expand(rep)+code[m.end():]
                out.append((path,i,l,n))
        # statement deletion
        if re.match(r'^\s+[\w.\[\], ]+\s*(=|\+=|\|=|:=)\s*[^{]*$',l) or re.match(r'^\s+\w[\w.]*\(.*\)$',l) or t in('continue','break') or re.match(r'^\s+\w+:\s.*,$',l):
            out.append((path,i,l,''))
        if re.match(r'^\s+if .*\{$',l) and ':=' not in l:
            out.append((path,i,l,re.sub(r'if (.*) \{$',r'if true || (\1) {',l)))
            out.append((path,i,l,re.sub(r'if (.*) \{$',r'if false && (\1) {',l)))
    return out
env=dict(os.environ,GOPROXY='off',CGO_ENABLED='0')
def one(m):
    path,i,o,n=m
    d=tempfile.mkdtemp(prefix='ms',dir='/tmp')
    try:
        shutil.copytree('/repo',d+'/repo',symlinks=True,ignore=shutil.ignore_patterns('.git'))
        L=open(d+'/repo/'+path).read().split('\n'); L[i]=n
        open(d+'/repo/'+path,'w').write('\n'.join(L))
        e=dict(env,GOMAXPROCS='2')
        b=subprocess.run('. /opt/vp/env.sh; go build ./... && go test ./... ',shell=True,cwd=d+'/repo',env=e,capture_output=True,text=True,timeout=300)
        if b.returncode: return m,'x'
        for c in files[path]:
            try:
                p=subprocess.run([SA,'check',c,'quick'],cwd='/verif',env=dict(e,GOFLAGS='-mod=mod',SA_ROOT=d,SA_REPO=d+'/repo'),capture_output=True,text=True,timeout=600)
            except subprocess.TimeoutExpired: return m,'TIMEOUT '+c
            if p.returncode==1: return m,c
            if p.returncode: return m,'rc%d %s'%(p.returncode,c)
        return m,'SURVIVED'
    finally: shutil.rmtree(d)
ms=[]
for f in files:
    if len(sys.argv)<3 or any(x in f for x in sys.argv[2].split(',')): ms+=mutants(f)
random.shuffle(ms)
ms=ms[:int(sys.argv[1])]
print(len(ms),flush=True)
cnt={}
with ThreadPoolExecutor(6) as ex:
    for m,r in ex.map(one,ms):
        cnt[r]=cnt.get(r,0)+1
        if r=='SURVIVED' or r.startswith('TIME') or r.startswith('rc'):
            print(r,m[0],m[1]+1,'\n   -',m[2].strip(),'\n   +',m[3].strip(),flush=True)
print(cnt)
