"""writes /tmp/w/mlist.json: list of (id,file,line,old,new)"""
import re,json,random
out=[]
def strip(l): return re.sub(r'//.*','',l)
for f in ['h_malloc.c','random.c','pages.c','util.c','memory.c','chacha.c','new.cc','util.h','mutex.h']:
    L=open('/repo/'+f).read().split('\n')
    cond=[]
    for i,l in enumerate(L):
        s=l.strip()
        if s.startswith('#if'): cond.append(s); continue
        if s.startswith('#endif'): cond.pop(); continue
        if s.startswith('#else') or s.startswith('#elif'):
            cond[-1]='!'+cond[-1]; continue
        if s.startswith('#'): continue
        c=' '.join(cond)
        if any(x in c for x in ('__ANDROID__','LABEL_MEMORY','__aarch64__','HAS_ARM_MTE','LP64')) and not '!#ifdef' in c and not '!#if defined' in c: continue
        if s.startswith('//') or s.startswith('*') or not s: continue
        code=strip(l)
        if 'static_assert' in code: continue
        def add(new,k):
            if new!=l: out.append((f,i,k,l,new))
        # statement deletion
        if re.match(r'^\s+[^#].*;\s*$',code) and not re.match(r'^\s*(return|break|continue|static|extern|const|typedef|goto|struct|union)\b',code) and not re.match(r'^\s*(unsigned|size_t|u\d+|bool|int|void|char|uintptr_t|uint\d+_t|atomic\w*|_Atomic)\b[^=;(]*;',code) and code.count('(')==code.count(')'):
            m=re.match(r'^(\s*)((?:const\s+)?(?:struct\s+)?\w+\s+\**\w+)\s*=\s*(.*);\s*$',code)
            if not m: add(re.sub(r'\S.*',';',l,1),'del')
        # negate if
        m=re.match(r'^(\s*(?:\} else )?if \()(.*)(\) \{\s*)$',code)
        if m:
            add(m[1]+'!('+m[2]+')'+m[3],'neg'); 
            if '&&' in m[2] or '||' in m[2]:
                for mm in re.finditer(r'&&|\|\|',code):
                    add(code[:mm.start()]+('||' if mm[0]=='&&' else '&&')+code[mm.end():],'logic')
            add(m[1]+'0 && ('+m[2]+')'+m[3],'never')
        for mm in re.finditer(r'(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])',code):
            if '#' in code or 'template' in code: break
            if mm[0] in '<>' and not (code[mm.start()-1]==' ' and code[mm.end():mm.end()+1]==' '): continue
            r={'<':'<=','<=':'<','>':'>=','>=':'>','==':'!=','!=':'=='}[mm[0]]
            add(code[:mm.start()]+r+code[mm.end():],'rel')
        for mm in re.finditer(r' (\+|-|\*|/|%|<<|>>|&|\|) ',code):
            r={'+':'-','-':'+','*':'+','/':'*','%':'/','<<':'>>','>>':'<<','&':'|','|':'&'}[mm[1]]
            add(code[:mm.start(1)]+r+code[mm.end(1):],'arith')
        for mm in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code):
            v=int(mm[1]); add(code[:mm.start()]+str(v+1)+code[mm.end():],'const')
        for mm in re.finditer(r'\b(true|false)\b',code):
            add(code[:mm.start()]+('false' if mm[0]=='true' else 'true')+code[mm.end():],'bool')
        m=re.match(r'^(\s*return )(\w.*)(;\s*)$',code)
        if m and m[2] not in('true','false','NULL'): 
            add(m[1]+'0'+m[3],'ret0')
        # drop additive term
        for mm in re.finditer(r' [+-] [\w.>\-\[\]]+(?=[;,)\s])',code):
            add(code[:mm.start()]+code[mm.end():],'term')
random.seed(7)
random.shuffle(out)
json.dump([(n,)+x for n,x in enumerate(out)],open('/tmp/w/mlist.json','w'))
from collections import Counter
print(len(out),Counter(x[0] for x in out),Counter(x[2] for x in out))
