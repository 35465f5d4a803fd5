import re,subprocess,random,json,os
random.seed(7)
R='/tmp/mut/src'
files=subprocess.run("git ls-files | grep -E '\\.rs$' | grep -v -E 'tests/|examples/'",shell=True,cwd='/repo',capture_output=True,text=True).stdout.split()
ops=[
 (r' == ',' != ','eq'),(r' != ',' == ','ne'),(r' < ',' <= ','lt'),(r' <= ',' < ','le'),(r' > ',' >= ','gt'),(r' >= ',' > ','ge'),
 (r' && ',' || ','and'),(r' \|\| ',' && ','or'),(r'\btrue\b','false','true'),(r'\bfalse\b','true','false'),
 (r'\.is_some\(\)','.is_none()','issome'),(r'\.is_none\(\)','.is_some()','isnone'),(r'if !','if ','not'),(r'\bif (?!let|!)','if !','neg'),
 (r' \+ ',' - ','plus'),(r' - ',' + ','minus'),(r'\+ 1\b','+ 2','plus1'),(r' \+= 1',' += 2','inc'),(r'\b0\b','1','zero'),(r'\b1\b','0','one'),
 (r'\.rev\(\)','','rev'),(r'\bcontinue\b','break','cont'),(r'\bbreak\b','continue','brk'),(r'\.\.=','..','incl'),
 (r'\.is_empty\(\)','.is_empty() == false','empty'),(r'\.min\(','.max(','min'),(r'\.max\(','.min(','max'),
 (r'\bSome\((\w+)\)(?! =>| =)','None','some'),(r'\.all\(','.any(','all'),(r'\.any\(','.all(','any'),
 (r'\.filter\(\|[^|]*\| [^)]*\)','','filter'),(r'\.as_ref\(\)\.or\(',".or(",'or2'),(r'\.unwrap_or\(true\)','.unwrap_or(false)','uo'),
 (r'\.first\(\)','.last()','first'),(r'\.last\(\)','.first()','last'),(r'\.push\(','.insert(0, ','push'),
]
out=[]
for f in files:
    t=open('/repo/'+f).read().split('\n')
    intest=False
    for i,l in enumerate(t):
        s=l.strip()
        if s.startswith('#[cfg(test)]'): intest=True
        if intest or s.startswith(('//','#[','use ','pub use','mod ','pub mod','const ','static ')) or not s: continue
        for rx,new,name in ops:
            for m in re.finditer(rx,l):
                # outside strings, roughly
                if l[:m.start()].count('"')%2: continue
                n=l[:m.start()]+re.sub(rx,new,m.group(0))+l[m.end():]
                if n!=l: out.append((f,i,l,n,name))
        # deletion of a call statement
        if s.endswith(';') and re.match(r'^(self\.|[a-z_]+\.|\*?[a-z_.]+ (\+|-|\|)?= )',s) and not s.startswith(('let','return')):
            out.append((f,i,l,'','del'))
        if re.match(r'^return .*;$',s): out.append((f,i,l,'','delret'))
        m=re.match(r'^(\s*)(.+)\?;$',l)
        if m and not s.startswith(('let','return')): out.append((f,i,l,'','delq'))
byf={}
for m in out: byf.setdefault(m[0],[]).append(m)
sel=[]
for f,ms in byf.items():
    random.shuffle(ms)
    n=len(ms)
    cap=max(4,min(n,int(n*0.35)))
    sel+=ms[:cap]
random.shuffle(sel)
json.dump(sel,open('/tmp/mut/list.json','w'))
print(len(out),len(sel))
for f,ms in sorted(byf.items(),key=lambda x:-len(x[1]))[:40]: print(len(ms),f)
