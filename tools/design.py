import json,glob,os,re,subprocess
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); o=[open(H+"/tools/design_head.md").read()]
rows=[]
def P(*a): rows.append(a)
exec(open(H+"/tools/table.py").read())
fixed=[l.rstrip("\n").split("|") for l in open(H+"/tools/fixed.txt") if l.strip()]
seeds={}
for d in sorted(glob.glob(H+"/seeded/*/meta.json")):
    m=json.load(open(d)); seeds.setdefault(m["property"],[]).append((os.path.basename(os.path.dirname(d)),m))
try: det=dict(l.split()[:2] for l in open(H+"/tools/detected.txt") if l.strip())
except Exception: det={}
notes={}
if os.path.exists(H+"/tools/notes.md"):
    for b in re.split(r"^## ",open(H+"/tools/notes.md").read(),flags=re.M)[1:]:
        k,v=b.split("\n",1); notes[k.strip()]=v.strip()
try: cost=dict(l.split()[:2] for l in open(H+"/tools/cost.txt") if l.strip())
except Exception: cost={}
o.append("\n## 2. Properties\n\nEach check is `python3 run.py --property <id> [--tier thorough]`. Oracle: unless said otherwise the assertion compares the\nresult of the real code with an independent statement of the meaning written in the harness (a definition, an identity or a\nrecount over the inputs), never with another run of the same code. *Entries* lists the symbolic harness entries with the names of the assertions they discharge.\n")
for r in rows:
    i,title,st=r[0],r[1],r[2]; o.append("### %s %s\n\n%s\n"%(i,title,st))
    hs=[h for h in sorted(glob.glob(H+"/harness/P*.cpp")) if re.search(r"// @property "+i+r"\b",open(h).read())]
    for h in hs:
        t=open(h).read()
        for k,n in (("bounds","Bounds"),("assume","Assumptions")):
            for m in re.findall(r"^// @%s (.*)$"%k,t,re.M): o.append("*%s:* %s.\n"%(n,m.strip()))
        es=[]
        for m in re.finditer(r"^// @entry (\S+)(.*)$",t,re.M):
            b=re.search(r"ENTRY\s+"+m.group(1)+r"\s*\((.*?)(?=\nENTRY|\Z)",t,re.S)
            ids=[]
            if b:
                for c in re.findall(r'"([a-z0-9]+(?:-[a-z0-9]+)+)"',b.group(1)):
                    if c not in ids: ids.append(c)
            es.append("`%s`%s%s"%(m.group(1)," (thorough)" if " thorough" in m.group(2) else "",(": "+", ".join(ids)) if ids else ""))
        o.append("*Harness:* `%s`. *Entries:* %s.\n"%(os.path.relpath(h,H),"; ".join(es)))
    if i in cost: o.append("*Cost:* quick run about %s s wall on 8 cores.\n"%cost[i])
    if i in notes: o.append(notes[i]+"\n")
    s=seeds.get(i,[])
    if s: o.append("*Planted bugs:* "+"; ".join("%s (%s) — %s"%(n,m["what_it_breaks"].rstrip("."),"caught by `%s`"%det[n] if det.get(n,"-")!="-" else "not caught") for n,m in s)+".\n")
o.append("\n## 3. Findings\n\n### Repaired defects\n\nEach was first shown by a counterexample of a check (or by reading while writing it), replayed against the real code, and repaired with one `fix:` commit; `KNOWN_FINDINGS.txt` lists the commits. The check reports the violation again when a fix is reverted.\n\n| property | what failed |\n|---|---|\n")
o[-1]+="".join("| %s | %s |\n"%(f[0],f[2]) for f in fixed)
o.append(open(H+"/tools/design_tail.md").read() if os.path.exists(H+"/tools/design_tail.md") else "")
open(H+"/DESIGN.md","w").write("\n".join(o))
