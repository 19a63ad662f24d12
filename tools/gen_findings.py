#!/usr/bin/env python3
"""Writes known-findings.json: open findings (below) and the fixes found in /repo's history."""
import json,subprocess,re
V='/verif/'
OPEN=json.load(open(V+'tools/open_findings.json'))
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h%x00%s%x00%b%x01'],capture_output=True,text=True).stdout
PROP={"common overlays' backing array":"C02","expand a directory entry in place":"C16","overlay shared by concurrently":"C01","output files in listed order":"C20","document separator even if":"C14",
"injecting into a deleted document":"C06","injecting a comment no longer":"C12","sprig functions":"C17","YOT_* environment":"C19","clean input paths":"C15","single file in the root":"C15","keep sub directories below":"C16",
"--remove-comments also removes":"C13","onMissing does not inject for":"C08","output style singleQuote":"C14","negative indent":"C21","combine integers exactly":"C07","compare documentQuery values":"C03",
"injecting without a query":"C08","invalid log level":"C21","null list entries":"C21","symbolic link":"C16"}
PROP.update(json.load(open(V+'tools/fix_props.json')))
out=list(OPEN)
for rec in log.split('\x01'):
    rec=rec.strip('\n')
    if not rec: continue
    h,s,b=rec.split('\x00')
    if not s.startswith('fix:'): continue
    p=[v for k,v in PROP.items() if k in s]
    assert len(p)==1,(s,p)
    out.append({"id":"fix-"+h,"property":p[0],"fixed":h,"what":f"fixed: property={p[0]} {h} {s[5:]}"+(" - "+' '.join(b.split()) if b.strip() else "")})
json.dump({"findings":out},open(V+'known-findings.json','w'),indent=1,ensure_ascii=False)
open(V+'known-findings.json','a').write('\n')
