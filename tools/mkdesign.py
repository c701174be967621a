#!/usr/bin/env python3
"""Writes the tables of DESIGN.md between its markers: bounds and harnesses from checks.py, planted bugs from seeded/, costs from costs.json."""
import json,os,sys,re,glob
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.path.insert(0,H)
import checks
props=[json.loads(l) for l in open(H+"/properties.jsonl")]
costs=json.load(open(H+"/tools/costs.json")) if os.path.exists(H+"/tools/costs.json") else {}
ORACLE={
"C01":"reference reading (refp.rs): accepted iff the last rule of the grammar reads to the end; the end error must stand where the rule stopped or a deeper failure must be reported",
"C02":"a description of each terminal written from the documentation: characters read, value, error kind and range",
"C03":"refp.rs, a parsing-expression interpreter over the public rule types: acceptance and meta data",
"C04":"refp.rs, lines as blank-line separated items",
"C05":"refp.rs, indentation levels as a stack of columns; settings checked after every parse",
"C06":"meta data put in before parsing must come back unchanged; second and third parse must append what the first gave",
"C07":"well-nestedness and ranges of the emitted list computed from scratch; values compared with the text of their range",
"C08":"refp.rs keeps the set of deepest failures; the error must be one of them, with its range inside the text and on characters",
"C09":"differential: the same text read as written, optimized, and optimized twice",
"C10":"reading with the rule for a first byte that is not the claimed one must fail, for every following byte",
"C11":"h_meta.rs Doc builder: writes a construct and, side by side, the rule its documentation says it is",
"C12":"no panic, no endless loop; an error or a syntax whose references are in range",
"C13":"ids recomputed from node number and order of writing; ids in errors must be those of the node's constructs",
"C14":"first definition wins: indices and strings resolved by the harness from the document it wrote",
"C15":"syntax() returns Ok, or Err with a range inside the text on characters, and the formatted error can be made",
"C16":"every path ends within 20 million instructions without reaching a panic, an out-of-bounds access or an overflow",
"C17":"a JSON string reader (RFC 8259) in h_json.rs",
"C18":"a JSON reader in h_json.rs that rebuilds the nesting; numbers are read back as the same double",
"C19":"line and column counted from the text; the printed lines compared with the text's own",
"C20":"a model of the cursor: a position in the list",
"C21":"a model: the first index that matches",
"C22":"a model: position, nesting depth and the sum of ranges",
"C23":"differential: bootstrap rules against the rules read from assets/self-syntax.txt",
"C24":"structural comparison over the public fields, written field by field",
"C25":"differential: each thread's result against the same call made afterwards by one thread; a happens-before race detector and deadlock detection in the engine",
"C26":"differential: parse over the same bytes; reads that fail or that give bytes that are no text must stop it; the report must be the formatted error",
}
seeds={}
for d in sorted(glob.glob(H+"/seeded/*/meta.json")):
    m=json.load(open(d)); seeds.setdefault(m["property"],[]).append((os.path.basename(os.path.dirname(d)),m["needs"]))
t="| property | oracle | bounds | quick (8 cores) | thorough |\n|---|---|---|---|---|\n"
for p in props:
    i=p["id"]
    if i not in checks.PROPS: continue
    P=checks.PROPS[i]; c=costs.get(i,{})
    t+="| %s %s | %s | %s *Outside:* %s | %s | %s |\n"%(i,p["title"],ORACLE[i],P["bounds"].replace("|","/"),P.get("outside",""),c.get("quick",""),c.get("thorough",""))
s="| property | planted bug | needs |\n|---|---|---|\n"
for i in sorted(seeds):
    for n,w in seeds[i]: s+="| %s | %s | %s |\n"%(i,n,w.replace("|","/"))
f=H+"/DESIGN.md"; x=open(f).read()
for name,v in (("PROPERTIES",t),("SEEDS",s)):
    x=re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)"%(name,name),lambda m:m.group(1)+v+m.group(2),x,flags=re.S)
open(f,"w").write(x)
