# mkseed(id, property, [(file, old, new, nth)], needs, breaks, demo_body, v2=None)
import os, subprocess, json, difflib, stat
R='/repo'; S='/verif/seeded'
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
B=$PWD/_build/main/src/mfast
%(gen)sg++ -std=c++14 -g -I"$PWD/src" %(inc)s"$here/demo.cpp" -o "$t/demo" %(libs)s || exit 3
cd "$t" && timeout 120 ./demo
'''
def mkseed(id, prop, edits, needs, breaks, demo, xml=None, libs=None, sync=True):
    d=os.path.join(S,id); os.makedirs(d,exist_ok=True)
    diff=''
    by={}
    for f,o,n,*nth in edits:
        s=by.get(f) or open(os.path.join(R,f),encoding='utf-8').read()
        k = nth[0] if nth else 0
        c=s.count(o)
        assert c>=1 and (nth or c==1), (id,f,c)
        at=-1
        for _ in range(k+1): at=s.index(o,at+1)
        by[f]=s[:at]+n+s[at+len(o):]
    for f,s in by.items():
        a=open(os.path.join(R,f),encoding='utf-8').read()
        diff+=''.join(difflib.unified_diff(a.splitlines(1),s.splitlines(1),'a/'+f,'b/'+f))
    open(d+'/patch.diff','w',encoding='utf-8').write(diff)
    l=libs or ['xml_parser/libmfast_xml_parser.a','coder/libmfast_coder.a','libmfast.a']
    gen=inc=''
    if xml is not None:
        open(d+'/t.xml','w').write(xml)
        gen='(cp "$here/t.xml" "$t" && cd "$t" && "$B/../fast_type_gen/fast_type_gen" t.xml) || exit 3\n'
        inc='-I"$t" '
    ll=' '.join('"$B/%s"'%x for x in l)+' -ltinyxml2'
    if any('sqlite' in x for x in l): ll+=' -lsqlite3'
    open(d+'/demo.sh','w').write(DEMO_SH%dict(gen=gen,inc=inc,libs=ll))
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    r=subprocess.run(['git','apply','--check',d+'/patch.diff'],cwd=R,capture_output=True,text=True)
    print(id, r.returncode, r.stderr)
