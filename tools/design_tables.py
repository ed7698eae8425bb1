#!/usr/bin/env python3
# rewrites the generated tables of DESIGN.md (between the markers) from known_findings.txt and seeded/*/meta.json
import re,json,glob,os,collections
os.chdir('/verif'); d=open('DESIGN.md').read()
n=collections.OrderedDict()
for l in open('known_findings.txt'):
    m=re.match(r'fixed: property=(P\d+) (\w+) (.*)',l)
    if m: n.setdefault(m[1],[]).append(m[3].strip())
t='| property | repairs | among them |\n|---|---|---|\n'+''.join(f"| {p} | {len(v)} | {'; '.join(x[:110] for x in v[-2:])} |\n" for p,v in sorted(n.items()))+f"\nIn total {sum(map(len,n.values()))}.\n"
s='| planted bug | property (its quick check reports it) | needs |\n|---|---|---|\n'
for f in sorted(glob.glob('seeded/*/meta.json')):
    j=json.load(open(f)); s+=f"| {f.split('/')[1]} | {j['property']} | {j['needs']} |\n"
def put(d,tag,text):
    b,e=f'<!-- {tag} -->',f'<!-- /{tag} -->'
    if f'@@{tag}@@' in d: return d.replace(f'@@{tag}@@',b+'\n'+text+e)
    return re.sub(re.escape(b)+r'.*?'+re.escape(e),lambda m:b+'\n'+text+e,d,flags=re.S)
d=put(d,'FIXES',t); d=put(d,'SEEDS',s); open('DESIGN.md','w').write(d)
