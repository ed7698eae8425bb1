#!/usr/bin/env python3
# Development-time: writes src/spvh_names.inc, the list of enumerators of Spv.h/Glsl.h/OpenCl.h whose numbers P04
# checks. The numbers come from the Khronos grammar; only the names are looked up in the repository.
import re,json
R='/repo/lib/include/spvgentwo/'
def enums(f):
    t=open(R+f).read().replace('\r',''); r={}
    for m in re.finditer(r'enum class (\w+) : unsigned\n\t\{(.*?)\};',t,re.S): r[m.group(1)]=re.findall(r'(\w+) = ',m.group(2))
    return r
E=enums('Spv.h'); core=json.load(open('/verif/spec/spirv.core.grammar.json'))
num=lambda v:int(v,16) if isinstance(v,str) else v
out=[]
for k in core['operand_kinds']:
    if k['category'] not in('BitEnum','ValueEnum') or k['kind']=='NamedMaximumNumberOfRegisters': continue
    bit=k['category']=='BitEnum'; en=k['kind']+('Mask' if bit else ''); d=E[en]; sh=E.get(k['kind']+'Shift',[])
    for e in k['enumerants']:
        n=e['enumerant']; v=num(e['value'])&0xffffffff
        if n=='None' and bit: n='MaskNone'
        if n not in d and 'Dim'+n in d: n='Dim'+n
        if n in d: out.append('E(%s, %s, 0x%xu)'%(en,n,v))
        if bit and v and n in sh: out.append('E(%sShift, %s, %du)'%(k['kind'],n,v.bit_length()-1))
for i in core['instructions']:
    if i['opname'] in E['Op']: out.append('E(Op, %s, %du)'%(i['opname'],i['opcode']))
for f,ns,j in (('Glsl.h','G','extinst.glsl.std.450'),('OpenCl.h','O','extinst.opencl.std.100')):
    d=enums(f)['Op']
    for i in json.load(open('/verif/spec/%s.grammar.json'%j))['instructions']:
        if i['opname'] in d: out.append('%s(%s, %du)'%(ns,i['opname'],i['opcode']))
        else: print('missing',f,i['opname'])
for x in E['Extension']:
    if x!='Max': out.append('X(%s)'%x)
t=open(R+'Grammar.h').read().replace('\r',''); ks=re.search(r'enum class OperandKind.*?\{(.*?)\}',t,re.S).group(1)
names=re.findall(r'(\w+)=\d+u',ks); sk=[k['kind'] for k in core['operand_kinds']]
for n in names: assert n in sk; out.append('KD(%s)'%n)
open('/verif/src/spvh_names.inc','w').write('// generated by tools/gen_spvh.py\n'+'\n'.join(out)+'\n')
print(len(out))
