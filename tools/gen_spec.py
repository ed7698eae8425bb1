#!/usr/bin/env python3
# Turns the Khronos machine readable grammar (spec/*.json, independent of the repository) into C++ tables.
import json, sys
core=json.load(open(sys.argv[1]+'/spirv.core.grammar.json'))
glsl=json.load(open(sys.argv[1]+'/extinst.glsl.std.450.grammar.json'))
ocl=json.load(open(sys.argv[1]+'/extinst.opencl.std.100.grammar.json'))
out=open(sys.argv[2],'w')
kinds=[k['kind'] for k in core['operand_kinds']]
kid={k:i for i,k in enumerate(kinds)}
def s(x): return json.dumps(x)
def ver(v):
    if v in (None,'None'): return 0
    a,b=v.split('.'); return int(a)<<16|int(b)<<8
def strs(l): return '{'+','.join(s(x) for x in l)+'}'
def num(v): return int(v,16) if isinstance(v,str) else v
out.write('#include "spec.h"\nnamespace spec {\n')
out.write('const std::vector<Kind> kinds = {\n')
for k in core['operand_kinds']:
    ens=[]
    for e in k.get('enumerants',[]):
        ens.append('{%d,%s,{%s},%s,%s,%d,%s}'%(num(e['value'])&0xffffffff,s(e['enumerant']),','.join(str(kid[p['kind']]) for p in e.get('parameters',[])),strs(e.get('capabilities',[])),strs(e.get('extensions',[])),ver(e.get('version')),'true' if e.get('version')=='None' else 'false'))
    out.write(' {%s,%s,{%s},{%s}},\n'%(s(k['kind']),s(k['category']),','.join(str(kid[b]) for b in k.get('bases',[])),',\n   '.join(ens)))
out.write('};\n')
def insts(name,g):
    out.write('const std::vector<Inst> %s = {\n'%name)
    for i in g['instructions']:
        ops=','.join('{%d,\'%s\',%s}'%(kid[o['kind']],o.get('quantifier','1'),s(o.get('name','').replace('\n',' '))) for o in i.get('operands',[]))
        out.write(' {%d,%s,%s,{%s},%s,%s,%d,%s},\n'%(i['opcode'],s(i['opname']),s(i.get('class','')),ops,strs(i.get('capabilities',[])),strs(i.get('extensions',[])),ver(i.get('version')),'true' if i.get('version')=='None' else 'false'))
    out.write('};\n')
insts('core',core); insts('glsl',glsl); insts('opencl',ocl)
out.write('}\n')
