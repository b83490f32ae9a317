#!/usr/bin/env python3
"""Development-time generator: extracts the base information model the stand-in server starts
with from an OPC UA NodeSet2 file (run once; its output is committed)."""
import sys, re
import xml.etree.ElementTree as ET
src, out_c, out_py = sys.argv[1:4]
ns = '{http://opcfoundation.org/UA/2011/03/UANodeSet.xsd}'
root = ET.parse(src).getroot()
alias = {a.get('Alias'): a.text for a in root.find(ns+'Aliases')}
def nid(t):
    t = t.strip(); t = alias.get(t, t); m = re.fullmatch(r'i=(\d+)', t); return int(m.group(1)) if m else None
CLS = {'UAObject':1,'UAVariable':2,'UAMethod':4,'UAObjectType':8,'UAVariableType':16,'UAReferenceType':32,'UADataType':64,'UAView':128}
keep_obj = {84,85,86,87,88,89,90,91,92,93,2253,2254,2255,2256,2268,78,80,83,11508,11510,3048,31915,2274,11192}
nodes = {}
for e in root:
    t = e.tag.replace(ns,'')
    if t not in CLS: continue
    i = nid(e.get('NodeId')); c = CLS[t]
    if c in (1,2,4,128) and i not in keep_obj: continue
    refs = []
    for r in e.findall(ns+'References/'+ns+'Reference'):
        refs.append((nid(r.get('ReferenceType')), nid(r.text), r.get('IsForward','true')=='true'))
    nodes[i] = dict(cls=c, name=e.get('BrowseName'), abstract=e.get('IsAbstract','false')=='true', sym=e.get('Symmetric','false')=='true', refs=refs, dt=e.get('DataType'))
refs = set()
for i,n in nodes.items():
    for (rt,t,f) in n['refs']:
        if rt is None or t not in nodes or rt not in nodes: continue
        refs.add((i,rt,t) if f else (t,rt,i))
with open(out_c,'w') as f:
    f.write('/* generated by tools/gen_ns0.py from Opc.Ua.NodeSet2.xml */\nstatic const NS0Node ns0Nodes[] = {\n')
    for i in sorted(nodes):
        n = nodes[i]; f.write('{%d,%d,%d,%d,"%s"},\n' % (i,n['cls'],n['abstract'],n['sym'],n['name']))
    f.write('};\nstatic const NS0Ref ns0Refs[] = {\n')
    for r in sorted(refs): f.write('{%d,%d,%d},\n' % r)
    f.write('};\n')
with open(out_py,'w') as f:
    f.write('# generated by tools/gen_ns0.py from Opc.Ua.NodeSet2.xml\n# id: (nodeclass, name, isAbstract)\nNODES = {\n')
    for i in sorted(nodes):
        n = nodes[i]; f.write(' %d: (%d, %r, %r),\n' % (i,n['cls'],n['name'],n['abstract']))
    f.write('}\n# child -> parent for HasSubtype\nSUPERTYPE = {\n')
    for (s,rt,t) in sorted(refs):
        if rt == 45: f.write(' %d: %d,\n' % (t,s))
    f.write('}\nREFS = [\n')
    for r in sorted(refs): f.write(' (%d,%d,%d),\n' % r)
    f.write(']\n')
print(len(nodes), len(refs))
