#!/usr/bin/env python3
# One-time transcription of the two timing tables (as documented at the pinned commit) into
# harness/src/tables.rs.  Not run by any check: the committed copy is the reference.
import re,sys
base='/repo/m68000/src/cpu_details/'
def load(f):
    d=[]
    for m in re.finditer(r'const (\w+): usize = ([^;]+);', open(base+f).read()):
        d.append((m.group(1), m.group(2)))
    return d
a=load('mc68000.rs'); b=dict(load('scc68070.rs'))
out=['// Reference timing tables (MC68000 user\'s manual / SCC68070), see tools/gen_timing.py.',
     '// NAME mc68000 scc68070', 'timing_table! {']
for n,v in a:
    w=b[n]
    v=eval(v); w=eval(w)
    out.append(f'    {n} {v} {w},')
out.append('}')
open('/verif/harness/src/tables.rs','w').write('\n'.join(out)+'\n')
