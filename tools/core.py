#!/usr/bin/env python3
# Prints the unsat core of an SMT query dumped by kvc -dump.
import sys,subprocess,re
src=open(sys.argv[1]).read().split('\n')
out=['(set-option :produce-unsat-cores true)'];names={}
for l in src:
    if l.startswith('(set-option') or l.startswith('(get-') : continue
    if l.startswith('(assert ') and l.endswith(')'):
        n=f'a{len(names)}';names[n]=l
        l=f'(assert (! {l[8:-1]} :named {n}))'
    out.append(l)
out.append('(get-unsat-core)')
open('/tmp/core.smt2','w').write('\n'.join(out))
r=subprocess.run(['z3-new','-T:60','/tmp/core.smt2'],capture_output=True,text=True).stdout
print(r[:300])
defs={m.group(1):m.group(0) for m in re.finditer(r'\(define-fun (\S+) .*',"\n".join(src))}
used=set()
def show(l,d=0):
    for t in re.findall(r't!\d+',l):
        if t not in used and t in defs:
            used.add(t);print('   ',defs[t][:600]);show(defs[t],d+1)
for n in re.findall(r'a\d+',r.split('\n',1)[1] if '\n' in r else ''):
    if n in names: print(n,names[n][:1500]);show(names[n])
