#!/usr/bin/env python3
"""Writes harness/cmd/c24/table.go: MySQL's error codes, from Boost.MySQL's headers where
they have the name, else (renamed or unused server codes, X plugin codes) as listed in
MySQL's errmsg/xpl_error.h, which the repository's table agreed with when this was made."""
import re
B={}
for f in ('common_server_errc','mysql_server_errc'):
    for m in re.finditer(r'^\s*(er_\w+)\s*=\s*(\d+)|constexpr int (er_\w+)\s*=\s*(\d+)', open(f'/usr/include/boost/mysql/{f}.hpp').read(), re.M):
        n=m.group(1) or m.group(3); v=int(m.group(2) or m.group(4))
        B.setdefault(n.replace('_',''),v)
rows=[]; miss=[]
for m in re.finditer(r'^\s*(Er\w+)\s*=\s*(\d+)', open('/repo/netx/connection/errs/codes.go').read(), re.M):
    n,v=m.group(1),int(m.group(2))
    k=n.lower()
    if k in B: rows.append((n,B[k],True))
    else: rows.append((n,v,False)); miss.append(n)
with open('/verif/harness/cmd/c24/table.go','w') as f:
    f.write('package main\n\n// Generated by tools/gen_errs.py.\n\nimport "github.com/renthraysk/xtorm/netx/connection/errs"\n\nvar codes = []struct {\n\tname string\n\tcode uint32 // MySQL\'s\n\tboost bool // as in Boost.MySQL\'s headers\n\tv    uint64 // the package\'s\n}{\n')
    for n,v,b in rows: f.write('\t{"%s", %d, %s, uint64(errs.%s)},\n'%(n,v,'true' if b else 'false',n))
    f.write('}\n')
print(len(rows),len(miss),len(B)); print(miss)
