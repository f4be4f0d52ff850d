#!/usr/bin/env python3
"""Generates harness/cmd/c23/table.go: MySQL's collations from Boost.MySQL's header
(an independent transcription of information_schema.COLLATIONS), matched to the
package's exported constants by name. The result is committed; checks do not run this."""
import re
b = {}
for m in re.finditer(r'constexpr std::uint16_t (\w+) = (\d+);', open('/usr/include/boost/mysql/mysql_collations.hpp').read()):
    b[int(m.group(2))] = m.group(1)
names = re.findall(r'^\t(\w+)\s+Collation = ', open('/repo/collation/collation.go').read(), re.M)
by = {n.lower(): n for n in names}
print('package main\n\nimport "github.com/renthraysk/xtorm/collation"\n\n// Generated by tools/gen_collations.py from Boost.MySQL\'s mysql_collations.hpp.\n')
print('var mysqlNames = map[uint]string{')
for k in sorted(b): print('\t%d: "%s",' % (k, b[k]))
print('}\n\n// constants: exported constant and the collation its name spells.\nvar constants = []struct {\n\tgo_, mysql string\n\tv collation.Collation\n}{')
used = set()
for k in sorted(b):
    n = by.get(b[k].replace('_', ''))
    if n: used.add(n); print('\t{"%s", "%s", collation.%s},' % (n, b[k], n))
print('}')
assert used == set(names), set(names) - used
