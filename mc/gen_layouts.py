#!/usr/bin/env python3
"""Writes checks/src/layouts.rs: structs in which every field type occurs with every width it allows."""
import random
r = random.Random(5)
types = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64}
todo = [('bool', 1)] * 4
for t, n in types.items():
    todo += [(t, w) for w in range(1, n + 1)]
enums = [('En1', 'u8', 1), ('En2', 'u16', 2), ('En3', 'i8', 3), ('En4', 'u64', 2)] * 5
todo += [(t, t2, w) for t, t2, w in enums]
r.shuffle(todo)
out = ['//! Generated by gen_layouts.py.', 'use crate::*;', 'use flatdata::Struct;', '']
names, i = [], 0
while todo:
    n = r.choice([1, 3, 5, 7, 8, 8])
    fs, todo = todo[:n], todo[n:]
    off = r.choice([0, 0, 0, 1, 5, 12, 75]) if i % 4 else 0
    if i == 7: off = 8 * 8191 + 3  # far from the start
    if i == 11: off = 8 * 300 + 7
    parts = []
    for k, f in enumerate(fs):
        t, p, w = f if len(f) == 3 else (f[0], f[0], f[1])
        parts.append('(f%d, set_f%d, %s: %s, %d, %d)' % (k, k, t, p, off, w))
        off += w
        if i % 3 == 2: off += r.choice([0, 0, 1, 3, 9])  # gaps
    size = (off + 7) // 8
    out.append('elem!(L%d, RefL%d, MutL%d, "L%d", %d, %s);' % (i, i, i, i, size, ', '.join(parts)))
    names.append('L%d' % i)
    i += 1
out += ['', '#[macro_export]', 'macro_rules! all_layouts {', '    ($f:ident, $($a:expr),*) => {']
out += ['        $f::<$crate::layouts::%s>($($a),*);' % n for n in names]
out += ['    };', '}', '']
open('checks/src/layouts.rs', 'w').write('\n'.join(out))
print(len(names))
