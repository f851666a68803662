#!/usr/bin/env python3
"""Writes checks/src/shapes_gen.rs: archives with all combinations of few resources."""
import itertools
K = 'SVMRA'  # struct, vector, multivector, raw data, archive
one = [(k, o) for k in K for o in (0, 1)]
shapes = [()]
shapes += [(x,) for x in one]
shapes += [(a, b) for a in one for b in one if K.index(a[0]) <= K.index(b[0])]
shapes += [tuple((k, o) for o in os) for k in K for os in ((0, 0, 0), (1, 1, 1), (0, 1, 0), (1, 0, 1))]
shapes += [tuple((k, o) for k in K) for o in (0, 1)]
shapes += [tuple((k, (i + o) % 2) for i, k in enumerate(K)) for o in (0, 1)]
names = ['r', 'rr', 'r_r', 'R', 'r2']
INNER = [0, 7, 2, 9]  # shapes of the archives inside: empty, raw, optional struct, an archive with an archive
out = ['// Generated by gen_shapes.py.']
make = []
for n, s in enumerate(shapes):
    schema = 'archive A%d {\\n %s}' % (n, ''.join('%s%s : %s;\\n' % ('@optional ' * o, names[i], k) for i, (k, o) in enumerate(s)))
    sec = {k: [] for k in K}
    view, subv, build, subb, parts, subs = [], [], [], [], [], []
    for i, (k, o) in enumerate(s):
        x, b = names[i], ['false', 'true'][o]
        j, j2 = len(parts), len(subs)
        get = 'self.%s()' % x
        def show(f): return '%d => %s,' % (j, '%s.map(|x| %s)' % (get, f % 'x') if o else 'Some(%s)' % (f % get))
        if k == 'S':
            sec[k].append('(%s, set_%s, Ea, "struct schema", %s)' % (x, x, b))
            view.append(show('Val::Struct(Ea::get(&%s))'))
            build.append('%d => set_struct(c, &|x| self.set_%s(x)),' % (j, x))
        elif k == 'V':
            sec[k].append('(%s, set_%s, start_%s, E7, "vector schema", %s)' % (x, x, x, b))
            view.append(show('Val::Vector(array_vals(&%s))'))
            build.append('%d => set_vector(c, way, &|x| self.set_%s(x), &|| self.start_%s()),' % (j, x, x))
        elif k == 'M':
            sec[k].append('(%s, start_%s, Var3, "multivector schema", %s_index, Idx24, %s)' % (x, x, x, b))
            view.append(show('Val::Multi(view_vals(&%s))'))
            build.append('%d => set_multi(c, &|| self.start_%s()),' % (j, x))
        elif k == 'R':
            sec[k].append('(%s, set_%s, "raw schema", %s)' % (x, x, b))
            view.append(show('Val::Raw(%s.to_vec())'))
            build.append('%d => set_raw(c, &|x| self.set_%s(x)),' % (j, x))
        else:
            # the archives inside come before this one, or we would not know their types
            inner = INNER[(n + i) % 4] if n > 10 else [0, 7][o]
            sec[k].append('(%s, A%d, B%d, "archive schema", %s)' % (x, inner, inner, b))
            subv.append('%d => %s,' % (j2, '%s.as_ref().map(|x| x as &dyn View)' % get if o else 'Some(%s)' % get))
            subb.append('%d => Ok(Box::new(self.%s()?)),' % (j2, x))
            subs.append('("%s", %s, %d)' % (x, b, inner))
            continue
        parts.append('("%s", Kind::%s, %s)' % (x, {'S': 'Struct', 'V': 'Vector', 'M': 'Multi', 'R': 'Raw'}[k], b))
    out.append('define_archive!(A%d, B%d, "%s"; %s);' % (n, n, schema, '; '.join(', '.join(sec[k]) for k in K)))
    out.append('impl View for A%d {' % n)
    out.append('    fn part(&self, i: usize) -> Option<Val> { match i { %s _ => unreachable!() } }' % ' '.join(view))
    out.append('    fn sub(&self, i: usize) -> Option<&dyn View> { match i { %s _ => unreachable!() } }' % ' '.join(subv))
    out.append('    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }\n}')
    out.append('impl Build for B%d {' % n)
    out.append('    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { %s _ => unreachable!() } }' % ' '.join(build))
    out.append('    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { %s _ => unreachable!() } }\n}' % ' '.join(subb))
    make.append('Shape { name: "A%d", schema: "%s", parts: &[%s], subs: &[%s], open: |s| Ok(Box::new(A%d::open(s.clone())?)), create: |s| Ok(Box::new(B%d::new(s.clone())?)) },'
                % (n, schema, ', '.join(parts), ', '.join(subs), n, n))
out += ['pub const SHAPES: &[Shape] = &['] + ['    ' + m for m in make] + ['];', '']
open('checks/src/shapes_gen.rs', 'w').write('\n'.join(out))
print(len(shapes))
