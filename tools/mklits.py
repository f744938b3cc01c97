#!/usr/bin/env python3
"""Writes harness/src/props/lits.rs: every shape of matrix literal and many ragged ones (C25)."""
import itertools, os
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'src', 'props', 'lits.rs')
shapes = sorted({(r, c) for r in range(1, 9) for c in range(1, 9)}
                | {(1, n) for n in range(9, 25)} | {(n, 1) for n in range(9, 25)} | {(2, 12), (12, 2), (3, 11), (11, 3), (10, 10), (5, 13), (13, 5),
                   (16, 16), (3, 86), (86, 3), (1, 255), (1, 256), (255, 1), (256, 1), (1, 300), (300, 1)})
ragged = [l for n in (2, 3) for l in itertools.product(range(1, 5), repeat=n) if len(set(l)) > 1]
ragged += [l for l in itertools.product(range(1, 4), repeat=4) if len(set(l)) > 1]
ragged += [(0, 1), (1, 0), (2, 0), (0, 2), (2, 0, 1), (1, 1, 0), (2, 2, 0), (0, 3, 3), (3, 0, 3), (2, 4, 0),
           (5, 7), (7, 5), (1, 9), (9, 1), (6, 4, 5), (4, 5, 6), (5, 5, 5, 5, 4), (5, 5, 5, 5, 6), (2, 2, 2, 2, 2, 3, 1), (1, 3, 2, 2, 2, 2, 2),
           (8, 8, 8, 8, 8, 8, 8, 7), (8, 8, 8, 8, 8, 8, 8, 9), (7, 8, 8, 8, 8, 8, 8, 8), (9, 7, 8, 8, 8, 8, 8, 8), (1, 1, 1, 1, 1, 2, 1, 1, 1, 1), (2, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
ragged += [(a,) * k + (b,) for a in (2, 3, 5) for b in (1, 2, 3, 4, 6, 7) if a != b for k in (4, 5)]
ragged += [(b,) + (a,) * k for a in (2, 3, 5) for b in (1, 2, 3, 4, 6, 7) if a != b for k in (4, 5)]
ragged += [(20,) * 9 + (19,), (16,) * 15 + (17,), (1,) * 256 + (2,), (2,) + (1,) * 256, (300, 299), (256, 512), (1, 257), (2, 258)]
# a literal with an empty row does not compile (refused earlier still)
ragged = [l for l in dict.fromkeys(ragged) if 0 not in l]
def rows(ls): return '; '.join(', '.join(['f()'] * n) for n in ls)
w = []
w.append('// Generated by tools/mklits.py. Do not edit.')
w.append('use la::Matrix;')
w.append('pub const SHAPES: &[(usize, usize)] = &[%s];' % ', '.join(map(str, shapes)))
w.append('pub const RAGGED: &[&[usize]] = &[%s];' % ', '.join('&[%s]' % ', '.join(map(str, l)) for l in ragged))
w.append('/// The literal of shape number `k`, every element written as `f()`.')
w.append('pub fn rect<T: Copy, F: FnMut() -> T>(k: usize, mut f: F) -> Matrix<T> {\n    match k {')
for k, (r, c) in enumerate(shapes):
    w.append('        %d => m!(%s),' % (k, rows([c] * r)))
w.append('        _ => unreachable!(),\n    }\n}')
w.append('pub fn ragged(k: usize) -> Matrix<u32> {\n    let mut n = 0u32;\n    let mut f = || { n += 1; n };\n    match k {')
for k, l in enumerate(ragged):
    w.append('        %d => m!(%s),' % (k, rows(l)))
w.append('        _ => unreachable!(),\n    }\n}')
open(out, 'w').write('\n'.join(w) + '\n')
print(len(shapes), 'shapes', len(ragged), 'ragged')
