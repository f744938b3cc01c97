#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
T = {
 'C01': ('stateful model-based testing against a row-table model', 'random histories of up to 40 operations over a pool of matrices and several element types; every accessor compared after every step'),
 'C02': ('property-based testing against an element-by-element definition', 'random shapes, indices and selections, all blocks and minors of small matrices; composition laws'),
 'C03': ('differential property-based testing: in-place against value-returning forms', 'chains of in-place operations over exact fields and floats, non-commutative elements'),
 'C04': ('property-based testing against definitions over exact and floating element types', 'prime field, rationals, integers, complex, non-commutative ring, f32, f64 with accumulated-rounding bounds'),
 'C05': ('property-based testing of refusals', 'shapes and arguments just outside and just inside the domain of each operation'),
 'C06': ('property-based testing under a poisoning, guarding allocator', 'every public operation repeated under different heap contents; results must agree and writes stay inside'),
 'C07': ('property-based testing with defining equations and exact rational replay', 'PA = LU exactly over rationals and a prime field, with backward-error bounds over floats'),
 'C08': ('property-based testing against exact determinants', 'exact cofactor/fraction-free determinants of integer and rational matrices, multiplicativity and permutation laws'),
 'C09': ('property-based testing against exact solutions and backward-error bounds', 'exact rational systems, float residual bounds from the computed growth, exactly singular matrices'),
 'C10': ('property-based testing of defining equations', 'QR = A, orthogonality, triangularity within rounding for tall, wide, square and degenerate matrices'),
 'C11': ('property-based testing against optimality conditions and exact least squares', 'normal-equation residuals, exact rational least squares, rank decisions'),
 'C12': ('property-based testing of defining equations and refusals', 'LLt = A, triangular, positive diagonal, refusal of non positive definite matrices'),
 'C13': ('property-based testing of defining equations', 'symmetric eigenproblems of many structures: AV = VD, orthogonality, order, trace'),
 'C14': ('property-based testing of defining equations', 'general eigenproblems: AV = VD, real and complex pairs, companion matrices with known roots'),
 'C15': ('property-based testing of defining equations', 'USVt = A, orthogonality, order and signs for all shapes and degeneracies'),
 'C16': ('property-based testing against exact ranks and norms', 'rank of exact integer matrices, condition and 2-norm against independent bounds'),
 'C17': ('property-based testing of defining equations', 'the direct SVD on shapes and spectra within its documented domain'),
 'C18': ('property-based testing of the Moore-Penrose equations', 'tall full-rank matrices; agreement with least squares and with the inverse'),
 'C19': ('property-based testing with operation-counting element types', 'every decomposition and solver must finish within an operation budget on all finite inputs, and contain no non-finite value'),
 'C20': ('property-based testing against definitions and norm axioms', 'norms and trace over wide magnitudes and fractional p'),
 'C21': ('property-based testing against definitions, single-position differences', 'differences at every position below, at and above the tolerance, own-tolerance element type'),
 'C22': ('generated files read back against the table that was written', 'padding, line endings, buffer-crossing sizes, ragged and invalid files in a scratch directory'),
 'C23': ('property-based round trip of the printed form', 'text taken apart into equal columns and compared with each element; numbers read back'),
 'C24': ('metamorphic and differential testing between decompositions', 'determinant, solutions, singular values, norms and traces agreed between independent decompositions and under predictable transformations'),
 'C25': ('generated literals with logged evaluation', 'every literal shape up to 8x8 and long ones, 228 ragged literals, element expressions of every kind'),
 'C26': ('property-based testing of shape, range and independence of draws', 'checks whose failure by chance has probability below 2^-25 per run'),
}
checks = []
for p in props:
    t, n = T[p['id']]
    checks.append(dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=t, level='exploration', level_note=n))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
         notes='One Rust harness (harness/), a choice-sequence property-based-testing engine; see DESIGN.md. No hooks in /repo. Replays: ./run.sh replay <file>.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
