#!/usr/bin/env python3
"""Writes DESIGN.md from the checks' own descriptions (EXPLANATION, RULE, ASSUMPTIONS), the reasons below and the planted changes."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

# why the check reaches what the tests cannot
BEYOND = dict(
    C01='The tests read a few elements of a few shapes with `int`. The offset is derived here for every index tuple of every listed shape, index type, owner and form, and once as a polynomial that covers all index values.',
    C02='The tests fail one index in one direction (and hardly that: the sandbox builds them without the option). Here the complement of the valid range is covered as intervals, up to the ends of the index type.',
    C03='A test that compiles cannot show that another program does not.',
    C04='Like C03: absence of write access is a fact about types, not about runs.',
    C05='Aliasing is decided as the set of memory effects of each chain, so a write that also lands elsewhere, or a read of a temporary, is seen whatever the values.',
    C06='The storage has unknown content before construction, which a test cannot arrange reliably: an element that is left as it was looks right when the memory happened to be zero.',
    C07='The tests loop over one small range from zero. Here starts, extents up to millions (from starts near the end), base index types and callables vary.',
    C08='The polynomial normal form covers every multi-index at once, and every range size up to the limits of the index type.',
    C09='Sequences are compared whole, including empty loops and callables that return values or have state.',
    C10='Copies, moves and categories of arguments are events of the trace; a test sees values only.',
    C11='All supported sizes, both forms, against independently computed true nodes; the tests compare with tables typed from the code.',
    C12='Exactness is checked in rational arithmetic up to the full degree for every size and both forms.',
    C13='Polynomial identity: equality at every coordinate (nodes, ends and outside of the interval included), not at sampled ones.',
    C14='Polynomial identity, as for C13; also a formula that is right except where it divides by zero is refused.',
    C15='Polynomial identity in all coordinates; unequal orders in each direction, which the tests never use.',
    C16='Identity in all coordinates and all nodal values at once; special cases taken for some values become traces of their own.',
    C17='Identity in the point and in all vertex coordinates, with arbitrary previous content of the output.',
    C18='Identity of rational functions; sign conventions, special cases for small or negative determinants and dependence on old content show for some input only.',
    C19='Slots are symbolic: a store that depends on the value, a permutation or an omission cannot cancel.',
    C20='Identity of rational functions over symbolic lengths and old contents.',
    C21='The two forms are compared as functions, not at points.',
    C22='All dimensions up to the overflow of the factorials; above them exact or rejected.',
    C23='Tests use three triples, all with maximum 1. Here signs, divisors and the extremes of int vary.',
    C24='All bases and exponents within the listed ranges, symbolic base, overflow rejected.',
    C25='Usability in constant expressions is a fact of the type checker; equality is of the two derived values.',
    C26='Narrowing is tracked as a dependence of the result, so rounding that happens to vanish on test values is seen.',
    C27='The tests are built under one standard and one configuration; here the derived functions of six are compared.',
    C28='The repository cannot be built for a device in this sandbox and its CI tests call only a part of the interface.',
    C29='Inclusion orders and linkage of all headers, exhaustively in pairs; a test program is one order.',
    C30='The whole text of a report is derived for symbolic arguments; the death tests look for a fragment.',
    C31='Absence of effects and of shared state over the call graph; tests in one thread cannot see it.',
    C32='Misuse programs must be rejected; the tests only hold programs that compile.',
    C33='All combinations of orders per direction, by the type checker.',
    C34='Order and arguments of the runtime calls for every outcome of the wait, for two backends that cannot run here.',
    C35='Options are flipped one by one in the abstract interpretation of the CMake files; the test build is one setting.',
    C40='Tests cannot show absence of undefined behaviour: it mostly gives the expected answer; here each definedness condition is an obligation on every trace.',
    C41='A fact of the type system, plus the answers of a copy for every content.',
    C42='Host configuration names and directory arguments are arbitrary strings, given or not; the script has no tests.',
    C36='File names read from the input are arbitrary strings; the script has no tests.',
)

HEAD = '''# Design

This directory decides semantic properties of GEOS-DEV/Shiva (`/repo`) by static analysis. Nothing here runs code of the
repository: the deciding steps read the current source tree, and what is generated from it by the compilers' front ends.
This file is written by `tools/gen_design.py`; MANIFEST.json by `tools/gen_manifest.py`; properties.jsonl by
`tools/gen_properties.py`.

## The technique

Shiva is a header-only library of templates, so its source means something only where it is instantiated. Each check builds
*witness units*: small C++ texts that instantiate the interface (one function per question) against `/repo/include` and a
configuration header derived from the repository's own template. A witness is then judged in one of these ways.

* **Abstract interpretation of the intermediate representation** (`sa/ir.py`, `sa/absint.py`, `sa/poly.py`, `sa/query.py`).
  clang translates the witness to LLVM IR at -O0 (with `sroa` only). A reader of that IR in Python interprets it
  interprocedurally over an abstract domain: reals are multivariate polynomials or rational functions in named inputs
  (exact coefficients, with the floating-point constants that the compiler wrote), integers are constants, intervals or
  polynomials, pointers are (object, offset) pairs, and memory is a map from objects to cells whose initial content is
  symbolic, unknown or zero. Branches on unknown reals fork the trace and add a sign fact; branches on intervals split the
  interval. No solver is involved: equality is equality of normal forms, comparisons are decided by interval
  arithmetic or recorded as sign facts. Events (calls of witness callables, stores, loads, termination) are recorded
  in order. The code under analysis is not executed on any input.
* **The type checker** (clang and g++, `-fsyntax-only`): `static_assert` facts, and compile-fail witnesses in pairs - the
  program with the misuse must be rejected, the one that differs only in the misuse accepted (`sa/core.py`, `sa/wit.py`).
* **Call-graph, linkage and effect queries** over the IR and over the preprocessed token streams (C28, C29, C31, C34).
* **Abstract interpretation of CMake files** (`checks/c35.py`) and **of the Python syntax tree** (`sa/pypaths.py`, C36, C42).

Verdicts: exit 0 when every obligation is discharged; exit 1 with a VIOLATION line when one is refuted, naming the
query, the source line and the two normal forms (or the program wrongly accepted); exit 2 when the analysis has no answer
(a construct it does not know, an interface that vanished, fewer obligations than the check must have). Traces that
were completed before a limit was hit are judged all the same.

Precision is exact over the reals: rounding is not modelled. Values are compared with tolerances that are far below any
behaviour change (1e-11 relative to the coefficients in double), so that a reordering of a sum is not reported. Where
tables in the source have 13 or 14 digits only, they are held to that precision (no user can rely on more; the
exactness property says so).

What "for every input" means per check: inputs that are values (coordinates, nodal values, vertex coordinates, lengths,
indices, arguments, old contents of outputs) are symbolic and so universally quantified. Inputs that are types or
template arguments (shapes, orders, standards) are enumerated: the lists are in the checks, and grow in the thorough tier.

## Soundness and limits

* Template arguments are enumerated, not quantified. A defect only for a shape that is not listed is missed; the lists
  are chosen so that unequal, degenerate (1), large and high-rank cases all occur, because they separate mistakes of
  formulas that are uniform in the argument.
* Enumerated sizes are not fixed once and for all: `around` (in `sa/core.py`) reads the integer literals of the current
  headers and adds the sizes next to each of them to the lists of the checks, so that code which treats sizes above
  some constant differently is analysed on both sides of that constant.
* Configurations are told apart by preprocessor conditions. The checks cover the options of the library; when a header
  tests any other macro (`NDEBUG`, `__FAST_MATH__`, `__clang__`, ...: `variants` in `sa/core.py` finds them; there is none
  on the current tree) the whole check is repeated with that macro the other way round.
* The abstract interpreter is a single implementation of LLVM IR semantics; what it does not know it refuses
  (exit 2) rather than guess. Mutable globals hold any value at any time.
* The type checkers of clang 18 and g++ 13 are trusted.
* Device toolkits are not installed: their headers are replaced by declarations under `sa/device`.

## Not applicable

'''

DEFECTS = '''## Defects found and repaired

The commits are in /repo, one each ("fix:"), and listed in KNOWN_FINDINGS.txt with what failed. There is no open finding.

'''

FALSE = '''## False alarms, and what was done about them

* C26 first reported the tables of the quadrature and spacing headers that have 13 or 14 digits as narrowed: a constant now
  counts as single-precision only if it is exactly a float, has at least 18 significant bits and is not an integer.
* C35 took an assertion in a function evaluated at compile time for a missing effect of the bounds-checking option: the effect
  is now judged on emitted code.
* C02 expected `operator[]` to refuse every out-of-range value of wider index types: it takes `int`, as declared, so a wider
  index is converted before the check, and only the converted value is in question.
* C36 first took the paths that argparse hands on for unknown ones: the parser calls are interpreted.
* The configuration header was written by concurrent jobs (a job could read half of it): it is now renamed into place.

'''


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    man = json.load(open(os.path.join(V, 'MANIFEST.json')))
    na = {n['property']: n['reason'] for n in man['not_applicable']}
    seeds = {}
    sd = os.path.join(V, 'seeded')
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        seeds.setdefault(m['property'], []).append((s, m))
    o = HEAD
    for p in props:
        if p['id'] in na:
            o += '* **%s** (%s): %s.\n' % (p['id'], p['title'], na[p['id']])
    o += '\n## Properties\n\n'
    for p in props:
        if p['id'] in na:
            continue
        m = importlib.import_module('checks.' + p['id'].lower())
        o += '### %s. %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
        o += '*Analysis.* %s\n\n*Deciding rule.* %s.\n\n' % (m.EXPLANATION, m.RULE)
        o += '*Bounds and assumptions.* %s.\n\n' % '; '.join(m.ASSUMPTIONS)
        o += '*Beyond tests.* %s\n\n' % BEYOND.get(p['id'], '')
        o += '*At least* %d obligations per run, otherwise no verdict.' % m.MIN
        if p['id'] in seeds:
            o += ' *Planted changes:* ' + '; '.join('`%s` (%s)' % (s, x['what_it_breaks']) for s, x in seeds[p['id']]) + '.'
        o += '\n\n'
    o += DEFECTS
    for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
        if l.startswith('fixed:'):
            _, pr, c, rest = l.strip().split(' ', 3)
            o += '* %s `%s`: %s\n' % (pr.split('=')[1], c, rest)
    o += '\n' + FALSE
    o += open(os.path.join(V, 'tools', 'planted.md')).read()
    open(os.path.join(V, 'DESIGN.md'), 'w').write(o)


main()
