#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
MC, EX, FE = 'model_checking', 'exploration', 'fault_enumeration'
REAL = 'Runs the real library, rebuilt from /repo; exhaustive within the stated bounds, nothing beyond them. '
BOTH = 'Judged in a build with and one without debug assertions and overflow checks. '
C = {
 'C01': (EX, 'exhaustive enumeration of (type, width, bit offset, background, value) on the real codec and generated structs', REAL + BOTH + 'Values of wide fields are boundary and single-bit patterns, not all 2^64.'),
 'C02': (EX, 'exhaustive enumeration of (type, width, bit offset, background, value) against a bit-by-bit layout, in memory bounded by inaccessible pages', REAL + BOTH + 'Values of wide fields are boundary and single-bit patterns. Only little-endian hardware is run.'),
 'C03': (MC, 'stateless exploration of all histories of assignments and copies, against records of field values', REAL),
 'C04': (MC, 'stateless exploration of all histories of vector operations, against lists', REAL + BOTH),
 'C05': (MC, 'stateless exploration of all histories of an incremental vector writer, with structs large enough to cross its flush threshold, against lists', REAL),
 'C06': (MC, 'stateless exploration of all histories of a multivector writer and enumeration of damaged stored elements, against bucket lists', REAL + BOTH),
 'C07': (MC, 'exhaustive exploration of indexes, ranges of ranges and iterator histories, against slices', REAL + BOTH),
 'C08': (MC, 'exhaustive exploration of indexes, ranges of ranges and iterator histories, against lists of buckets', REAL + BOTH),
 'C09': (EX, 'exhaustive enumeration of stored sizes and headers, against the definition of a well-formed resource', REAL + BOTH),
 'C10': (EX, 'exhaustive enumeration of pairs of stored and expected schemas over small alphabets and of all one-place edits of a long schema', REAL),
 'C11': (MC, 'exhaustive exploration of the condition of every resource (bounded number of deviations, all subsets), each followed by step-wise completion', REAL + 'Combinations of more than 2 (thorough: 3) damaged resources are explored only as missing/present subsets.'),
 'C12': (MC, 'stateless exploration of all interleavings of writers and builders, against the written contents', REAL + 'All interleavings of any 2 (thorough: 3) parts with few elements.'),
 'C13': (MC, 'stateless exploration of all interleavings of writers and builders, against an independent model of every stored byte', REAL),
 'C14': (FE, 'exhaustive crash-point enumeration: writing stops after every possible number of bytes and calls, then what is on disk is opened', REAL + 'A crash is the death of the process: completed system calls persist in order. Loss of completed writes in a power failure is outside of the property.'),
 'C15': (FE, 'exhaustive fault enumeration: every file system call of a history fails, is cut short or is interrupted, with one and two faults', REAL + 'Faults are injected at the libc calls the library makes.'),
 'C16': (MC, 'exhaustive exploration of storage states before creation, including damaged archives, with all stored bytes compared', REAL),
 'C17': (MC, 'stateless exploration of all histories that end in dropping, closing or panicking, with and without storage errors', REAL),
 'C18': (MC, 'exhaustive enumeration of stored payloads and of accesses to them, in memory that ends at inaccessible pages', REAL + BOTH + 'Enumerations are assumed to have a name for every pattern of their width (see DESIGN.md).'),
 'C19': (MC, 'stateless exploration of all histories of storage operations against a map, with freed memory made inaccessible', REAL),
 'C20': (MC, 'exhaustive exploration of openings and reads of storages in all conditions; every call that could modify files is trapped and the directory compared', REAL),
 'C21': (MC, 'exhaustive exploration of lengths and iterator positions, against texts built from the model', REAL),
 'C22': (FE, 'exhaustive enumeration of conditions of resources and of every file system call failing with every error, each error judged against what is true of the storage', REAL + 'Faults are injected at the libc calls the library makes; one (thorough: up to 3 damaged resources) at a time.'),
 'C23': (MC, 'stateless exploration of all histories of openings, clones, rewrites, dropped handles and removed files, with everything obtained compared again after every operation', REAL + 'Files are not changed in place by others.'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash mc/run.sh setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks/src/bin', i.lower() + '.rs')):
        level, tech, note = C[i]
        m['checks'].append({'property': i, 'quick_cmd': 'bash mc/run.sh %s quick' % i, 'thorough_cmd': 'bash mc/run.sh %s thorough' % i,
                            'technique': 'model checking: ' + tech, 'level': level, 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'the check is not built yet'})
m['notes'] = 'No hooks: the checks use the public interface of the library only.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
