#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
SEQ = 'explicit-state/stateless model checking of the real code: bounded exhaustive enumeration of inputs or operation histories, every step compared with a reference model'
CONC = 'stateless model checking of the real code under a controlled scheduler: all schedules up to a preemption bound, linearizability/sequential oracle plus race detection in each'
note = {
 'C01': 'All PDUs within 3 (thorough 4) deviations from a base PDU per type x flag combination, plus full byte, length and list alphabets; bytes compared with an independent RFC 2741 encoder. Trusts that reference.',
 'C02': 'Same space as C01; every successful encoding is decoded and compared field by field with the original.',
 'C03': 'All 256 types x all parameter kinds x all 256 flag bytes, all 256 value tags x value types, all OID lengths around the limit, all GetBulk counters, plus deviations from base PDUs; verdict compared with the reference predicate.',
 'C04': 'All values of the first four header bytes (2^32 classes by reserved byte in thorough), every byte value at every position, length and id fields; verdict and fields compared with the reference decoder.',
 'C05': 'Well-formed payloads, all one-byte and many two-byte changes, truncations, extensions, all short byte and word strings, all varbind types, OID headers and string lengths; compared with the reference decoder.',
 'C06': 'The hostile input space (C05 plus hostile values in every 16/32-bit length and count field, length bombs and large inputs) run under panic, time and allocation monitors, in both variants.',
 'C07': 'Plain and debug variants run on the same encode, header and payload spaces; verdicts, results and log records compared.',
 'C08': 'All histories of encode, decode, buffer reuse, mutation and extension up to the bound, results compared with fresh private computations after every step; inputs embedded in canary arrays; large PDUs, variables used before.',
 'C09': 'Real code under a controlled scheduler with a scheduling point before every statement; all schedules within the preemption bound; results compared with sequential execution; race detector on every schedule.',
 'C10': 'All streams of 2 and 3 (thorough 4) frames of the alphabet with every in-place corruption of the alphabet, readers and writers that reuse a variable, long streams and large payloads.',
 'C11': 'All pairs over a universe of OIDs including boundary values and long OIDs; order axioms on all triples.',
 'C12': 'All strings up to a length over the relevant alphabet, every byte at every position, number and count boundaries; compared with a reference grammar.',
 'C13': 'All histories of clone, cat, modify and append over slices with spare capacity; memory compared with the model after every step.',
 'C14': 'All operation histories up to 6 (thorough 7) steps over a universe of OIDs, all states of the tree reached are compared with a prefix-closed set model; fans to 300, chains to 200 and all insertion and removal orders.',
 'C15': 'All trees reached by bounded histories x all start, end and include arguments, compared with the model; wide fans at any level and chains to 140.',
 'C16': 'Same trees as C15 (chains to 200); enumerations whose callback retains, modifies and appends, compared with the model.',
 'C17': 'Real tree under a controlled scheduler, all schedules within the preemption bound (2-3 threads, 1-2 calls each, small trees and trees of 70-100 nodes), each history checked for linearizability; race detector on every schedule; deadlock detection.',
 'C18': 'All lengths, bounds, prefixes and byte values in the stated ranges; output parsed back and compared with the reference rendering.',
 'C19': 'All pairs of short slices over small alphabets, all length pairs with one or two differences, all byte value pairs; compared with the reference.',
 'C20': 'Whole 8- and 16-bit domains of every named type, enumerated completely; error codes over 16 bits and boundaries.',
 'C21': 'All 256 tags x a catalogue of Go value types and value alphabets, checked against what encoding and decoding do.',
 'C22': 'Every table entry compared with the registered OIDs; sharing and all library operations on every entry.',
 'C23': 'All PDUs within 2 (thorough 3) deviations x depths, all types, tags and value kinds; output parsed line by line and compared with the reference; pairwise distinctness.',
 'C25': 'Every payload of the C05 space that is accepted is encoded again in both byte orders, decoded, compared and encoded once more.',
 'C26': 'The encode, header and payload spaces of C07 through the debug functions; every record is parsed and every dump line compared with the data at its offset; coverage of all bytes and decoded values.',
 'C27': 'All sequences of 2-3 (thorough 4) Fprint calls over all printable kinds and builder contents; builder compared with the concatenation of the text forms.',
 'C28': 'All pairs of int8/uint8 and boundary pairs of every other ordered type.',
 'C29': 'All pairs of texts up to 4 (thorough 5) lines over a line alphabet, all structures and pairs of structures and PDUs within the deviation bound; compared with a reference rendering and diff. Package internal is reached with a build overlay.',
 'C24': 'All sequences of records from the alphabet, all bytes, formats and lengths to 4 MiB; concurrent records under all schedules within the preemption bound; standard output captured and compared byte by byte.',
}
checks = []
for p in props:
    i = p['id']
    checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                   'technique': CONC if i in ('C09', 'C17', 'C24') else SEQ, 'level': 'model_checking', 'level_note': note[i]})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: instrumentation for C09, C17 and C24 (and access to package internal for C29) is added at build time with go build -overlay. The commits in /repo are fixes only (known_findings.txt).'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
