#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for every property that has a harness, the rest under not_applicable."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'P36': 'The bindings are pybind11 code running inside the CPython interpreter; neither pybind11 nor the interpreter is present as encodable source, and stubbing the interpreter would remove exactly the behaviour in question.',
}
TECH = 'symbolic execution of the LLVM IR of the real code + SMT (z3 bit-vectors/IEEE floats), counterexamples replayed natively'
NOTE = {
 'P09': 'Message texts are decided with the stream model of harness/ministd/stream.h. The order of the two kinds in an InvalidAnyType raised when a variant is stored is not claimed.',
 'P08': 'The dynamic loader (dlopen, dlsym) is a model in which every call may fail.',
 'P35': 'Streams and the calendar library are replaced at source level by the models in harness/ministd/stream.h: the check decides what /repo asks them to write, in which format and with which settings, not the digits the C++ library prints for numbers of 4096 and more, floating-point values and dates.',
 'P32': 'Streams, the file system, regular expressions and calendar formatting are replaced at source level by the models in harness/ministd/stream.h.',
 'P34': 'Streams and the file system are replaced at source level by the models in harness/ministd/stream.h, in which every operation may fail.',
 'P05': 'Every schedule (preemption at each lock, condition and thread operation) of the stated threads and operations; data races by happens-before on the explored schedules. Mutex, rwlock and condition primitives are models of the POSIX ones.',
}
checks, na = [], []
for p in props:
    i = p['id']
    hs = [h for h in glob.glob(f'{V}/harness/{i}*.cpp') if re.match(i + r'(?![0-9])', os.path.basename(h))]
    if hs:
        checks.append({'property': i,
            'quick_cmd': f'python3 tools/run.py {i} --tier quick',
            'thorough_cmd': f'python3 tools/run.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH, 'level': 'model_checking',
            'level_note': NOTE.get(i, '') + ' ' * bool(NOTE.get(i)) + 'Holds for every value of the symbolic inputs and every choice within the bounds in DESIGN.md and the evidence file, nothing beyond them. Trusts clang 18 (-O1 front end) for the IR, the engine and its small C/C++ library models (cross-checked by native replay of sampled paths), and z3.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
m = {'version': 1,
     'setup_cmd': 'python3 tools/run.py --setup',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Checks compile /repo\'s current sources to LLVM IR on every run (object cache keyed by the preprocessed text, in build/).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
