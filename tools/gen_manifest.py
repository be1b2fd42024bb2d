#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
CLI = ("Seeded exploration: the real mathcore binary, built from /repo, runs under an in-memory operating system (LD_PRELOAD) "
       "where every file, directory and stream operation is a scheduling and fault point; a seed repeats one execution exactly. ")
LIB = ("Seeded exploration: the real library, linked into the simulator, is driven by simulated callers over long histories with "
       "failing snippets, resets and exhausted limits injected; a seed repeats one execution exactly. ")
T = {
 'C01': ('deterministic simulation with fault injection: crash, power-failure and I/O-error schedules over a simulated file system',
   CLI + 'Every operation boundary and half-done write of a run is examined as a kill point, and sampled power failures are derived from the operation log (unsynced data lost or torn, a prefix of directory operations). Assumes that a rename is atomic and that fsync makes content durable.'),
 'C02': ('deterministic simulation with fault injection: tree differences over seeded option, tree and fault schedules',
   CLI + 'The complete tree is compared before and after each run. Ownership, extended attributes and time stamps are not modelled.'),
 'C03': ('deterministic simulation with fault injection: lasting and transient operation failures at seeded operations',
   CLI + 'Failures of memory allocation are not injected.'),
 'C04': ('deterministic simulation: seeded trees, links and directory orders against a per-file model',
   CLI + 'The reference for one file is the document model with the library for each formula.'),
 'C05': ('deterministic simulation: seeded documents, delimiters and chunk schedules against a document model',
   CLI + 'The oracle is an independent scanner; the library is the reference for a single formula, so what a formula means is not judged here.'),
 'C06': ('deterministic simulation with fault injection: configuration contents and failing configuration reads against a decision table',
   CLI + 'Configurations are drawn from a grammar of valid settings and a list of invalid ones.'),
 'C07': ('deterministic simulation with fault injection: seeded interleavings of several processes with kills',
   CLI + 'Up to five processes; scheduling points are the operating-system calls.'),
 'C08': ('deterministic simulation with fault injection: interruption, restart on surviving state, repeated',
   CLI + 'Kill and power-failure states are sampled from each interrupted run.'),
 'C09': ('deterministic simulation: documents with failing formulas under disturbed I/O against a document model',
   CLI + 'The expected diagnostic is the error message of the library for that formula in the state reached.'),

 'L01': ('deterministic simulation with fault injection: seeded histories with failing and torn snippets against a reference model',
   LIB + 'An executable model of numbering is compared with every output. One deviation is recorded as a known finding.'),
 'L02': ('deterministic simulation with fault injection: seeded histories against a reference model of labels',
   LIB + 'An executable model of labels, tags and references is compared with every output; batches are judged against the labels of the whole batch.'),
 'L03': ('deterministic simulation with fault injection: seeded histories of definitions against a reference model of scope and binding',
   LIB + 'An executable model of commands is compared with what every output shows; commands with up to two arguments and three built-in ones. One deviation is recorded as a known finding.'),
 'L04': ('deterministic simulation with fault injection: histories with and without isolated and batch calls, compared',
   LIB + 'The oracle is the same history without the shared calls, and a fresh converter for each of them; snippets include those of the test suite.'),
 'L05': ('deterministic simulation with fault injection: histories cut by resets, compared with new converters',
   LIB + 'The oracle is a new converter for the rest of the history after each reset.'),
 'L06': ('deterministic simulation with fault injection: batches with failing snippets against a session over the same snippets',
   LIB + 'The oracle is a fresh session over the same snippets with the text of references masked, and the reference model for what references show.'),
 'L07': ('deterministic simulation with fault injection: seeded schedules of several callers, suspended anywhere inside calls, against serial order',
   LIB + 'Callers are real threads of which one runs at a time; the library is compiled with the compiler\'s coverage instrumentation, so that a call can be suspended at every branch, load, store and allocation, and locks inside the library pass through the scheduler. Memory effects weaker than sequential consistency are not modelled.'),
 'L08': ('deterministic simulation with fault injection: failures at seeded points of seeded histories against the reference model and against histories without them',
   LIB + 'After a failed call the model admits every state the snippet passed through; failures of memory allocation are not injected, as Rust aborts on them.'),
 'L09': ('deterministic simulation with fault injection: exhausted expansion limits over seeded histories of recursive definitions, with measured memory and stack',
   LIB + 'Memory and stack are measured at every allocation; worker processes contain calls that never return or crash. The constant of the bound is that of the limits in the code, with a margin of about three.'),

 'L10': ('deterministic simulation with fault injection: seeded interleavings of several converters in a changed process (random numbers, clock, environment, heap, threads, earlier work, failures) against each history alone',
   LIB + 'Each case runs in forked processes, so that nothing is left over from others; calls of different threads follow one another and do not overlap (L07 covers overlapping ones).'),

 'P01': ('deterministic simulation with fault injection: seeded schedules of Python threads with failing, yielding and re-entrant arguments against the library in some serial order',
   'Seeded exploration: the real extension module, built from /repo, runs in a real interpreter whose threads take turns as the seed decides; interpreter lock, lock waits and allocations of the module are scheduling points. The oracle is the library linked into the simulator, under any serial order compatible with the order in time. Only the CPython at hand (3.12, with a global interpreter lock) is explored.'),

 'J01': ('deterministic simulation with fault injection: seeded histories of JavaScript calls with throwing and re-entrant getters, object lifetimes and exhausted memory against the library',
   'Seeded exploration: the real WebAssembly module with its generated JavaScript half, built from /repo, runs in node.js; what runs while arguments are read, when dropped objects are collected and how far memory grows is decided by the seed. The oracle is the library linked into the simulator. The module is not passed through wasm-opt, and the other generated variants (bundler, web) of the JavaScript half are not explored.'),

 'W01': ('deterministic simulation with fault injection: seeded histories of user actions with late, reordered and failing downloads, compressions and copies, page changes and broken links, against the library',
   'Seeded exploration: the real scripts and document of the playground and the real WebAssembly module, built from /repo, run in a simulated browser inside node.js; the seed decides what users do and when and how everything pending ends. The oracle is the library linked into the simulator. The browser (document, events, streams, base64) is a model of as much as the page needs; layout, style rules and real browsers are not explored.'),
}
NA = 'a pure function of one input: no schedule, clock, I/O, fault, sharing or history for a simulator to control; generating inputs would be fuzzing, not this technique'
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                           technique=T[i][0], level='exploration', level_note=T[i][1]))
    elif i[0] == 'N':
        na.append(dict(property=i, reason=NA))
    else:
        na.append(dict(property=i, reason='its check is not built yet'))
m = dict(version=1, setup_cmd='./build.sh all', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the seams are the libc boundary of the binary, the public API and global allocator of the library, the Python API, the JavaScript objects, memory limit and finalizers of the WebAssembly module, and what the browser offers the playground. Findings are in known_findings.jsonl.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
print(len(checks), len(na))
