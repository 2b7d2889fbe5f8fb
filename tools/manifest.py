#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present under mon/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('runtime trace monitor: random and boundary expressions executed and compared with a reference evaluator', 'differential trace oracle over generated expressions, trusting the reference evaluator in mon/lang.py'),
 'C02': ('runtime trace monitor: random statement nests with event trace compared with a reference evaluator', 'differential trace oracle; trusts mon/lang.py'),
 'C03': ('runtime trace monitor: random call graphs, overload sets and argument shapes', 'differential trace oracle; trusts mon/lang.py'),
 'C04': ('runtime trace monitor: random closures, capture sets and call histories', 'differential trace oracle; trusts mon/lang.py'),
 'C05': ('runtime trace monitor: random types, layouts, instantiations and aliasing histories', 'differential trace oracle; trusts mon/lang.py'),
 'C06': ('guard-page heap monitor (sanitizer) under programs with a collection at every allocation', 'every allocation has its own page(s), freed pages become inaccessible: use after free, double free and overflow fault'),
 'C07': ('heap event monitor: reclaim probes and live-object counts over allocation histories', 'live counts from malloc/free events of the monitored heap'),
 'C08': ('runtime monitor with guard-page heap: out-of-bounds access sweep over indexes and positions', 'exit status and panic message oracle, heap faults detected by page protection'),
 'C09': ('runtime monitor of the compiler: single typing-rule mutations of generated well-typed programs', 'each mutant breaks a typing rule by construction; observed exit status, errors and output directory'),
 'C10': ('runtime monitor of the compiler under mutation fuzzing, crash and hang detection', 'crash/termination oracle on arbitrary bytes; must-reject oracle on sources malformed by construction'),
 'C11': ('runtime monitor of error output: planted errors with known position, metamorphic shifts', 'position known by construction'),
 'C12': ('offline checker over recorded operation histories against a byte-sequence model', 'trusts the model in Python'),
 'C13': ('offline checker over recorded operation histories against a dictionary model', 'trusts the model in Python'),
 'C14': ('offline checker over recorded operation and callback traces against a sequence model', 'trusts the model in Python'),
 'C15': ('runtime monitor: hostile argument vectors and environments, recorded observation compared byte for byte', 'bytes as passed to execve are the oracle'),
 'C16': ('runtime monitor: generated literals, recorded bytes and values compared with the source text', 'trusts the literal decoder in Python'),
 'C17': ('runtime monitor with injected system call faults', 'shim around open/lseek/read records and fails calls'),
 'C18': ('Go race detector on concurrent in-process compilations, stress of concurrent processes with shared directories', 'schedules are sampled, not enumerated'),
 'C19': ('metamorphic runtime monitor: rewritten sources executed and traces compared', 'rewrites preserve meaning by construction'),
 'C20': ('metamorphic runtime monitor: option combinations, outputs and traces compared', 'same program with and without options'),
 'C21': ('offline checker over the recorded token stream against an independent tokenizer', 'trusts the tokenizer in Python'),
 'C22': ('runtime monitor: value sweep of conversions compared with a model', 'trusts the model in Python'),
 'C23': ('runtime monitor: C probe functions record arguments, alignment and registers', 'probe functions linked into compiled programs'),
}
checks, na = [], []
for k, (tech, note) in T.items():
    if os.path.exists(os.path.join(V, 'mon', k.lower() + '.py')):
        checks.append(dict(property=k, quick_cmd='./check ' + k, thorough_cmd='VERIF_TIER=thorough ./check ' + k,
                           technique=tech, level='fault_enumeration' if k == 'C17' else 'exploration',
                           level_note='Sampled executions of the real compiler, runtime and library built from the current tree: ' + note + '.'))
    else:
        na.append(dict(property=k, reason='the check is not built yet'))
m = dict(version=1, setup_cmd='python3 -m compileall -q mon', checks=checks, not_applicable=na,
         notes='See DESIGN.md. ./check <id> rebuilds the compiler from /repo into a scratch directory; VERIF_SEED and VERIF_TIER are honoured.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
