#!/usr/bin/env python3
"""Writes MANIFEST.json from bounds.py."""
import json, subprocess
from bounds import CHECKS
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
NA = {}
PENDING = 'not decided yet: the file system model this check needs is still being built'
hooks = [l.split()[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines() if l.split(' ', 1)[1].startswith('verif:')]
m = dict(version=1, setup_cmd='./setup.sh',
    hooks=dict(guard='dir_signature_verif', enable='RUSTFLAGS="--cfg dir_signature_verif" (set by harness/build.sh)', source_commits=hooks),
    checks=[dict(property=i, quick_cmd='./check.py %s quick' % i, thorough_cmd='./check.py %s thorough' % i,
        technique='symbolic execution of the crate\'s LLVM IR with Z3 (symx), counterexamples replayed natively',
        level='model_checking',
        level_note='Every path of the compiled code within these bounds: ' + CHECKS[i]['bounds'] + '. Outside: ' + CHECKS[i]['outside'] + '. Trusts the executor symx (its paths are sampled against the native build on every run), Z3 and the injective stand-in for the hash functions.')
        for i in ids if i in CHECKS],
    not_applicable=[dict(property=i, reason=NA.get(i, PENDING)) for i in ids if i not in CHECKS],
    notes='DESIGN.md describes the executor, the harnesses, the findings and what each check covers.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
