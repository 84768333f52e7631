#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs
OWN = 'symbolic execution of the LLVM IR of the crate (own executor) with z3/cvc5-checked assertions'
NOTE = {p: jobs.BOUNDS[p] for p in jobs.BOUNDS}
m = {
    'version': 1,
    'setup_cmd': 'tools/setup.sh',
    'hooks': {
        'guard': 'jpeg_encoder_verif',
        'enable': 'RUSTFLAGS="--cfg jpeg_encoder_verif --cfg jpeg_encoder_verif_rows --cfg jpeg_encoder_verif_ops" (the second guard, jpeg_encoder_verif_rows, is for single rows and blocks of large pictures; the third, jpeg_encoder_verif_ops, for the quantization of a block and the writing of bits; set by check.py for the harness crate, which depends on /repo by path)',
        'source_commits': ['1a709aacf9c9412584d55d417ab899569e928f9c', '72bf7e2c4d77e9f2e33d899799e4936563643069',
                           '78bc09f3f6b07edce42fd9f2e152525ead63b698',
                           '1fa62ca63befc777d8f0e62de48cecb019159d86',
                           '9f09e5e33ce033fc0c5e964b2d735c7f75fc9939'],
    },
    'checks': [{
        'property': p,
        'quick_cmd': 'python3 check.py %s' % p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p,
        'technique': jobs.TECHNIQUE.get(p, jobs.TECHNIQUE['']),
        'level': 'model_checking',
        'level_note': 'Holds for all values of the symbolic inputs within: %s. Trusted: rustc, the executor and its models of '
                      'library functions and x86 intrinsics (cross-checked by native replay of path samples in each run), the solvers.' % NOTE[p],
    } for p in sorted(jobs.BOUNDS)],
    'not_applicable': [],
    'notes': 'Counterexamples are replayed with native builds (dev and release) of the same harness before they are reported. '
             'Exit 2: a counterexample that could not be reproduced, or nothing could be decided.',
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
