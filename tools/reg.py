#!/usr/bin/env python3
"""reg.py ID LEVEL NOTE [TECHNIQUE]: registers a check and rewrites MANIFEST.json"""
import json, sys, subprocess
f = '/verif/tools/registry.json'
r = json.load(open(f))
i, level, note = sys.argv[1:4]
tech = sys.argv[4] if len(sys.argv) > 4 else ('contract-based deductive verification: weakest-precondition style symbolic execution of the compiled functions against C++ contracts, '
       'obligations discharged by normal forms and z3 (texts as z3 sequences of arbitrary length)')
r['checks'][i] = dict(technique=tech, level=level, level_note=note)
r['na'].pop(i, None)
json.dump(r, open(f, 'w'), indent=1)
subprocess.check_call(['python3-vt', '/verif/tools/gen_manifest.py'])
