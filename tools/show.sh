#!/bin/sh
# Prints the violations and scenario of replay files, compactly.
for f in "$@"; do python3 - "$f" <<'P'
import json, sys
d = json.load(open(sys.argv[1]))
s = d['scenario']
print(sys.argv[1], d['violations'])
for k in s:
    print('   ', k, json.dumps(s[k]))
P
done
