#!/usr/bin/env python3
# Regenerates cmd/replay/reg.go from the exported harness functions.
import os,re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
pk={}
for d in sorted(os.listdir('.')):
    if not os.path.isdir(d) or not d.startswith('h'): continue
    fs=[]
    for f in sorted(os.listdir(d)):
        if f.endswith('.go'):
            fs+=re.findall(r'^func ([A-Z]\d\d_\w+)\(\)',open(f'{d}/{f}').read(),re.M)
    if fs: pk[d]=sorted(fs)
o='// Code generated by gen.py; DO NOT EDIT.\n\npackage main\n\nimport (\n'
for d in pk: o+=f'\t"verif/harness/{d}"\n'
o+=')\n\nvar harnesses = map[string]func(){\n'
for d in pk:
    for f in pk[d]: o+=f'\t"{d}.{f}": {d}.{f},\n'
o+='}\n'
open('cmd/replay/reg.go','w').write(o)
