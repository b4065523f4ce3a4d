#!/usr/bin/env python3
"""Do the planted changes touch lines of the original repository?"""
import subprocess, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B=subprocess.run("git -C /repo log --format=%H --reverse | head -200",shell=True,capture_output=True,text=True).stdout.split()
base=subprocess.run("git -C /repo rev-list --reverse HEAD --grep='^fix:'|head -1",shell=True,capture_output=True,text=True).stdout.strip()+'^'
for s in sorted(os.listdir(V+'/seeded')):
    t=open(f'{V}/seeded/{s}/patch.diff').read()
    f=[l[6:] for l in t.splitlines() if l.startswith('--- a/')][0]
    o=subprocess.run(f"git -C /repo show {base}:{f}",shell=True,capture_output=True,text=True).stdout.splitlines()
    rem=[l[1:] for l in t.splitlines() if l.startswith('-') and not l.startswith('---')]
    print(s, sum(r in o for r in rem), 'of', len(rem), 'removed lines are original')
