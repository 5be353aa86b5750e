#!/usr/bin/env python3
"""cu2cpp.py SRC DST: copies the library's source tree, rewriting CUDA launches  K<<<g,b,s,st>>>(args)  into calls of the
simulated launcher. Line numbers stay; files are only touched when their content changes; .cu becomes .cu.cpp."""
import os, sys

def match_fwd(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise SystemExit('unbalanced launch')

def kernel_start(s, i):
    """start of the kernel name (with template arguments) that ends right before i"""
    j = i - 1
    while s[j].isspace(): j -= 1
    if s[j] == '>':
        d = 0
        while True:
            if s[j] == '>': d += 1
            elif s[j] == '<':
                d -= 1
                if d == 0: break
            j -= 1
        j -= 1
        while s[j].isspace(): j -= 1
    elif s[j] == ')':
        d = 0
        while True:
            if s[j] == ')': d += 1
            elif s[j] == '(':
                d -= 1
                if d == 0: return j
            j -= 1
    while s[j].isalnum() or s[j] in '_:': j -= 1
    return j + 1

def convert(s):
    pos = 0
    while True:
        i = s.find('<<<', pos)
        if i < 0: return s
        e = s.find('>>>', i)
        if e < 0: return s
        b = kernel_start(s, i)
        name = s[b:i]
        cfg = s[i + 3:e]
        j = e + 3
        while s[j].isspace() or s[j] == '\\': j += 1
        if s[j] != '(':
            pos = i + 3
            continue
        k = match_fwd(s, j, '(', ')')
        args = s[j + 1:k]
        gap = ''.join(c for c in s[e + 3:j] if c in '\n\\')
        keep = '\n' * name.count('\n')
        new = ('[&]{ dim3 g_, b_; size_t h_; cudaStream_t s_; simgpu::launchCfg(&g_, &b_, &h_, &s_, %s); '
               'simgpu::launch(g_, b_, h_, s_, [](auto... a_) { %s(a_...); }%s%s); }()' % (
                   cfg, name, gap, (', ' + args) if args.strip() else ''))
        s = s[:b] + new + s[k + 1:]
        pos = b + len(new)

import re
# block-local variables live in storage of the simulated block
SHARED = re.compile(r'(?:extern\s+)?__shared__\s+([^;\[]*?)\b(\w+)((?:\s*\[[^;\[\]]*\])*)\s*;')

def shared(m):
    ty, name, dims = m.group(1).strip(), m.group(2), m.group(3)
    if dims.strip() == '[]':
        return 'auto* %s = (%s*)simgpu::sharedVar(nullptr, 0);' % (name, ty)
    return ('static char %s_k_; typedef %s %s_t_%s; auto& %s = *(%s_t_*)simgpu::sharedVar(&%s_k_, sizeof(%s_t_));'
            % (name, ty, name, dims, name, name, name, name))

def main():
    src, dst = sys.argv[1:3]
    seen = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith(('.h', '.cpp', '.cu', '.cuh', '.hpp')): continue
            p = os.path.join(d, f)
            t = open(p, encoding='utf-8', errors='surrogateescape').read()
            if '<<<' in t: t = convert(t)
            if '__shared__' in t: t = SHARED.sub(shared, t)
            q = os.path.join(dst, os.path.relpath(p, src))
            if f.endswith('.cu'): q += '.cpp'
            seen.add(q)
            try:
                if open(q, encoding='utf-8', errors='surrogateescape').read() == t: continue
            except OSError: pass
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'w', encoding='utf-8', errors='surrogateescape').write(t)
    for d, _, fs in os.walk(dst):
        for f in fs:
            q = os.path.join(d, f)
            if q not in seen: os.remove(q)
main()
