"""Casts in constant evaluation: cases compiled into programs that print what
the compiler evaluated."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
import dsl
from build import CXX, HARNESS, JOBS, ToolError, _run, diagnosed, first_error


def source(cases, records):
    """cases: [(number, call, init bytes, cap)]"""
    em = dsl.Emit()
    seen = {}
    for n, c, init, cap in cases:
        em.record(records[c[1]])
    body = []
    for n, c, init, cap in cases:
        name = records[c[1]].name
        if c[0] == 'R':
            e = 'ce::read<%s>(%s, ".%s")' % (name, 'true' if c[2] else 'false', bytes(init).hex())
        else:
            e = 'ce::write<%s>(%s, %d, "%s")' % (name, 'true' if c[2] else 'false', cap, dsl.tokens(records[c[1]], c[3]))
        body.append('static constexpr auto case_%d = ce::freeze<[]{ return %s; }>();' % (n, e))
    return em.text([]).replace('#include "rt.hpp"', '#include "ce.hpp"') + '\n'.join(body) + \
        '\n#include <cstdio>\nint main() {\n' + \
        '\n'.join('  std::printf("%d %%s\\n", case_%d.data());' % (n, n) for n, *_ in cases) + '\n}\n'


def run(dir, include, records, cases, flags=()):
    """-> ({case: call log}, [(case, diagnostic)])"""
    os.makedirs(dir, exist_ok=True)
    groups = {}
    for x in cases:
        groups.setdefault(x[1][1], []).append(x)
    stub = os.path.join(dir, 'stub.cpp')
    with open(stub, 'w') as f:
        f.write('#include "rt.hpp"\nnamespace h { thread_local std::size_t g_max_alloc; thread_local bool g_counting;\n'
                'std::vector<entry>& entries() { static std::vector<entry> e; return e; }\n'
                'std::map<std::string, std::size_t>& sizes() { static std::map<std::string, std::size_t> s; return s; } }\n')
    base = [CXX, '-std=c++23', '-w', '-O0', '-fconstexpr-ops-limit=200000000', '-fconstexpr-loop-limit=1000000', '-I' + HARNESS, '-I' + include, *flags]
    pd = os.path.join(dir, 'pch')
    os.makedirs(pd, exist_ok=True)
    with open(os.path.join(pd, 'ce.hpp'), 'w') as f:
        f.write('#include "%s/ce.hpp"\n' % HARNESS)
    rc, err = _run(base + ['-x', 'c++-header', os.path.join(pd, 'ce.hpp'), '-o', os.path.join(pd, 'ce.hpp.gch')])
    if rc:
        raise ToolError('precompiling ce.hpp: ' + err[:1000])
    rc, err = _run(base + ['-c', stub, '-o', stub + '.o'])
    if rc:
        raise ToolError('stub: ' + err[:1000])
    base.insert(1, '-I' + pd)

    def one(tag, xs):
        src = os.path.join(dir, 'ce%s.cpp' % tag)
        with open(src, 'w') as f:
            f.write(source(xs, records))
        exe = src + '.exe'
        rc, err = _run(base + [src, stub + '.o', '-o', exe])
        if rc:
            if not diagnosed(rc, err):
                raise ToolError('constant evaluation: ' + err[:1500])
            return None, err
        p = subprocess.run([exe], capture_output=True, timeout=60)
        if p.returncode:
            raise ToolError('constant evaluation: exit %d' % p.returncode)
        out = {}
        for line in p.stdout.decode('latin1').split('\n'):
            if line:
                n, j = line.split(' ', 1)
                out[int(n)] = json.loads(j)
        return out, ''

    def group(s):
        xs = groups[s]
        out, err = one('g%d' % s, xs)
        if out is not None:
            return out, []
        got, bad = {}, []
        for x in xs:
            out, err = one('c%d' % x[0], [x])
            if out is None:
                bad.append((x[0], first_error(err)))
            else:
                got.update(out)
        return got, bad
    logs, bad = {}, []
    with ThreadPoolExecutor(JOBS) as ex:
        for a, b in ex.map(group, sorted(groups)):
            logs.update(a)
            bad += b
    return logs, bad
