"""Compiling the harness against the working tree of /repo."""
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
HARNESS = os.path.join(ROOT, 'harness')
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = '/usr/bin/g++-14'
JOBS = os.cpu_count() or 8
sys.path.insert(0, HARNESS)
import dsl  # noqa: E402


class ToolError(Exception):
    """Something of ours did not work; says nothing about the property."""


class Rejected(Exception):
    """The compiler rejected documented schemas: [(schema name, first error)]."""

    def __init__(self, names):
        super().__init__(names)
        self.names = names


def code_tokens(text):
    """the text without comments and white space"""
    text = re.sub(r'"(?:\\.|[^"\\\n])*"|//[^\n]*|/\*.*?\*/',
                  lambda m: m.group(0) if m.group(0)[0] == '"' else ' ', text, flags=re.S)
    return re.sub(r'\s+', '', text)


def variants(scratch):
    """The headers to judge: include/, and the shipped single header when it
    is not just the amalgamation of include/."""
    out = [('include', os.path.join(REPO, 'include'))]
    shipped = os.path.join(REPO, 'single_header', 's2s.hpp')
    if not os.path.exists(shipped):
        return out
    fresh = os.path.join(scratch, 'fresh_s2s.hpp')
    p = subprocess.run([sys.executable, os.path.join(HERE, 'amalgam.py'), os.path.join(REPO, 'include'),
                        os.path.join(REPO, 'include', 's2s.hpp'), fresh], capture_output=True, text=True)
    same = False
    if p.returncode == 0 and os.path.exists(fresh):
        same = code_tokens(open(fresh).read()) == code_tokens(open(shipped).read())
    if not same:
        out.append(('single_header', os.path.dirname(shipped)))
    return out


def _run(cmd, timeout=600):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise ToolError('timed out: ' + ' '.join(cmd))
    return p.returncode, p.stderr


def diagnosed(rc, err):
    """a genuine compiler diagnostic, not a killed or crashed compiler"""
    return rc == 1 and re.search(r'\berror:', err) and 'internal compiler error' not in err \
        and 'Killed' not in err and 'out of memory' not in err


def first_error(err):
    for line in err.split('\n'):
        if 'error:' in line:
            return line.strip()[:400]
    return err.strip()[:400]


def weight(r):
    return 1 + sum(1 for _ in r.walk())


class Harness:
    def __init__(self, scratch, name, include, records, kinds=1, flags=(), opt='-O0', defines=(), pch=True):
        self.dir = os.path.join(scratch, name)
        os.makedirs(self.dir, exist_ok=True)
        self.name, self.include, self.records, self.kinds = name, include, records, kinds
        self.base = [CXX, '-std=c++23', '-w', opt, '-ftrivial-auto-var-init=pattern', '-DKINDS=%d' % kinds] + list(flags) + \
            ['-D' + d for d in defines]
        self.exe = os.path.join(self.dir, 'harness')

    def compile(self, jobs=None):
        n = max(1, min(3 * (jobs or JOBS), (len(self.records) + 1) // 2))
        groups = [[0, []] for _ in range(n)]
        for i, r in sorted(enumerate(self.records), key=lambda x: -weight(x[1])):
            g = min(groups, key=lambda g: g[0])
            g[0] += weight(r)
            g[1].append((i, r))
        # a precompiled rt.hpp that stands in for the real one
        pd = os.path.join(self.dir, 'pch')
        os.makedirs(pd, exist_ok=True)
        with open(os.path.join(pd, 'rt.hpp'), 'w') as f:
            f.write('#include "%s/rt.hpp"\n' % HARNESS)
        inc = ['-I' + pd, '-I' + self.include]
        rc, err = _run(self.base + ['-I' + self.include, '-x', 'c++-header', os.path.join(pd, 'rt.hpp'), '-o',
                                    os.path.join(pd, 'rt.hpp.gch')])
        if rc:
            if diagnosed(rc, err):
                raise Rejected([('s2s.hpp', first_error(err))])
            raise ToolError('precompiling: ' + err[:2000])
        work = []
        for g, (_, regs) in enumerate(groups):
            if not regs:
                continue
            em = dsl.Emit()
            for i, r in sorted(regs, key=lambda x: x[0]):
                em.record(r)
            src = os.path.join(self.dir, 't%d.cpp' % g)
            with open(src, 'w') as f:
                f.write(em.text(regs))
            work.append((src, regs))
        work.append((os.path.join(HARNESS, 'main.cpp'), None))

        def comp(w):
            src, regs = w
            obj = os.path.join(self.dir, os.path.basename(src) + '.o')
            rc, err = _run(self.base + inc + ['-c', src, '-o', obj])
            return src, regs, obj, rc, err

        objs, bad = [], []
        with ThreadPoolExecutor(jobs or JOBS) as ex:
            for src, regs, obj, rc, err in ex.map(comp, work):
                if rc == 0:
                    objs.append(obj)
                elif regs is None or not diagnosed(rc, err):
                    raise ToolError('compiling %s: %s' % (src, err[-2000:]))
                else:
                    bad.append((regs, err))
        if bad:
            self._blame(bad, inc)
        rc, err = _run(self.base + ['-o', self.exe] + objs)
        if rc:
            raise ToolError('linking: ' + err[-2000:])
        return self

    def _blame(self, bad, inc):
        """which schemas of the failing translation units do not compile"""
        one = [(i, r) for regs, _ in bad for i, r in regs]

        def alone(ir):
            i, r = ir
            em = dsl.Emit()
            em.record(r)
            src = os.path.join(self.dir, 'one%d.cpp' % i)
            with open(src, 'w') as f:
                f.write(em.text([ir]))
            return r, *_run(self.base + inc + ['-fsyntax-only', src])
        names = []
        with ThreadPoolExecutor(JOBS) as ex:
            for r, rc, err in ex.map(alone, one):
                if rc and diagnosed(rc, err):
                    names.append((r.name, first_error(err)))
        if not names:
            raise ToolError('compiling: ' + bad[0][1][:2000])
        raise Rejected(names)

    def sizes(self):
        import json
        p = subprocess.run([self.exe, '--info'], capture_output=True, text=True)
        if p.returncode:
            raise ToolError('harness --info failed: %d %s' % (p.returncode, p.stderr[:500]))
        return json.loads(p.stdout)
