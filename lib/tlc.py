"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from build import JOBS, ROOT, ToolError

SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def tlc(dir, name, module, cfg, env, heap='2g', timeout=800, extra=(), workers=1):
    """one TLC run in a private directory -> (lines printed, states, distinct, text)"""
    wd = os.path.join(dir, name)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
    with open(os.path.join(wd, 'M.cfg'), 'w') as f:
        f.write(cfg)
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + wd, '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(wd, 'meta'), '-noGenerateSpecTE', '-config', 'M.cfg', *extra, module + '.tla']
    e = dict(os.environ, **env)
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + name)
    out = p.stdout
    shutil.rmtree(wd, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    gen, dis = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    return p.returncode, out, gen, dis, p.stderr


def unquote(line):
    """PrintT prints strings in quotes"""
    if line.startswith('"') and line.endswith('"'):
        return json.loads(line) if '\\' in line else line[1:-1]
    return line


def sharded(dir, module, cfg, envs, heap='2g', timeout=800, tag='', ok_codes=(0,), jobs=None, extra=(), on_fail=None):
    """several single-worker TLC runs side by side"""
    def one(k):
        return tlc(dir, 'tlc_%s%s_%d' % (tag, module, k), module, cfg, envs[k], heap, timeout, extra)
    lines, gen, dis, texts = [], 0, 0, []
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        for rc, out, g, d, err in ex.map(one, range(len(envs))):
            if rc not in ok_codes:
                raise ToolError('TLC (%s): exit %d\n%s\n%s' % (module, rc, out[-3000:], err[-1000:]))
            lines += [unquote(x) for x in out.split('\n') if x.startswith('"')]
            gen += g
            dis += d
            texts.append(out)
    return lines, gen, dis, texts


TRACE_CFG = open(os.path.join(SPEC, 'Trace.cfg')).read()


def validate(dir, specs, lines, tag='', jobs=None):
    """lines: JSON lines of sessions, specs: the schemas' JSON ->
    (accepted ids, {id: [difference]}, states, distinct)"""
    sp = os.path.join(dir, tag + 'schemas.json')
    with open(sp, 'w') as f:
        json.dump(specs, f)
    n = max(1, min(jobs or JOBS, (len(lines) + 199) // 200))
    envs = []
    # balance by size
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    parts = [[] for _ in range(n)]
    for j, i in enumerate(order):
        parts[j % n].append(i)
    for k in range(n):
        p = os.path.join(dir, '%ssessions%d.ndjson' % (tag, k))
        with open(p, 'w') as f:
            f.write('\n'.join(lines[i] for i in parts[k]) + '\n')
        envs.append({'SCHEMAS': sp, 'SESSIONS': p})
    out, gen, dis, _ = sharded(dir, 'Trace', TRACE_CFG, envs, tag=tag, jobs=jobs)
    acc, diff = set(), {}
    for x in out:
        if x.startswith('ACCEPT '):
            acc.add(int(x[7:]))
        elif x.startswith('DIFFER '):
            d = json.loads(x[7:])
            diff.setdefault(d['id'], []).append(d)
    for e in envs:
        os.unlink(e['SESSIONS'])
    os.unlink(sp)
    return acc, diff, gen, dis
