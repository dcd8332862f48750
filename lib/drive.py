"""Running sessions in the real code and collecting what it did."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from build import JOBS, ToolError

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=98:allocator_may_return_null=0:'
           'max_allocation_size_mb=1024', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1:exitcode=98')


def _once(exe, path, timeout):
    try:
        p = subprocess.run([exe, path], capture_output=True, timeout=timeout, env=ENV)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', e.stdout or b'', e.stderr or b''


def _parse(out):
    logs, last = {}, None
    for line in out.split(b'\n'):
        if line.startswith(b'# '):
            last = int(line[2:])
        elif line.startswith(b'{"id"'):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            logs[r['id']] = r['calls']
            last = None
    return logs, last


def _why(rc, err):
    text = err.decode('utf8', 'replace')
    for line in text.split('\n'):
        if 'runtime error:' in line or 'ERROR: AddressSanitizer' in line or 'ERROR: LeakSanitizer' in line \
                or 'SUMMARY:' in line:
            return line.strip()[:300]
    if rc == 97:
        return 'no answer within 30 s'
    if isinstance(rc, int) and rc < 0:
        return 'killed by signal %d' % -rc
    return 'exit %s %s' % (rc, text.strip()[:200])


def _shard(exe, dir, name, ids, texts, timeout):
    """-> logs, crashes; goes on after a session that killed the process"""
    logs, crashes = {}, {}
    todo = list(ids)
    n = 0
    while todo:
        n += 1
        path = os.path.join(dir, '%s.%d.in' % (name, n))
        with open(path, 'w') as f:
            f.writelines(texts[i] for i in todo)
        rc, out, err = _once(exe, path, timeout)
        os.unlink(path)
        got, last = _parse(out)
        logs.update(got)
        if rc == 0 and all(i in logs for i in todo):
            break
        if rc == 'timeout':
            raise ToolError('harness did not finish in %d s' % timeout)
        left = [i for i in todo if i not in logs]
        if last is None:
            if rc == 98 and not left:           # leaks are reported at exit
                crashes['exit'] = _why(rc, err)
                break
            raise ToolError('harness: exit %s: %s' % (rc, err[-500:]))
        # confirm that this session alone does it
        path = os.path.join(dir, '%s.alone.in' % name)
        with open(path, 'w') as f:
            f.write(texts[last])
        rc2, out2, err2 = _once(exe, path, 120)
        got2, _ = _parse(out2)
        os.unlink(path)
        if rc2 == 0 and last in got2:
            logs[last] = got2[last]             # not its own doing
            if rc == -9 or rc == 137:
                raise ToolError('harness killed')
        else:
            crashes[last] = _why(rc2, err2)
        if len(crashes) > 20:
            break
        todo = [i for i in left if i != last]
    return logs, crashes


def run(exe, dir, sessions, records, jobs=None, timeout=600):
    """sessions: list of gen.Session -> (logs by index, crashes by index)"""
    texts = [s.text(i, records) for i, s in enumerate(sessions)]
    n = max(1, min(jobs or JOBS, (len(sessions) + 49) // 50))
    parts = [list(range(k, len(sessions), n)) for k in range(n)]
    logs, crashes = {}, {}
    with ThreadPoolExecutor(n) as ex:
        for lg, cr in ex.map(lambda k: _shard(exe, dir, 'sess%d' % k, parts[k], texts, timeout), range(n)):
            logs.update(lg)
            crashes.update(cr)
    return logs, crashes


def trace_line(i, s, calls):
    """one line of the file Trace.tla reads"""
    out = []
    for c, want in zip(calls, s.calls):
        d = dict(c)
        d['want'] = want[3] if want[0] == 'W' else want[5] if want[0] == 'M' else []
        if s.kind == 3 and not c['ok']:
            d['rp'] = -1
        out.append(d)
    return json.dumps({'id': i, 'cap': s.cap, 'rp': s.rp, 'init': s.init, 'calls': out}, separators=(',', ':'))


def together(exe, dir, sessions, records, n=4, timeout=300):
    """every session by n threads at once -> (logs by index, one per thread), race or None;
    None if the sanitizer cannot run here"""
    path = os.path.join(dir, 'together.in')
    with open(path, 'w') as f:
        f.writelines(s.text(i, records) for i, s in enumerate(sessions))
    env = dict(ENV, TSAN_OPTIONS='halt_on_error=1:exitcode=66')
    try:
        p = subprocess.run([exe, '--together', str(n), path], capture_output=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise ToolError('threads did not finish in %d s' % timeout)
    text = p.stderr.decode('utf8', 'replace')
    if p.returncode == 66 and 'WARNING: ThreadSanitizer' in text:
        return {}, text
    logs = {}
    for line in p.stdout.split(b'\n'):
        if line.startswith(b'{"id"'):
            r = json.loads(line)
            logs.setdefault(r['id'], []).append(r['calls'])
    if p.returncode == 0 and all(len(logs.get(i, ())) == n for i in range(len(sessions))):
        return logs, None
    if 'FATAL: ThreadSanitizer' in text or 'unexpected memory mapping' in text:
        return None
    return {}, 'the process ended: %s' % _why(p.returncode, p.stderr)
