#!/usr/bin/env python3
"""check.py <property>            run the property's check (VERIF_TIER, VERIF_SEED)
check.py --replay <file>       run a recorded violation again"""
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.dont_write_bytecode = True
import build                                    # noqa: E402
import catalogue as C                           # noqa: E402
import constant                                 # noqa: E402
import drive                                    # noqa: E402
import dsl                                      # noqa: E402
import gen                                      # noqa: E402
import mc                                       # noqa: E402
import randgen                                  # noqa: E402
import static                                   # noqa: E402
import tlc                                      # noqa: E402
from build import Rejected, ToolError           # noqa: E402
from plans import PLANS, Mismatch               # noqa: E402

LAWS_CFG = open(os.path.join(tlc.SPEC, 'Laws.cfg')).read()
EVIDENCE = os.path.join(ROOT, 'evidence')


class Check:
    def __init__(self, id, tier, seed, scratch):
        self.id, self.tier, self.seed, self.scratch = id, tier, seed, scratch
        self.plan = PLANS[id]
        self.deep = tier == 'thorough'
        self.start = time.time()
        self.states = self.transitions = self.traces = 0
        self.cover = {'schemas': 0, 'sessions': 0, 'calls': 0, 'behaviours_replayed': 0, 'laws': 0, 'rounds': 0}
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.outcomes = {}
        self.beh = {}
        self.built = {}

    # ------------------------------------------------------------ results
    def violation(self, text, replay):
        if len(self.violations) >= 5:
            return
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.id, len(self.violations) + 1))
        replay.update(property=self.id, what=text)
        with open(p, 'w') as f:
            json.dump(replay, f, indent=1)
        self.violations.append((text, p))

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = dict(self.cover)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   outcomes=self.outcomes, samples=self.samples[:4], notes=self.notes)
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': ['TLC and the Json/IOUtils community modules', 'g++-14 and libstdc++ on x86-64 (little-endian host)',
                              'harness/rt.hpp reads and assigns fields through operator[] only'],
              'wall_s': round(time.time() - self.start, 1), 'violations': len(self.violations)}
        with open(os.path.join(EVIDENCE, self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.id, k))
        for text, p in self.violations:
            print(text)
            print('VIOLATION property=%s replay=%s' % (self.id, p))
        if not self.violations:
            print('%s held: %d states, %d traces of the implementation, %.0f s' % (
                self.id, self.states, self.traces, time.time() - self.start))
        return 1 if self.violations else 0

    # ------------------------------------------------------------ building
    def build(self, name, include, recs, mask, **k):
        """-> harness and its schemas, without the ones the compiler rejected"""
        dropped = []
        while True:
            try:
                h = build.Harness(self.scratch, name, include, recs, kinds=mask, **k).compile()
                dsl.SIZES.update(h.sizes())
                return h, dropped
            except Rejected as e:
                bad = dict(e.names)
                left = [r for r in recs if r.name not in bad]
                if len(left) == len(recs) or not left:
                    if self.plan.rejected and 's2s.hpp' in bad and self.id == 'C17':
                        self.violation('the headers do not compile: ' + bad['s2s.hpp'], {'kind': 'compile'})
                        return None, []
                    raise ToolError('cannot build: %s' % e.names[:2])
                dropped += e.names
                recs = left

    # ------------------------------------------------------------ one header
    def variant(self, vname, include, full, round):
        plan = self.plan
        rng = random.Random('%s %d %s %d' % (self.id, self.seed, vname, round))
        odd = self.deep and round % 2
        if odd:
            # every other round has schemas of its own
            vname = '%s%d' % (vname, round)
        if vname not in self.built:
            wide = self.deep and self.id not in NARROW
            sel = [] if odd else [(r, t) for r, t in C.ALL if (wide or plan.schemas(r.name, t)) and ('vast' not in t or self.id in VAST)]
            sel += randgen.make('%s %d %d' % (self.id, self.seed, round), 40 if odd else plan.random, plan.schemas)
            tags = dict((r.name, t) for r, t in sel)
            sel = [r for r, _ in sel]
            h, dropped = self.build(vname, include, sel, plan.mask, flags=plan.flags, opt=plan.opt)
            if h is None:
                return
            self.built[vname] = (h, h.records, tags)
            if dropped:
                self.rejections(dropped, include, sel)
            self.cover['schemas'] += len(h.records) if full else 0
        h, recs, tags = self.built[vname]
        specs = [r.spec() for r in recs]

        part = 1 if full else 3
        ss = self.sessions(rng, recs, tags, part)
        mcs = self.behaviours(recs, specs, rng, full)
        self.run_sessions(h, recs, specs, ss, mcs, include)
        for x in plan.extra:
            if x == 'programs' and round:
                continue
            getattr(self, 'extra_' + x)(include, vname, recs, rng, full)

    def rejections(self, dropped, include, sel):
        if self.id == 'C17':
            for n, err in dropped[:3]:
                self.violation('%s is well formed and does not compile: %s' % (n, err), {'kind': 'compile', 'schema': n})
        elif self.id == 'C18':
            by = {r.name: r for r in sel}
            one = [by[n] for n, _ in dropped[:4]]
            try:
                build.Harness(self.scratch, 'one', include, one, kinds=1).compile()
            except Rejected as e:
                one = [r for r in one if r.name not in dict(e.names)]
            for r in one[:2]:
                self.violation('%s can be cast on a standard stream but not on every stream kind: %s' % (
                    r.name, dict(dropped)[r.name]), {'kind': 'compile', 'schema': r.name})
        self.notes.append('not compiled: ' + ', '.join(n for n, _ in dropped))

    def sessions(self, rng, recs, tags, part):
        plan = self.plan
        out = []
        mult = 3 if self.deep else 1
        for g, n in plan.sessions.items():
            if not n:
                continue
            n = max(1, n * mult // part)
            f = getattr(gen, g)
            for i in range(len(recs)):
                for _ in range(n):
                    kind = rng.choice(plan.kinds)
                    if g in ('frames', 'through'):
                        x = f(rng, recs, [i] + rng.sample(range(len(recs)), 2), kind)
                    else:
                        x = f(rng, recs, i, kind)
                    out += x if isinstance(x, list) else [x]
        for i, r in enumerate(recs):
            t = tags[r.name]
            if plan.big and 'big' in t:
                out += gen.big_sessions(rng, recs, i, plan.kinds, plan.big if part == 1 else plan.big[:2])
            elif plan.big and self.id == 'C08' and part == 1:
                out += gen.big_sessions(rng, recs, i, plan.kinds, (127, 128, 255, 256, 300))
        rng.shuffle(out)
        return out

    def behaviours(self, recs, specs, rng, full):
        plan = self.plan
        if not plan.mc:
            return []
        key = json.dumps(specs)
        if key not in self.beh:
            jobs = []
            b = plan.budget * (6 if self.deep else 1)
            for i, r in enumerate(recs):
                jobs += mc.jobs_for(i, r, plan.mc, b)
            beh, g, d = mc.run(self.scratch, specs, jobs)
            self.transitions += g
            self.states += d
            self.beh[key] = (beh, jobs)
        beh, jobs = self.beh[key]
        return mc.sessions(beh, jobs, plan.kinds, rng)

    def run_sessions(self, h, recs, specs, ss, mcs, include):
        plan = self.plan
        if 'same' in plan.laws:
            ss, mcs, groups = self.multiply(ss)
        else:
            groups = []
        both = ss + [s for s, _ in mcs]
        logs, crashes = drive.run(h.exe, self.scratch, both, recs)
        for i, why in crashes.items():
            if i == 'exit':
                self.violation('memory is leaked: ' + why, {'kind': 'leak'})
            elif self.id not in ('C16', 'C17'):
                s = both[i]
                self.violation('%s: the call never returned: %s' % (recs[s.calls[0][1]].name, why), self.replay_of(s, recs))
        self.cover['sessions'] += len(logs)
        for i in logs:
            for c in logs[i]:
                self.cover['calls'] += 1
                k = c['op'] + ' ' + ('ok' if c['ok'] else c['r'])
                self.outcomes[k] = self.outcomes.get(k, 0) + 1
        # recorded runs against the machine
        lines = [drive.trace_line(i, ss[i], logs[i]) for i in range(len(ss)) if i in logs]
        bad = []
        if lines:
            acc, diff, g, d = tlc.validate(self.scratch, specs, lines)
            self.transitions += g
            self.states += d
            self.traces += len(lines)
            for i in range(len(ss)):
                if i in logs and i not in acc:
                    if i not in diff:
                        raise ToolError('Trace.tla neither accepted nor rejected session %d' % i)
                    x = max(diff[i], key=lambda x: x['ci'])
                    n = x['ci'] - 1
                    m = Mismatch(recs[ss[i].calls[n][1]].name, ss[i], n, logs[i][n], x['d'], x['res'], 'trace')
                    if plan.relevant(m):
                        bad.append((m, None))
            if lines and len(self.samples) < 2:
                k = next((k for k in range(len(ss)) if k in logs and len(logs[k]) > 1), None)
                if k is not None:
                    self.samples.append({'session': ss[k].text(k, recs).split('\n')[:6], 'schema': recs[ss[k].calls[0][1]].name,
                                         'logged': [{x: c[x] for x in ('op', 'ok', 'r', 'at', 'app', 'rp')} for c in logs[k]],
                                         'accepted': k in acc})
        # behaviours of the machine against the code
        for k, (s, hists) in enumerate(mcs):
            i = len(ss) + k
            if i not in logs:
                continue
            self.cover['behaviours_replayed'] += 1
            self.traces += 1
            r = mc.compare(s, logs[i], hists)
            if r:
                n, d, exp = r
                n = min(n, len(logs[i]) - 1)
                m = Mismatch(recs[s.calls[n][1]].name, s, n, logs[i][n], d, exp, 'behaviour')
                if m.op == 'W' and m.ok and 'bytes' in m.d and exp['t'] == 'ok':
                    m.d.add('layout')
                if plan.relevant(m):
                    bad.append((m, hists))
        if bad:
            self.confirm(h, recs, specs, bad, include)
        groups += self.law_groups(both, logs, recs, h)
        if groups:
            self.judge_laws(groups, specs, recs, h, both, include)

    # ------------------------------------------------------------ confirming
    def replay_of(self, s, recs, **k):
        used = sorted({c[1] for c in s.calls})
        d = {'kind': 'session', 'schemas': [recs[i].name for i in used], 'tier': self.tier, 'seed': self.seed, 'stream': s.kind, 'cap': s.cap, 'rp': s.rp, 'init': s.init, 'tag': s.tag,
             'calls': [[c[0], recs[c[1]].name] + list(c[2:]) for c in s.calls]}
        d.update(k)
        return d

    def confirm(self, h, recs, specs, bad, include):
        """report only what a second run repeats"""
        rng = random.Random(1)
        seen, some = set(), []
        for m, hists in sorted(bad, key=lambda x: sum(len(str(c)) for c in x[0].session.calls)):
            key = (m.record, m.op, m.r, m.xr, m.at == m.xat)
            if key not in seen:
                seen.add(key)
                some.append((m, hists))
        some = some[:12]
        again, crashes = drive.run(h.exe, self.scratch, [m.session for m, _ in some], recs, jobs=1)
        lines = [drive.trace_line(i, some[i][0].session, again[i]) for i in again]
        acc, diff, _, _ = tlc.validate(self.scratch, specs, lines, tag='again')
        for i, (m, hists) in enumerate(some):
            if i in crashes or (i in again and i not in acc):
                self.violation(m.describe(), self.replay_of(
                    m.session, recs, got=again.get(i), expected=diff.get(i), source=m.source, headers=include))
            elif hists is not None and i in again and mc.compare(m.session, again[i], hists):
                self.violation(m.describe(), self.replay_of(m.session, recs, got=again[i], expected=hists, headers=include))

    # ------------------------------------------------------------ laws
    @staticmethod
    def took(calls, rp):
        out = []
        for c in calls:
            d = dict(c)
            if c['op'] == 'R':
                d['took'] = c['rp'] - rp if c['ok'] else 0
                rp = c['rp']
            else:
                d['took'] = len(c['app'])
            out.append(d)
        return out

    def multiply(self, ss):
        """the same session on every kind of stream"""
        out, groups = [], []
        for s in ss:
            kinds = [k for k in self.plan.kinds if s.cap < 0 or k != 3]
            g = {'law': 'same', 'members': []}
            for k in kinds:
                t = gen.Session(s.calls, k, s.cap, s.init, s.tag, s.rp)
                g['members'].append(len(out))
                out.append(t)
            groups.append(g)
        return out, [], groups

    def law_groups(self, ss, logs, recs, h):
        out = []
        for i, s in enumerate(ss):
            if i not in logs:
                continue
            ops = ''.join(c[0] for c in s.calls)
            if 'roundtrip' in self.plan.laws and len(ops) == 2 and ops[0] in 'WM' and ops[1] == 'R' \
                    and s.calls[0][1:3] == s.calls[1][1:3] and s.rp == len(s.init):
                out.append({'law': 'roundtrip', 'members': [i]})
            if 'writeback' in self.plan.laws and ops.startswith('RB'):
                out.append({'law': 'writeback', 'members': [i]})
            if 'frames' in self.plan.laws and s.tag != 'through':
                n = len(ops) // 2
                if ops == 'W' * n + 'R' * n and all(s.calls[k][1:3] == s.calls[n + k][1:3] for k in range(n)):
                    out.append({'law': 'frames', 'members': [i], 'n': n})
            if 'alone' in self.plan.laws and len(ops) > 1:
                out.append({'law': 'alone', 'members': [i]})
        return out

    def solo(self, s, calls):
        """each call of a session on a stream of its own"""
        out = []
        buf, rp = list(s.init), s.rp
        for c, want in zip(calls, s.calls):
            if c['op'] == 'R':
                out.append(gen.Session([want], s.kind, -1, buf[rp:]))
                rp = c['rp']
            else:
                out.append(gen.Session([want], s.kind))
                buf = buf + c['app']
        return out

    def law_lines(self, groups, logs, ss, recs, h):
        lines = []
        solos, where = [], {}
        for k, g in enumerate(groups):
            if g['law'] == 'alone':
                i = g['members'][0]
                if i in logs and ss[i].cap < 0:
                    where[k] = len(solos)
                    solos += self.solo(ss[i], logs[i])
        slogs = drive.run(h.exe, self.scratch, solos, recs)[0] if solos else {}
        for k, g in enumerate(groups):
            ms = g['members']
            if any(i not in logs for i in ms):
                continue
            i = ms[0]
            d = {'id': k, 'law': g['law'], 'init': ss[i].init, 'rp': ss[i].rp, 'cap': ss[i].cap, 'n': g.get('n', 0), 'want': g.get('want', [])}
            if g['law'] == 'same':
                d['runs'] = [self.took(logs[j], ss[j].rp) for j in ms] + [self.took(c, 0) for c in g.get('more', [])]
            else:
                d['calls'] = self.took(logs[i], ss[i].rp)
            if g['law'] == 'alone':
                if k not in where:
                    continue
                al = [slogs.get(where[k] + n) for n in range(len(logs[i]))]
                if any(x is None for x in al):
                    continue
                d['alone'] = [self.took(x, 0)[0] for x in al]
            lines.append((k, json.dumps(d, separators=(',', ':'))))
        return lines

    def judge(self, lines, specs, tag=''):
        if not lines:
            return set()
        sp = os.path.join(self.scratch, tag + 'law_schemas.json')
        with open(sp, 'w') as f:
            json.dump(specs, f)
        n = max(1, min(build.JOBS, max(len(lines) // 200, sum(len(x) for _, x in lines) // 2000000)))
        order = sorted(range(len(lines)), key=lambda i: -len(lines[i][1]))
        envs = []
        for k in range(n):
            p = os.path.join(self.scratch, '%sgroups%d.ndjson' % (tag, k))
            with open(p, 'w') as f:
                f.write('\n'.join(lines[i][1] for i in order[k::n]) + '\n')
            envs.append({'SCHEMAS': sp, 'GROUPS': p})
        out, g, d, _ = tlc.sharded(self.scratch, 'Laws', LAWS_CFG, envs, tag=tag)
        self.transitions += g
        self.states += d
        held = {int(x[6:]) for x in out if x.startswith('HOLDS ')}
        broken = {int(x[7:]) for x in out if x.startswith('BROKEN ')}
        if len(held | broken) != len(lines):
            raise ToolError('Laws.tla judged %d of %d groups' % (len(held | broken), len(lines)))
        return broken

    def judge_laws(self, groups, specs, recs, h, ss, include, logs=None):
        if logs is None:
            logs = self._logs_for(groups, ss, recs, h)
        lines = self.law_lines(groups, logs, ss, recs, h)
        if not lines:
            return
        self.cover['laws'] += len(lines)
        broken = self.judge(lines, specs)
        if not broken:
            return
        some = sorted(broken, key=lambda k: sum(len(str(c)) for c in ss[groups[k]['members'][0]].calls))[:6]
        sub = [groups[k] for k in some]
        logs = self._logs_for(sub, ss, recs, h)
        again = self.judge(self.law_lines(sub, logs, ss, recs, h), specs, tag='again')
        for k in sorted(again):
            g = sub[k]
            i = g['members'][0]
            s = ss[i]
            self.violation('%s: the law "%s" is broken by %s' % (
                '/'.join(sorted({recs[c[1]].name for c in s.calls})), g['law'],
                ' then '.join('%s %s' % ('read' if c[0] == 'R' else 'write', 'big-endian' if c[2] else 'little-endian') for c in s.calls)),
                self.replay_of(s, recs, law=g['law'], got=[logs.get(j) for j in g['members']], more=g.get('more'), want=g.get('want'), headers=include))

    def _logs_for(self, groups, ss, recs, h):
        ids = sorted({i for g in groups for i in g['members']})
        lg, _ = drive.run(h.exe, self.scratch, [ss[i] for i in ids], recs)
        return {ids[k]: v for k, v in lg.items()}

    # ------------------------------------------------------------ extras
    def extra_known(self, include, vname, recs, rng, full):
        """the recorded finding: predicates over a nested record's filled slots"""
        r = C.KNOWN['kf_nested_slot']
        h, _ = self.build('known_' + vname, include, [r], 3)
        if h is None or not h.records:
            return
        ss = []
        for _ in range(60):
            ss.append(gen.write_read(rng, [r], 0, rng.choice([0, 1])))
            ss.append(gen.stale_write(rng, [r], 0, rng.choice([0, 1])))
            ss.append(gen.read_bytes(rng, [r], 0, rng.choice([0, 1])))
        logs, crashes = drive.run(h.exe, self.scratch, ss, [r])
        acc, diff, g, d = tlc.validate(self.scratch, [r.spec()], [drive.trace_line(i, ss[i], logs[i]) for i in logs], tag='known')
        self.transitions += g
        self.states += d
        found = 0
        bad = []
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            listed = any(x.startswith('finding: property=%s kf_nested_slot' % self.id) for x in f)
        for i in logs:
            if i in acc:
                continue
            x = max(diff[i], key=lambda x: x['ci'])
            n = x['ci'] - 1
            m = Mismatch(r.name, ss[i], n, logs[i][n], x['d'], x['res'], 'trace')
            if listed and C.known_nested_slot(m):
                found += 1
            elif self.plan.relevant(m):
                bad.append((m, None))
        if bad:
            self.confirm(h, [r], [r.spec()], bad, include)
        if found and vname == 'include':
            self.known.append(C.KNOWN_TEXT['kf_nested_slot'])

    def extra_default_bound(self, include, vname, recs, rng, full):
        """the configured default ceiling"""
        own = [r for r, t in C.ALL if 'default' in t]
        limit = 100
        saved = dsl.Bounded.default_bound
        dsl.Bounded.default_bound = limit
        try:
            h, _ = self.build('default_' + vname, include, own, 3, defines=['S2S_DEFAULT_MAX_BYTES=%d' % limit])
            own = h.records
            ss = []
            for i in range(len(own)):
                for _ in range(60 if full else 20):
                    ss.append(gen.lengths(rng, own, i, rng.choice([0, 1])))
                for _ in range(12):
                    ss.append(gen.write_read(rng, own, i, rng.choice([0, 1])))
            self.run_sessions(h, own, [r.spec() for r in own], ss, [], include)
        finally:
            dsl.Bounded.default_bound = saved

    def extra_bulk(self, include, vname, recs, rng, full):
        """containers of thousands of elements, judged by the functional laws"""
        own = [i for i, r in enumerate(recs) if r.name.startswith('bk_')]
        if not own:
            return
        counts = gen.BULK if self.deep else rng.sample(gen.BULK, 3) + [4097]
        if not full:
            own, counts = rng.sample(own, min(3, len(own))), counts[:2]
        todo = []
        for i in own:
            cs = list(counts)
            if recs[i].name in ('bk_vec', 'bk_str'):
                cs = list(gen.VAST) + cs if self.deep else [rng.choice(gen.VAST), cs[0]]
            todo += gen.bulk_sessions(rng, recs, i, self.plan.kinds, cs, self.plan.bulk)
        ss, groups = [], []
        for law, s, x in todo:
            if self.id == 'C20':
                law = 'returns'
            g = {'law': law, 'members': [len(ss)]}
            if law == 'frames':
                g['n'] = x
            elif law == 'decode':
                g['want'] = x
            ss.append(s)
            if law == 'same':
                for k in self.plan.kinds:
                    if k != s.kind:
                        g['members'].append(len(ss))
                        ss.append(gen.Session(s.calls, k))
            groups.append(g)
        h = self.built[vname][0]
        logs, crashes = drive.run(h.exe, self.scratch, ss, recs)
        for i, why in crashes.items():
            if i == 'exit':
                self.violation('memory is leaked: ' + why, {'kind': 'leak'})
            else:
                self.violation('%s: the call never returned: %s' % (recs[ss[i].calls[0][1]].name, why), self.replay_of(ss[i], recs))
        self.cover['bulk'] = self.cover.get('bulk', 0) + len(logs)
        self.traces += len(logs)
        self.judge_laws(groups, [r.spec() for r in recs], recs, h, ss, include, logs)

    def extra_together(self, include, vname, recs, rng, full):
        """the same session in several threads, each on a stream of its own"""
        own = [r for r in recs if dsl_small(r)]
        own = rng.sample(own, min(len(own), 40 if self.deep else 16 if full else 6))
        h, _ = self.build('together_' + vname, include, own, 7, flags=('-fsanitize=thread',))
        own = h.records
        ss = []
        for i in range(len(own)):
            for _ in range(4):
                for g in (gen.write_read, gen.read_bytes, gen.stale_write, gen.read_back, gen.refused_write):
                    x = g(rng, own, i, rng.choice([0, 1, 2]))
                    ss += x if isinstance(x, list) else [x]
        got = drive.together(h.exe, self.scratch, ss, own)
        if got is None:
            self.notes.append('no thread sanitizer here: plain threads')
            h, _ = self.build('together_' + vname, include, own, 7)
            got = drive.together(h.exe, self.scratch, ss, own, 6) or ({}, None)
        logs, race = got
        if race:
            again = drive.together(h.exe, self.scratch, ss, own)
            if again and again[1] and ('s2s::' in race or 'ended' in race):
                self.violation('casts in different threads, on different streams, are not independent: %s' % (
                    next((x.strip() for x in race.split('\n') if 's2s::' in x or 'SUMMARY' in x), race[:200])[:300]),
                    {'kind': 'threads', 'schemas': [r.name for r in own], 'report': race[:6000]})
            return
        alone, _ = drive.run(h.exe, self.scratch, ss, own)
        groups = [{'law': 'same', 'members': [i], 'more': logs[i]} for i in logs if i in alone]
        self.cover['threads'] = self.cover.get('threads', 0) + sum(len(v) for v in logs.values())
        self.traces += len(groups)
        self.judge_laws(groups, [r.spec() for r in own], own, h, ss, include, alone)

    def extra_access(self, include, vname, recs, rng, full):
        facts = static.access_facts(os.path.join(self.scratch, 'access_' + vname), include, recs)
        broken, g, d = static.judge(self.scratch, facts)
        self.transitions += g
        self.states += d
        self.cover['access_facts'] = self.cover.get('access_facts', 0) + len(facts)
        self.traces += len(facts)
        self.samples.append({k: facts[len(facts) // 2][k] for k in ('rec', 'id', 'seen')})
        for k in sorted(broken)[:5]:
            f = facts[k]
            self.violation('%s["%s"]: the compiler grants %s, the schema %s' % (f['rec'], f['id'], f['seen'], broken[k]),
                           {'kind': 'access', 'schema': f['rec'], 'id': f['id'], 'seen': f['seen'], 'expected': broken[k]})

    def extra_programs(self, include, vname, recs, rng, full):
        progs = static.programs()
        if not (self.deep or full):
            progs = static.pick(progs, 90, rng)
        dir = os.path.join(self.scratch, 'programs_' + vname)
        # a schema is refused where it is declared; one that is not is usable in both directions
        declared = static.compile_programs(dir, include, progs, text=static.declaration_text)
        used = [p for p, (a, _) in zip(progs, declared) if a]
        what = ['declaration'] * len(progs) + ['program'] * len(used)
        res = declared + static.compile_programs(dir, include, used)
        progs = progs + used
        facts = [{'fact': 'compiles', 'fs': q.spec(), 'seen': a} for (w, q), (a, _) in zip(progs, res)]
        broken, g, d = static.judge(self.scratch, facts)
        self.transitions += g
        self.states += d
        self.traces += len(facts)
        self.cover['programs'] = self.cover.get('programs', 0) + len(facts)
        self.cover['programs_rejected'] = self.cover.get('programs_rejected', 0) + sum(1 for a, _ in res if not a)
        self.samples += [{'program': progs[k][0], 'accepted': res[k][0], 'diagnostic': res[k][1][:200]} for k in (0, len(progs) // 2)]
        for k in sorted(broken)[:5]:
            w, q = progs[k]
            text = static.program_text if what[k] == 'program' else static.declaration_text
            alone, = static.compile_programs(dir, include, [progs[k]], 1, text)
            if alone[0] != res[k][0]:
                self.notes.append('%s: batch and separate compilation disagree' % w)
                continue
            self.violation('%s: the compiler %s the %s, the specification says %s' % (
                w, 'accepts' if res[k][0] else 'rejects', what[k], 'well formed' if broken[k] else 'ill formed'),
                {'kind': 'program', 'text': text(q), 'diagnostic': res[k][1]})

    def extra_constant(self, include, vname, recs, rng, full):
        """the same calls during constant evaluation"""
        cases, groups, ss = [], [], []
        idx = [i for i, r in enumerate(recs) if C.constant_ok(r) and not r.name.startswith('rg_')]
        if not self.deep:
            idx = sorted(rng.sample(idx, min(len(idx), 40 if full else 15)))
        n = 4 if self.deep else 2
        for i in idx:
            for k in range(n):
                for s in (gen.write_read(rng, recs, i, 2), gen.read_bytes(rng, recs, i, 2), gen.refused_write(rng, recs, i, 2)):
                    if s.tag == 'refuse' and k:
                        continue
                    cap = s.cap if s.tag == 'refuse' else -1
                    init = s.init if s.tag == 'read' else []
                    if len(init) > 400 or len(str(s.calls[0])) > 4000:
                        continue
                    cases.append((len(cases), s.calls[0], init, cap))
        if not cases:
            return
        logs, bad = constant.run(os.path.join(self.scratch, 'ce_' + vname), include, recs, cases)
        for n, err in bad[:3]:
            c = cases[n]
            self.violation('%s: not a constant expression: %s' % (recs[c[1][1]].name, err), self.replay_of(
                gen.Session([c[1]], 2, c[3], c[2]), recs, constant=True))
        self.cover['constant_evaluations'] = self.cover.get('constant_evaluations', 0) + len(logs)
        h = self.built[vname][0]
        for n, c, init, cap in cases:
            if n in logs:
                g = {'law': 'same', 'members': [], 'more': [[logs[n]]]}
                for k in (0, 1, 2):
                    g['members'].append(len(ss))
                    ss.append(gen.Session([c], k, cap, init))
                groups.append(g)
        if groups:
            self.traces += len(groups)
            self.judge_laws(groups, [r.spec() for r in recs], recs, h, ss, include)

    # ------------------------------------------------------------ all of it
    def run(self):
        vs = build.variants(self.scratch)
        deadline = self.start + float(os.environ.get('VERIF_BUDGET', '1500'))
        n = 0
        while True:
            for k, (vname, inc) in enumerate(vs):
                self.variant(vname, inc, k == 0, n)
                if self.violations:
                    return self.finish()
            n += 1
            self.cover['rounds'] = n
            if not self.deep or time.time() > deadline:
                break
        return self.finish()


def dsl_small(r):
    """nothing that compiles or runs slowly under a sanitizer"""
    return not r.name.startswith('bk_') and build.weight(r) < 25


VAST = {'C08', 'C11', 'C12', 'C14', 'C16', 'C17'}
NARROW = {'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15'}


def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        import replay
        return replay.main(sys.argv[2])
    id = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % id)
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    try:
        return Check(id, tier, seed, scratch).run()
    except ToolError as e:
        print('no answer: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
