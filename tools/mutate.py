#!/usr/bin/env python3
"""mutate.py <out> [workers] [every]: small changes to the headers, one at a time, each run
through a cut-down check (a few rich schemas, every generator, any disagreement counts).
Prints one line per change: dead (does not compile), killed, or SURVIVED.  Works on copies of
/repo/include under a scratch directory."""
import os
import random
import re
import shutil
import sys
import tempfile
import zlib
from concurrent.futures import ProcessPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.dont_write_bytecode = True
import build
import catalogue as C
import drive
import dsl
import gen
import tlc

INC = os.path.join(build.REPO, 'include')
STAGES = [['dp_fail', 'un_tags', 'fz_eq', 'cl_union', 'co_spelled', 'xx_narrow_nested', 'bo_u64', 'xx_compute_alts', 'op_bits', 'le_shared3', 'ar_c'],
          ['mx_packet', 'mx_image', 'mx_ladder', 'ua_all', 'cw_i32', 'cw_len_opt', 'bo_rec', 'bo_alt', 'bo_maybe', 'le_signed', 'le_narrow', 'op_chain', 'op_rec',
           'co_arr', 'co_signed', 'co_wide', 'fz_signed', 'fz_bytes', 'fz_narrow', 'le_frozen', 'un_frozen_disc', 'un_len_disc', 'un_neg', 'xx_disc64', 'cl_two', 'cl_ladder',
           'la_tag', 'la_frozen', 'cu_basic', 'cp_frozen', 'cp_derived', 'ar_multi', 'ar_float', 're_vec2', 'dp_tower', 'xx_rec_cons', 'wi_any', 'wi_alts', 'id_long',
           'un_own_con', 'sc_narrow_signed', 'un_two', 'bo_default', 'co_vec', 'xx_frozen_mid', 'fz_str']]
SWAPS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r'<=(?!>)', '<'), (r'>=', '>'), (r'&&', '||'), (r'\|\|', '&&'),
         (r'if\(!', 'if('), (r'if constexpr\(', 'if constexpr(!'), (r'if constexpr\((.*)\)(.*)$', r'if constexpr(true)\2'), (r'if constexpr\((.*)\)(.*)$', r'if constexpr(false)\2'),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r' \+ ', ' - '), (r' - ', ' + '),
         (r' \* ', ' + '), (r'>>', '<<'), (r'as_written<[A-Z]>\{field_list\}', 'field_list'), (r'sizeof\((\w+)\)', '1'),
         (r'make_unsigned_t', 'make_signed_t'), (r'std::size_t', 'std::uint32_t'), (r'std::size_t', 'int'), (r'\.size\(\)', '.size() + 1'),
         (r'error_reason::\w+', 'error_reason::validation_failure'), (r'error_reason::\w+', 'error_reason::buffer_exhaustion'), (r'std::move\((.*?)\)', r'\1'),
         (r'(\s*)return std::unexpected\(.*\);', r'\1;'), (r'^(\s*)(\w[\w.]* = .*;)$', r'\1;'), (r'^(\s*)(obj\.resize.*|field\.value\.resize.*)$', r'\1;')]


def mutants():
    for d, _, fs in sorted(os.walk(INC)):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), INC)
            lines = open(os.path.join(INC, p)).read().split('\n')
            for n, line in enumerate(lines):
                code = line.split('//')[0]
                if not code.strip() or code.lstrip().startswith(('#', '*', 'template', 'using', 'namespace', 'static_assert')) and 'if' not in code:
                    if not re.search(r'requires|= |==', code) or code.lstrip().startswith('#'):
                        continue
                seen = set()
                for a, b in SWAPS:
                    for m in re.finditer(a, code):
                        new = code[:m.start()] + m.expand(b) + code[m.end():]
                        if new != code and new not in seen:
                            seen.add(new)
                            yield p, n, line, new


def judge(include, scratch, names, seed=1):
    recs = [r for r, _ in C.ALL if r.name in names]
    try:
        h = build.Harness(scratch, 'm', include, recs, kinds=7).compile(1)
    except build.Rejected as e:
        return 'dead' if e.names[0][0] == 's2s.hpp' or len(e.names) > len(recs) // 2 else 'killed (compile) ' + e.names[0][0]
    dsl.SIZES.update(h.sizes())
    rng = random.Random(seed)
    ss = []
    for i in range(len(recs)):
        for g in (gen.write_read, gen.stale_write, gen.read_bytes, gen.read_back, gen.refused_write, gen.lengths):
            for _ in range(10):
                ss.append(g(rng, recs, i, rng.choice([0, 1, 2])))
        ss += gen.cuts(rng, recs, i, rng.choice([0, 1, 2]))
    logs, crashes = drive.run(h.exe, scratch, ss, recs, jobs=1)
    if crashes:
        return 'killed (crash)'
    acc, diff, _, _ = tlc.validate(scratch, [r.spec() for r in recs], [drive.trace_line(i, ss[i], logs[i]) for i in logs], jobs=1)
    return 'killed' if len(acc) < len(logs) else ''


def one(k, p, n, old, new):
    scratch = tempfile.mkdtemp(prefix='mut_')
    try:
        inc = os.path.join(scratch, 'include')
        shutil.copytree(INC, inc)
        q = os.path.join(inc, p)
        lines = open(q).read().split('\n')
        lines[n] = new
        open(q, 'w').write('\n'.join(lines))
        for names in STAGES:
            try:
                r = judge(inc, scratch, names)
            except build.ToolError as e:
                r = 'killed (tool) ' + str(e)[:80].replace('\n', ' ')
            if r:
                break
        return k, r or 'SURVIVED', p, n + 1, old.strip(), new.strip()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    out, workers, every = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    done = set()
    if os.path.exists(out):
        done = {x.split('\t')[0] for x in open(out)}
    ms = list(mutants())
    pick = sorted(range(len(ms)), key=lambda k: zlib.crc32(repr(ms[k]).encode()))[:len(ms) // every]
    print(len(ms), 'changes,', len(pick), 'picked', flush=True)
    with ProcessPoolExecutor(workers) as ex, open(out, 'a') as f:
        fs = [ex.submit(one, k, *ms[k]) for k in pick if str(k) not in done]
        for x in as_completed(fs):
            f.write('\t'.join(map(str, x.result())) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
