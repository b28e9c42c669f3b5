#!/usr/bin/env python3
"""Mutation campaign over /repo's sources, in scratch copies.

  mutate.py list                      how many mutants there are
  mutate.py run WORKERS LOG [SUBSTR]  try every mutant (whose place contains SUBSTR);
                                      one JSON line each in LOG, resumable
  mutate.py left LOG                  those that neither tests nor checks noticed
"""
import json, os, re, subprocess, sys, shutil, pathlib, random
from concurrent.futures import ThreadPoolExecutor
import threading

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = pathlib.Path('/repo')
ALL = ['P%02d' % i for i in range(1, 47)]
FIRST = [
    ('number_type', 'P01 P03 P04'), ('vector_2', 'P02 P03'), ('kernel/point_2', 'P04 P05'), ('vertex_2', 'P05 P42'),
    ('line_2_line_2', 'P18'), ('line_2_ray', 'P19'), ('line_segment_2_ray', 'P20'), ('kernel/line', 'P06 P09 P18'),
    ('triangle_2', 'P07 P12'), ('kernel/arc', 'P08 P15'), ('kernel/circle', 'P08 P14'), ('kernel/ray', 'P10 P06'),
    ('location/point_2_line_2', 'P09'), ('location/point_2_ray', 'P10'), ('location/point_2_line_segment', 'P11'),
    ('location/point_2_triangle', 'P12'), ('location/point_2_polygon', 'P13'), ('location/point_2_circle', 'P14'),
    ('location/point_2_arc', 'P15'), ('projection/point_2_line_2', 'P16'), ('projection/point_2_line_segment', 'P17'),
    ('line_segment_2_line_segment', 'P21'), ('line_segment_2_circle', 'P22'), ('circle_segment_2_circle', 'P23'),
    ('arc_segment_2', 'P24 P25'), ('segment_2_segment_2', 'P24 P25 P21'), ('sweep', 'P32 P33 P34 P45'), ('polygon_2', 'P26 P27 P28'),
    ('convex_hull', 'P29 P44'), ('earcut', 'P30 P31'), ('avl', 'P35'), ('priority', 'P36'), ('circular', 'P37'),
    ('edge_2', 'P42'), ('face_2', 'P42'), ('vertex_2', 'P42'),
]
SWAPS = [
    (r' < ', [' <= ', ' > ']), (r' <= ', [' < ', ' >= ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ', ' <= ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ ', [' - ', ' * ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
    (r'(?<=[(\s])!(?=[a-zA-Z(])', ['']), (r'(?<=[(\s])-(?=[a-zA-Z])', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\bLeft\b', ['Right']), (r'\bRight\b', ['Left']), (r'::Inside\b', ['::Outside', '::On']), (r'::Outside\b', ['::Inside', '::On']),
    (r'::On\b', ['::Outside', '::Collinear']), (r'::Collinear\b', ['::On', '::Left']),
    (r'::Clockwise\b', ['::CounterClockwise']), (r'::CounterClockwise\b', ['::Clockwise']),
    (r'::Less\b', ['::Greater', '::Equal']), (r'::Greater\b', ['::Less', '::Equal']), (r'::Equal\b', ['::Less']),
    (r'::Convex\b', ['::Reflex', '::Ear']), (r'::Reflex\b', ['::Convex']), (r'::Ear\b', ['::Convex']),
    (r'\.source\(\)', ['.target()']), (r'\.target\(\)', ['.source()']), (r'\.x\(\)', ['.y()']), (r'\.y\(\)', ['.x()']),
    (r'\.source_radian\(\)', ['.target_radian()']), (r'\.target_radian\(\)', ['.source_radian()']),
    (r'segment_a\b', ['segment_b']), (r'segment_b\b', ['segment_a']), (r'\bis_top\b', ['is_bottom_NONE']),
    (r'\.next\b', ['.prev']), (r'\.prev\b', ['.next']), (r'\.left\b', ['.right']), (r'\.right\b', ['.left']),
    (r'\bprev\b', ['next']), (r'\bnext\b', ['prev']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\bsin\(\)', ['cos()']), (r'\bcos\(\)', ['sin()']),
    (r'\.abs\(\)', ['']), (r'T::zero\(\)', ['T::default_eps()', 'T::from_f64(1.0)']), (r'\beps\b', ['T::zero()']), (r'T::default_eps\(\)', ['T::zero()']),
    (r'\.equals\(&?([^()]*(?:\([^()]*\)[^()]*)*)\)', [' == \\1']), (r'from_f64\(2\.0\)', ['from_f64(1.0)']), (r'from_f64\(1\.0\)', ['from_f64(2.0)']),
    (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])2(?![\w.])', ['1', '3']), (r'(?<![\w.])3(?![\w.])', ['2', '4']),
    (r'\.is_empty\(\)', ['.len() == 1']), (r'\.iter\(\)', ['.iter().skip(1)']), (r'\bsource\b', ['target']), (r'\btarget\b', ['source']),
    (r'\bsource_radian\b', ['target_radian']), (r'\btarget_radian\b', ['source_radian']), (r'is_some\(\)', ['is_none()']), (r'is_none\(\)', ['is_some()']),
    (r'\.sqrt\(\)', ['']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'insert_right', ['insert_left']), (r'LineSegment2', ['ArcSegment2']),
    (r'\bmid_order_traversal\b', ['pre_order_traversal']), (r'\bSome\((\w+)\) =>', ['Some(\\1) if false =>']),
]


def mutants():
    out = []
    for f in sorted((REPO / 'src').rglob('*.rs')):
        rel = str(f.relative_to(REPO))
        lines = f.read_text().split('\n')
        infn = False
        for n, line in enumerate(lines):
            if '#[cfg(test)]' in line:
                break
            s = line.strip()
            if re.match(r'(use|mod|pub mod|//|#|pub struct|struct|pub enum|enum|impl|pub trait|trait|fn|pub fn|where|type)\b', s) or not s or s.startswith('//') or s.startswith('#'):
                continue
            seen = {line}
            for pat, reps in SWAPS:
                for m in re.finditer(pat, line):
                    for r in reps:
                        new = line[:m.start()] + m.expand(r) + line[m.end():]
                        if new not in seen:
                            seen.add(new)
                            out.append((rel, n, line, new))
            # Delete a statement.
            if s.endswith(';') and not s.startswith('let ') and s not in ('};', ');', '});') and lines[n - 1].strip()[-1:] in ('{', '}', ';'):
                out.append((rel, n, line, ''))
            if re.match(r'(\} else )?if .*\{$', s) and ' let ' not in s:
                out.append((rel, n, line, re.sub(r'if .*\{$', 'if false {', line)))
                out.append((rel, n, line, re.sub(r'if .*\{$', 'if true {', line)))
    return out


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(['timeout', '-k', '5', str(timeout), 'bash', '-c', cmd], cwd=cwd, env=e, capture_output=True, text=True)
        return p.returncode, p.stdout + p.stderr
    except Exception as ex:
        return 99, str(ex)


def setup(k):
    w = f'/tmp/mut/w{k}'
    if not os.path.exists(w):
        os.makedirs(w)
        sh(f'git clone -q /repo {w}/repo; cp /repo/Cargo.lock {w}/repo/ 2>/dev/null')
        os.makedirs(f'{w}/verif')
        sh(f'cp -a {VERIF}/harness {VERIF}/check.sh {VERIF}/wasm {VERIF}/properties.jsonl {VERIF}/known-findings.txt {w}/verif/')
        sh(f"sed -i 's|/repo|{w}/repo|g' {w}/verif/harness/Cargo.toml {w}/verif/check.sh")
        sh(f'rm -rf {w}/verif/harness/target')
        print(sh(f'./check.sh --build', cwd=f'{w}/verif')[1])
    return w


def one(w, m):
    rel, n, old, new = m
    p = pathlib.Path(w, 'repo', rel)
    text = p.read_text()
    lines = text.split('\n')
    assert lines[n] == old
    lines[n] = new
    p.write_text('\n'.join(lines))
    try:
        if '/wasm' in rel:
            rc, o = sh(f'CARGO_TARGET_DIR={w}/verif/target/wasm RUSTUP_TOOLCHAIN=1.98.0 cargo build --release --lib --target wasm32-unknown-unknown --offline --locked', cwd=f'{w}/repo')
            if rc:
                return 'nobuild', ''
            order = ['P41']
        else:
            rc, o = sh(f'CARGO_TARGET_DIR={w}/ttarget cargo test --offline -q --lib --no-run', cwd=f'{w}/repo', timeout=300)
            if rc:
                return 'nobuild', ''
            rc, o = sh(f'ulimit -v 8000000; CARGO_TARGET_DIR={w}/ttarget timeout -k 2 30 cargo test --offline -q --lib', cwd=f'{w}/repo', timeout=60)
            if rc:
                return 'tests', ''
            first = []
            for s, ids in FIRST:
                if s in rel:
                    first += [i for i in ids.split() if i not in first]
            order = first + [i for i in ALL if i not in first and i != 'P41']
        for i in order:
            rc, o = sh(f'./check.sh {i}', cwd=f'{w}/verif', env={'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'VERIF_DIR': f'{w}/verif'})
            if rc == 1 and f'VIOLATION property={i} ' in o:
                return 'caught', i
            if rc != 0:
                return f'rc{rc}', i + ' ' + o[-300:]
        return 'LEFT', ''
    finally:
        p.write_text(text)


def run(workers, log, sub=''):
    done = set()
    if os.path.exists(log):
        for l in open(log):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    todo = [m for m in mutants() if sub in m[0] and (m[0], m[1] + 1, m[3]) not in done]
    random.Random(1).shuffle(todo)
    print(len(todo), 'to do', flush=True)
    lock = threading.Lock()

    def work(k):
        w = setup(k)
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            res, by = one(w, m)
            with lock, open(log, 'a') as f:
                f.write(json.dumps({'file': m[0], 'line': m[1] + 1, 'old': m[2], 'new': m[3], 'result': res, 'by': by}) + '\n')

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, range(workers)))


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        from collections import Counter
        c = Counter(m[0] for m in mutants())
        for f, n in c.most_common():
            print(n, f)
        print(sum(c.values()))
    elif sys.argv[1] == 'run':
        run(int(sys.argv[2]), sys.argv[3], *sys.argv[4:])
    else:
        for l in open(sys.argv[2]):
            d = json.loads(l)
            if d['result'] not in ('caught', 'tests', 'nobuild'):
                print(f"{d['file']}:{d['line']} {d['result']} {d['by']}\n  - {d['old'].strip()}\n  + {d['new'].strip()}")
