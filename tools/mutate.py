#!/usr/bin/env python3
"""Mutation campaign (development aid; not part of any check).
usage: mutate.py OUT.jsonl N SEED [file-filter]
Runs inside a private mount namespace where /repo and /verif are scratch copies (see mutate.sh):
random one-place edits of /repo/src that still compile and pass the tests, then the checks of the
properties that concern that file until one reports a violation."""
import json, os, random, re, subprocess, sys
MAP = {
 'src/api/block.rs': ['C09', 'C10', 'C11', 'C14', 'C24', 'C03', 'C21', 'C22', 'C23'], 'src/api/component.rs': ['C14', 'C15', 'C24', 'C22'], 'src/api/mod.rs': ['C16', 'C17', 'C18', 'C22', 'C15', 'C21', 'C24', 'C23'], 'src/api/screen.rs': ['C15', 'C18', 'C14', 'C16', 'C21', 'C22', 'C24', 'C23'],
 'src/api/view.rs': ['C13', 'C12', 'C14', 'C18', 'C22', 'C21', 'C24', 'C23'], 'src/color.rs': ['C08', 'C14', 'C03', 'C24', 'C23'], 'src/lib.rs': ['C01', 'C02', 'C24'], 'src/util.rs': ['C05', 'C03'], 'src/parser/file.rs': ['C06', 'C08', 'C18', 'C03', 'C20', 'C21', 'C24'], 'src/parser/library.rs': ['C06', 'C18', 'C03', 'C20', 'C21', 'C24', 'C23'],
 'src/parser/logic.rs': ['C04', 'C18', 'C03', 'C08', 'C20', 'C21', 'C24', 'C23'], 'src/parser/mod.rs': ['C17', 'C16', 'C01', 'C19', 'C24', 'C23'], 'src/parser/project.rs': ['C07', 'C08', 'C23'], 'src/parser/resource.rs': ['C06', 'C18', 'C03', 'C20', 'C21', 'C24', 'C23'], 'src/parser/serde_util.rs': ['C07', 'C08', 'C05', 'C03', 'C20'], 'src/parser/view.rs': ['C05', 'C08', 'C18', 'C03', 'C20', 'C21', 'C24', 'C23'],
}
RULES = [
 (r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r'<=', '<'), (r'>=', '>'), (r'&&', '||'), (r'\|\|(?=[^{]*[a-z.]+\()', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1)), (r' \+ ', ' - '), (r' - ', ' + '), (r'\.push\(', '.insert(0, '), (r'\.is_none\(\)', '.is_some()'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_empty\(\)', '.len() == 1'),
 (r'if !', 'if '), (r'if (?!let|!)', 'if !'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.find\(', '.rfind('), (r'\.trim\(\)', ''), (r'Some\((\w+)\)', 'None'), (r'\.rev\(\)', ''), (r'"([a-zA-Z_@.]+)"', lambda m: '"%s"' % m.group(1)[:-1]), (r'"([a-zA-Z_@.]+)"', lambda m: '"%sx"' % m.group(1)),
 (r'\bheight\b', 'width'), (r'\bwidth\b', 'height'), (r'_left\b', '_right'), (r'_top\b', '_bottom'), (r'\bimages\b', 'sounds'), (r'\bsounds\b', 'fonts'), (r'\bfonts\b', 'images'), (r'sub_stack1', 'sub_stack2'), (r'sub_stack2', 'sub_stack1'), (r'splitn\(2', 'splitn(3'), (r'split_once', 'rsplit_once'), (r'strip_prefix', 'strip_suffix'), (r'starts_with', 'ends_with'), (r'starts_with', 'contains'), (r'ends_with', 'contains'), (r'\bbreak\b', 'continue'), (r'\?;', '.ok();'), (r'return Err\(.*\);$', ';'),
 (r'\.clone\(\)', '.clone().into()'), (r'skip_serializing_if = "[^"]*"', 'skip'), (r'u8::MAX', '0'), (r'\bi32\b', 'i16'), (r'\bu32\b', 'u16'), (r'\.max\(', '.min('), (r'\.or_insert_with\(', '.or_insert_with('),
]
DEL = re.compile(r'^\s+[\w.:&*\[\]()!]+.*;\s*$')
def sites():
    out = []
    for f in MAP:
        L = open('/repo/' + f).read().split('\n'); skip = False
        for i, l in enumerate(L):
            t = l.strip()
            if t.startswith('//') or t.startswith('use ') or t.startswith('pub use'): continue
            if '#[cfg(test)]' in l: skip = True
            if skip: continue
            for k, (a, b) in enumerate(RULES):
                for m in re.finditer(a, l):
                    if '//' in l[:m.start()] or '_before' in l: continue
                    n = l[:m.start()] + re.sub(a, b, l[m.start():], count=1) if not callable(b) else l[:m.start()] + re.sub(a, b, l[m.start():], count=1)
                    if n != l: out.append((f, i, l, n))
            if DEL.match(l) and not t.startswith(('let', 'return', '}', 'pub', 'use', 'type')): out.append((f, i, l, re.match(r'\s*', l).group(0) + ';'))
    return sorted(set(out))
def sh(c, t, **k):
    try: return subprocess.run(c, shell=True, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    except subprocess.TimeoutExpired: return None
def main():
    outf, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); filt = sys.argv[4] if len(sys.argv) > 4 else ''
    S = [x for x in sites() if filt in x[0]]; R = random.Random(seed); R.shuffle(S)
    # spread over files
    by = {}
    for x in S: by.setdefault(x[0], []).append(x)
    order = []
    while any(by.values()):
        for f in list(by):
            for _ in range(1 + len(by[f]) // 150):
                if by[f]: order.append(by[f].pop())
    print('sites', len(S), flush=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.environ.get('MT', '/tmp/mt') + '/testtarget')
    done = set(); cnt = 0
    for (f, i, l, nl) in order:
        if cnt >= n: break
        if (f, i, nl) in done: continue
        done.add((f, i, nl))
        p = '/repo/' + f; src = open(p).read(); L = src.split('\n'); assert L[i] == l; L[i] = nl; open(p, 'w').write('\n'.join(L))
        try:
            r = sh('cd /repo && cargo test --offline 2>&1', 120, env=env)
            if r is None or 'error' in r.stdout and 'could not compile' in r.stdout: continue
            if r.returncode != 0: continue
            cnt += 1; res = dict(file=f, line=i + 1, old=l.strip(), new=nl.strip(), caught=None, rc={})
            b = sh('bash /verif/bin/build_ir.sh', 200)
            if b is None or b.returncode != 0: res['build'] = 'harness does not build'
            else:
                for c in MAP[f]:
                    q = sh('python3 /verif/check.py %s --no-build' % c, 900); rc = q.returncode if q else 'timeout'; res['rc'][c] = rc
                    if rc == 1 and 'VIOLATION' in q.stdout: res['caught'] = c; break
            print(json.dumps(res), flush=True); open(outf, 'a').write(json.dumps(res) + '\n')
        finally: open(p, 'w').write(src)
if __name__ == '__main__': main()
