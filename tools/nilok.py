"""Finds, for each function under contract, the interface parameters for which the
contract also holds on nil, and writes them as //@ nilok lines into
contracts/nilok.go.  Each line is an obligation like any other: the function is
verified without assuming that parameter non-nil."""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = V + '/contracts/nilok.go'
names = set()
for f in glob.glob(V + '/contracts/*.go'):
    for m in re.finditer(r'@ (?:ensures|spec) (\S+)', open(f).read()):
        names.add(m.group(1))
names = sorted(names)

def sweep(mode, which=names):
    env = dict(os.environ)
    if mode is not None: env['VC_NILOK'] = mode
    o = subprocess.run([V + '/bin/vc', 'sweep', 'panic', 'spec', '--'] + which, env=env, capture_output=True, text=True, check=True).stdout
    r = {}
    for l in o.splitlines():
        m = re.match(r'(BAD|UNS) (\S+) (.*)', l)
        if m: r.setdefault(m.group(2), set()).add(re.sub(r' at \S+: .*', '', m.group(3)))
    return r

def write(lines):
    with open(OUT, 'w') as f:
        f.write('package cypher\n\n// Generated by tools/nilok.py: parameters for which the contract of a function\n// covers nil as well.\n\n')
        for n in sorted(lines):
            lines[n] = [p for p in lines[n] if is_iface(n, p)]
            if lines[n]: f.write('//@ nilok %s %s\n' % (n, ' '.join(lines[n])))

# parameters by function
src = ''.join(open(f).read() for f in glob.glob('/repo/*.go') if not f.endswith('_test.go'))
def params(n):
    t, _, m = n.rpartition('.')
    if t: mm = re.search(r'func \((\w+) \*?%s\) %s\(([^)]*)\)' % (re.escape(t), re.escape(m)), src)
    else: mm = re.search(r'func ()%s\(([^)]*)\)' % re.escape(m), src)
    if not mm: return None
    ps = ([mm.group(1)] if mm.group(1) else []) if t else []
    ds = [d.split() for d in mm.group(2).split(',') if d.strip()]
    t = ''
    for w in reversed(ds):
        if len(w) > 1: t = w[-1]
        w[1:] = [t]
    return ps + [w[0] for w in ds]

ifaces = set(re.findall(r'type (\w+) interface', src))
def is_iface(n, p):
    mm = re.search(r'func (?:\(\w+ \*?%s\) )?%s\(([^)]*)\)' % (re.escape(n.rpartition('.')[0] or 'NONE'), re.escape(n.rpartition('.')[2])), src)
    t = ''
    for d in reversed(mm.group(1).split(',')):
        w = d.split()
        if len(w) > 1: t = w[-1]
        if w and w[0] == p: return t in ifaces
    return False

write({})
base = sweep(None)
hi = sweep('all')
nonnil = lambda s: {x for x in s if 'non-nil' not in x}
ok, todo = {}, []
for n in names:
    if not nonnil(hi.get(n, set())) - base.get(n, set()): ok[n] = 'all'
    else: todo.append(n)
print(len(ok), 'take nil everywhere;', len(todo), 'to try by parameter')
res = {}
for n in ok:
    p = params(n)
    if p: res[n] = p
for i in range(8):
    t = [n for n in todo if params(n) and len(params(n)) > i]
    if not t: break
    r = sweep(str(i), t)
    for n in t:
        if not nonnil(r.get(n, set())) - base.get(n, set()):
            res.setdefault(n, []).append(params(n)[i])
while True:
    write(res)
    r = sweep(None)
    bad = [n for n in names if r.get(n, set()) - base.get(n, set())]
    print('after writing:', [(n, sorted(r[n] - base.get(n, set()))) for n in bad][:20])
    if not bad: break
    for n in bad:
        if n in res: del res[n]
