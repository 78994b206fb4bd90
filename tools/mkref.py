"""Builds /verif/reference/reference.json.gz: the repaired tree together with the
reference definitions of /verif/spec, dumped once and committed.  spec/<path>.rs is
appended to src/<path>.rs as a child module so that it may name private items."""
import sys, os, gzip, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../analyzer'))
import build
SPEC = os.path.join(build.VERIF, 'spec')
inj = {}
for d, _, fs in os.walk(SPEC):
    for f in sorted(fs):
        if f.endswith('.rs'):
            p = os.path.relpath(os.path.join(d, f), SPEC)
            body = open(os.path.join(d, f)).read()
            inj[p] = '#[allow(warnings)]\npub mod vp_spec {\nuse super::*;\n%s\n}\n' % body
repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
tmp = '/tmp/vp_ref.json'
build.dump(repo, inject=inj, out=tmp)
with open(tmp, 'rb') as a, gzip.GzipFile(os.path.join(build.VERIF, 'reference/reference.json.gz'), 'wb', mtime=0) as b: shutil.copyfileobj(a, b)
os.remove(tmp)
shutil.copyfile(os.path.join(repo, 'Cargo.lock'), os.path.join(build.VERIF, 'reference/Cargo.lock'))
print('ok', len(inj), 'spec files')
