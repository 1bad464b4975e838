"""Runs the clang-based extractor over every translation unit of /repo/src and
links the per-TU function tables into one Program."""
import os, json, hashlib, subprocess, glob, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DW_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

FLAGS = ['-std=c++17', '-fopenmp', '-w', '-include', 'array', '-include', 'limits', '-include', 'cstdint',
         '-D_GLIBCXX_USE_CXX11_ABI=0', '-DHAVE_PNG', '-DHAVE_JPEG']

def flags():
    return FLAGS + ['-I%s/include' % REPO, '-I%s/src' % REPO, '-I/usr/include/eigen3',
                    '-I%s/stubs/omp' % VERIF, '-I%s/stubs/ade_include' % VERIF]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]

def extractor():
    src = open(os.path.join(VERIF, 'extract/dwx.cpp'), 'rb').read()
    out = os.path.join(BUILD, 'dwx-' + sha(src))
    if not os.path.exists(out):
        subprocess.check_call(['bash', os.path.join(VERIF, 'extract/build.sh'), out])
    return out

def source_files():
    return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))

def tree_hash():
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + '/src/**/*', recursive=True) + glob.glob(REPO + '/include/**/*', recursive=True)
                + glob.glob(VERIF + '/stubs/**/*', recursive=True))
    for f in fs:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:24]

class Program:
    def __init__(self):
        self.functions = {}   # uid -> function ast (uid = "tu:fid")
        self.by_q = {}        # qualified name -> list of function asts
        self.records = {}     # type string -> record
        self.rec_by_q = {}
        self.errors = []
        self.extract_s = 0.0

    def add_tu(self, tu, data):
        if data.get('errors'):
            self.errors.append(tu)
        for f in data['functions']:
            f['tu'] = tu
            self.functions[(tu, f['fid'])] = f
            self.by_q.setdefault(f['q'], []).append(f)
        for r in data['records']:
            r['tu'] = tu
            self.records.setdefault(r['t'], r)
            self.rec_by_q.setdefault(r['q'], r)

    def find(self, tu, fref):
        """definition for a callee reference appearing in TU `tu`"""
        f = self.functions.get((tu, fref['fid']))
        if f is not None and f['q'] == fref['q']:
            return f
        cands = [g for g in self.by_q.get(fref['q'], []) if g['pt'] == fref['pt']
                 and g.get('const') == fref.get('const')
                 and g.get('ta') == fref.get('ta') and g.get('cls') == fref.get('cls')]
        return cands[0] if cands else None

    def get(self, q, pt=None, cls=None):
        c = [g for g in self.by_q.get(q, []) if (pt is None or g['pt'] == pt) and (cls is None or g.get('cls') == cls)]
        return c[0] if c else None

def load_program(log=None):
    t0 = time.time()
    exe = extractor()
    os.makedirs(os.path.join(BUILD, 'ast'), exist_ok=True)
    key = sha(tree_hash(), os.path.basename(exe), ' '.join(flags()))
    cdir = os.path.join(BUILD, 'ast', key)
    os.makedirs(cdir, exist_ok=True)
    files = source_files()
    def one(f):
        rel = os.path.relpath(f, REPO)
        out = os.path.join(cdir, rel.replace('/', '__') + '.json')
        if not os.path.exists(out):
            env = dict(os.environ, DWX_ROOT=REPO)
            p = subprocess.run([exe, f, '--'] + flags(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
            if not p.stdout.strip():
                return rel, None, p.stderr.decode()[-2000:]
            tmp = out + '.%d.tmp' % os.getpid()
            with open(tmp, 'wb') as g:
                g.write(p.stdout)
            os.replace(tmp, out)
        return rel, json.load(open(out)), ''
    prog = Program()
    with ThreadPoolExecutor(8) as ex:
        for rel, data, err in ex.map(one, files):
            if data is None:
                prog.errors.append(rel + ': ' + err)
                continue
            prog.add_tu(rel, data)
    prog.extract_s = time.time() - t0
    prog.key = key
    return prog

if __name__ == '__main__':
    p = load_program()
    print(len(p.functions), p.errors, p.extract_s)
