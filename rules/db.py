"""Program database: runs the extractor over every translation unit of /repo
and over the driver units that instantiate the templates, and merges them."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('COBALT_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'cobalt-extract')
# Units that cannot be compiled against the Boost 1.83 of this sandbox (the
# baseline build leaves them out as well).
LEFT_OUT = {'src/io/acceptor.cpp'}
FLAGS = ['-std=c++20', '-DBOOST_ASIO_NO_DEPRECATED', '-DBOOST_COBALT_STATIC_LINK=1',
         '-fsized-deallocation', '-w', '-ferror-limit=5',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in ('include', 'src'):
        for r, d, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                files.append(os.path.join(r, f))
    for r, d, fs in os.walk(os.path.join(VERIF, 'drivers')):
        files += [os.path.join(r, f) for f in fs]
    files.append(os.path.join(VERIF, 'tool', 'extract.cc'))
    files.append(os.path.join(VERIF, 'rules', 'db.py'))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def units():
    us = []
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True)):
        rel = os.path.relpath(f, REPO)
        if rel in LEFT_OUT:
            continue
        src = 'BOOST_COBALT_SOURCE'
        if rel.startswith('src/io/'):
            src = 'BOOST_COBALT_SSL_SOURCE' if 'ssl' in rel else 'BOOST_COBALT_IO_SOURCE'
        us.append((f, ['-D%s=1' % src]))
    for f in sorted(glob.glob(os.path.join(VERIF, 'drivers', '*.cpp'))):
        us.append((f, []))
    return us


def _one(a):
    src, fl, out = a
    cmd = [TOOL, out + '.tmp', REPO.rstrip('/') + '/', os.path.join(VERIF, 'drivers') + '/', src, '--'] + FLAGS + \
          ['-I' + os.path.join(REPO, 'include')] + fl
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out + '.tmp'):
        return src, (r.stderr or r.stdout)[-2000:] + ' rc=%d' % r.returncode
    os.rename(out + '.tmp', out)
    return src, None


def build_tool():
    r = subprocess.run([os.path.join(VERIF, 'build.sh')], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('extractor build failed: ' + r.stderr[-2000:])


def age(d):
    try:
        return time.time() - os.path.getmtime(d)
    except OSError:
        return 0


def extract():
    build_tool()
    key = tree_hash()
    cache = os.path.join(VERIF, 'build', 'db-' + key)
    done = os.path.join(cache, 'ok')
    us = units()
    jobs = []
    for src, fl in us:
        name = os.path.relpath(src, REPO if src.startswith(REPO) else VERIF).replace('/', '_') + '.json'
        jobs.append((src, fl, os.path.join(cache, name)))
    if not os.path.exists(done):
        if os.path.isdir(os.path.join(VERIF, 'build')):
            for old in glob.glob(os.path.join(VERIF, 'build', 'db-*')):
                if old != cache and len(glob.glob(os.path.join(VERIF, 'build', 'db-*'))) > 6 and age(old) > 600:
                    shutil.rmtree(old, ignore_errors=True)
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        work = tempfile.mkdtemp(prefix='db-', dir=os.path.join(VERIF, 'build'))
        final, jobs = jobs, [(src, fl, os.path.join(work, os.path.basename(out))) for src, fl, out in jobs]
        # the driver units are the long ones: start them first
        jobs.sort(key=lambda j: -int('/drivers/' in j[0]))
        errs = []
        with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            for src, err in ex.map(_one, jobs):
                if err:
                    errs.append('%s: %s' % (src, err))
        if errs:
            shutil.rmtree(work, ignore_errors=True)
            raise BuildError('\n'.join(errs))
        open(os.path.join(work, 'ok'), 'w').close()
        try:
            os.rename(work, cache)
        except OSError:                       # another check was faster, or left an unfinished one
            if not os.path.exists(done):
                shutil.rmtree(cache, ignore_errors=True)
                os.rename(work, cache)
            else:
                shutil.rmtree(work, ignore_errors=True)
        jobs = final
    return [(src, out) for src, fl, out in jobs]


class DB:
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.enums = {}
        self.by_name = {}
        self.units = []
        self.files = set()

    def load(self):
        for src, out in extract():
            with open(out) as fh:
                d = json.load(fh)
            self.units.append(src)
            for f in d['files']:
                self.files.add(f)
            for f in d['functions']:
                f['tu'] = d['tu']
                old = self.fns.get(f['id'])
                if old is None or ('body' not in old and 'body' in f):
                    self.fns[f['id']] = f
            for r in d['records']:
                old = self.recs.get(r['id'])
                if old is None or ('fields' in r and 'fields' not in old):
                    self.recs[r['id']] = r
                elif 'methods' in r and 'methods' in old:
                    have = {m['id'] for m in old['methods']}
                    old['methods'] += [m for m in r['methods'] if m['id'] not in have]
            for e in d['enums']:
                self.enums[e['n']] = e
        for f in self.fns.values():
            self.by_name.setdefault(f['n'], []).append(f)
        # a function counts as the repository's own when it is written there
        return self

    def in_repo(self, f):
        return not f['file'].startswith('/')

    def find(self, name, **kw):
        """All functions with the given pattern name (template arguments dropped)."""
        out = []
        for f in self.by_name.get(name, []):
            if all(f.get(k) == v for k, v in kw.items()):
                out.append(f)
        return out

    def methods_of(self, recname):
        return [f for f in self.fns.values() if f['n'].startswith(recname + '::')]

    def records_named(self, name):
        return [r for r in self.recs.values() if r['n'] == name and 'fields' in r]


_db = None


def get():
    global _db
    if _db is None:
        _db = DB().load()
    return _db


if __name__ == '__main__':
    db = get()
    print(len(db.units), 'units', len(db.fns), 'functions', len(db.recs), 'records')
