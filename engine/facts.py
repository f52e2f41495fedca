"""Builds the resolved-program facts of /repo's current working tree.

The working tree's sources are copied into a scratch directory, the files that
the build generates (unicode tables, system.cpp with the embedded Scheme
libraries) are regenerated there by the same commands as CMakeLists.txt uses,
and every translation unit that the build compiles is parsed by the libTooling
program tool/facts.cpp.  Nothing of the analysed program is executed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    """The analysis itself could not be carried out (neither pass nor violation)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def build_tool():
    src = os.path.join(VERIF, 'tool', 'facts.cpp')
    key = _sha(open(src, 'rb').read())[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'facts-' + key)
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O0', '-fno-rtti', '-w', '-I' + LLVM + '/include',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
           src, '-o', tmp, LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError('cannot build the facts tool:\n' + r.stdout[-4000:])
    os.replace(tmp, out)
    return out


# ---- scratch tree ----------------------------------------------------------

SOURCES = ('src', 'include', 'configure', 'library', 'script', 'CMakeLists.txt', 'VERSION')


def tree_files(root):
    out = []
    for s in SOURCES:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            out.append(s)
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                r = os.path.relpath(os.path.join(d, f), root)
                if r.startswith('include/meevax/unicode/') or r == 'src/kernel/system.cpp':
                    continue
                out.append(r)
    return sorted(out)


def tree_hash(root=REPO):
    h = hashlib.sha256()
    for r in tree_files(root):
        h.update(r.encode() + b'\0')
        if r.startswith('library/'):
            continue  # the Scheme libraries are read from the tree on every run
        with open(os.path.join(root, r), 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _unicode(scratch):
    """The four generated tables, by the commands in CMakeLists.txt."""
    cm = open(os.path.join(scratch, 'CMakeLists.txt')).read()
    outdir = os.path.join(scratch, 'include/meevax/unicode')
    os.makedirs(outdir, exist_ok=True)
    data = open(os.path.join(scratch, 'configure/UnicodeData.txt'), encoding='utf-8').read().splitlines()
    tables = {}
    for m in re.finditer(r'execute_process\(((?:[^()"]|"(?:\\.|[^"\\])*")*(?:\([^()]*\)(?:[^()"]|"(?:\\.|[^"\\])*")*)*)\)', cm):
        body = m.group(1)
        mv = re.search(r'OUTPUT_VARIABLE\s+\$\{PROJECT_NAME\}_UNICODE_(\w+)', body)
        if not mv:
            continue
        ms = re.search(r'sed -E "((?:\\.|[^"\\])*)"', body)
        mg = re.search(r'grep -e "((?:\\.|[^"\\])*)"', body)
        if not ms:
            raise AnalysisError('cannot understand the generation of the unicode table ' + mv.group(1))
        unq = lambda s: re.sub(r'\\(.)', r'\1', s)
        cmd = ['sed', '-E', unq(ms.group(1)), os.path.join(scratch, 'configure/UnicodeData.txt')]
        out = subprocess.run(cmd, stdout=subprocess.PIPE, check=True, env={**os.environ, 'LC_ALL': 'C.UTF-8'}).stdout
        if mg:
            out = subprocess.run(['grep', '-e', unq(mg.group(1))], input=out, stdout=subprocess.PIPE, env={**os.environ, 'LC_ALL': 'C.UTF-8'}).stdout
        tables['${${PROJECT_NAME}_UNICODE_' + mv.group(1) + '}'] = out.decode()
    n = 0
    for m in re.finditer(r'file\(WRITE \$\{CMAKE_CURRENT_SOURCE_DIR\}/include/\$\{PROJECT_NAME\}/unicode/(\w+\.hpp)\s+"([^"]*)"\)', cm):
        if m.group(2) not in tables:
            raise AnalysisError('unicode table ' + m.group(1) + ' has no known content')
        with open(os.path.join(outdir, m.group(1)), 'w', encoding='utf-8') as f:
            f.write(tables[m.group(2)])
        n += 1
    if n < 4:
        raise AnalysisError('only %d unicode tables found in CMakeLists.txt' % n)


def embedded(scratch):
    """library name -> text that is embedded into the executable."""
    out = {}
    d = os.path.join(scratch, 'library')
    for f in sorted(os.listdir(d)):
        if f.endswith('.ss'):
            r = subprocess.run(['awk', '-f', os.path.join(scratch, 'script/format.awk')],
                               stdin=open(os.path.join(d, f), 'rb'), stdout=subprocess.PIPE, check=True,
                               env={**os.environ, 'LC_ALL': 'C.UTF-8'})
            out[f] = r.stdout.decode()
    return out


def _system(scratch):
    src = open(os.path.join(scratch, 'configure/system.cpp'), encoding='utf-8').read()
    ver = open(os.path.join(scratch, 'VERSION')).read().strip()
    var = {'PROJECT_NAME': 'meevax', 'PROJECT_VERSION': ver, 'meevax_SYSTEM_NAME': 'linux',
           'CMAKE_SYSTEM_PROCESSOR': 'x86_64', 'CMAKE_SHARED_LIBRARY_PREFIX': 'lib',
           'CMAKE_SHARED_LIBRARY_SUFFIX': '.so', 'CMAKE_INSTALL_PREFIX': '/usr/local'}
    var.update(embedded(scratch))
    src = src.replace('${${PROJECT_NAME}_SYSTEM_NAME}', 'linux')
    src = re.sub(r'\$\{([^{}]*)\}', lambda m: var.get(m.group(1), ''), src)
    with open(os.path.join(scratch, 'src/kernel/system.cpp'), 'w', encoding='utf-8') as f:
        f.write(src)


def units(scratch):
    out = []
    for d, ds, fs in os.walk(os.path.join(scratch, 'src')):
        for f in fs:
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out, key=lambda p: -os.path.getsize(p))


def _parse(tool, scratch, unit, out):
    cmd = [tool, scratch, out, unit, '--', '-std=c++20', '-DNDEBUG', '-w', '-I' + scratch + '/include',
           '-resource-dir', LLVM + '/lib/clang/18']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        raise AnalysisError('cannot parse %s:\n%s' % (os.path.relpath(unit, scratch), r.stdout[-3000:]))
    return out


class Facts:
    def __init__(self):
        self.fns = {}       # key -> function record
        self.classes = {}   # class name -> record
        self.enums = {}
        self.vars = {}
        self.units = []
        self.root = None

    def index(self):
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f['q'], []).append(f)
        # virtual overriders
        self.overriders = {}
        for f in self.fns.values():
            for o in f.get('over', ()):
                self.overriders.setdefault(o, []).append(f['key'])
        self.method_of = {}
        for c in self.classes.values():
            for m in c['methods']:
                self.method_of[m['key']] = (c, m)
        self._by_cls = {}
        for f in self.fns.values():
            if f.get('cls'):
                self._by_cls.setdefault(f['cls'], []).append(f)
        return self

    def by_cls(self):
        return self._by_cls


def load(verbose=False):
    tool = build_tool()
    th = tree_hash()
    code = open(os.path.abspath(__file__), 'rb').read()
    key = _sha(th, os.path.basename(tool), code)[:24]
    cache = os.path.join(BUILD, 'facts-%s.pickle' % key)
    if os.path.exists(cache):
        try:
            with open(cache, 'rb') as f:
                return pickle.load(f).index()
        except Exception:
            pass
    base = tempfile.mkdtemp(prefix='meevax-facts-')
    try:
        scratch = os.path.join(base, 'tree')
        for r in tree_files(REPO):
            dst = os.path.join(scratch, r)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, r), dst)
        _unicode(scratch)
        _system(scratch)
        us = units(scratch)
        if len(us) < 40:
            raise AnalysisError('only %d translation units found' % len(us))
        outs = []
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(_parse, tool, scratch, u, os.path.join(base, 'o%d.jsonl' % i)) for i, u in enumerate(us)]
            outs = [f.result() for f in futs]
        F = Facts()
        F.units = [os.path.relpath(u, scratch) for u in us]
        seen = set()
        for o in outs:
            with open(o, 'rb') as f:
                for line in f:
                    head = line[:60]
                    if head.startswith(b'{"rec":"fn","key":"'):
                        k = head[19:33]
                        if k in seen:
                            continue
                        seen.add(k)
                    else:
                        k = hashlib.md5(line).digest()
                        if k in seen:
                            continue
                        seen.add(k)
                    d = json.loads(line)
                    rec = d['rec']
                    if rec == 'fn':
                        F.fns[d['key']] = d
                    elif rec == 'class':
                        F.classes.setdefault(d['cls'], d)
                    elif rec == 'enum':
                        F.enums.setdefault(d['q'], d)
                    elif rec == 'var':
                        F.vars.setdefault(d['id'], d)
            os.remove(o)
        tmp = cache + '.tmp%d' % os.getpid()
        with open(tmp, 'wb') as f:
            pickle.dump(F, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.replace(tmp, cache)
        # keep only a few caches
        old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('facts-') and f.endswith('.pickle')), key=os.path.getmtime)
        for p in old[:-4]:
            os.remove(p)
        return F.index()
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    from engine.facts import load  # so that the cache names engine.facts.Facts
    F = load()
    print('%d units, %d functions, %d classes, %d enums, %d variables, %.1f s' % (len(F.units), len(F.fns), len(F.classes), len(F.enums), len(F.vars), time.time() - t))
