"""Turns /repo's current sources into the verified text (LLVM IR) and into a sanitized native library.

The IR is what clang emits for exactly the translation units and definitions of the library's own build;
the only passes run on it are sroa, early-cse and simplifycfg (see DESIGN.md, "What is verified").
"""
import fcntl
import glob
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('E57V_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, '.cache')
CLANG = '/usr/bin/clang++-18'
TOOLV = '4'


class BuildError(Exception):
    pass


def sources():
    out = []
    for d in ('src', 'include', 'extern/CRCpp/inc', 'cmake'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            out += [os.path.join(root, f) for f in sorted(files)]
    out.append(os.path.join(REPO, 'CMakeLists.txt'))
    return out


def digest():
    h = hashlib.sha256(TOOLV.encode() + open(__file__.replace('.pyc', '.py'), 'rb').read())
    for f in sources():
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def run(cmd, cwd=None, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise BuildError('timeout: ' + ' '.join(cmd[:6]))
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout


class Tree:
    def __init__(self):
        self.key = digest()
        self.dir = os.path.join(CACHE, self.key)
        os.makedirs(self.dir, exist_ok=True)

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def lock(self, name):
        fh = open(self.p(name + '.lock'), 'w')
        fcntl.flock(fh, fcntl.LOCK_EX)
        return fh

    def configure(self):
        with self.lock('cfg'):
            if os.path.exists(self.p('cfg.json')):
                with open(self.p('cfg.json')) as fh:
                    return json.load(fh)
            b = self.p('b')
            shutil.rmtree(b, ignore_errors=True)
            run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_C_COMPILER=gcc',
                 '-DCMAKE_CXX_COMPILER=g++', '-DE57_BUILD_TEST=OFF', '-DE57_GIT_SUBMODULE_UPDATE=OFF',
                 '-DE57_VALIDATION_LEVEL=2', '-DCCACHE_PROGRAM=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'])
            with open(os.path.join(b, 'compile_commands.json')) as fh:
                cc = json.load(fh)
            units = []
            for c in cc:
                f = os.path.abspath(c['file'])
                args = shlex.split(c['command'])
                keep = []
                for i, a in enumerate(args):
                    if a.startswith('-D') or a.startswith('-I'):
                        keep.append(a)
                    elif a in ('-isystem', '-include'):
                        keep += [a, args[i + 1]]
                    elif a.startswith('-std='):
                        keep.append(a.replace('gnu++', 'c++'))
                if not any(k.startswith('-std=') for k in keep):
                    keep.append('-std=c++14')
                units.append({'file': f, 'flags': keep})
            cfg = {'units': sorted(units, key=lambda u: u['file'])}
            with open(self.p('cfg.tmp'), 'w') as fh:
                json.dump(cfg, fh)
            os.rename(self.p('cfg.tmp'), self.p('cfg.json'))
            return cfg

    def ir(self):
        """-> (all.ll, all_dbg.ll)"""
        cfg = self.configure()
        with self.lock('ir'):
            if not os.path.exists(self.p('ir.ok')):
                d = self.p('ir')
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)

                def one(u):
                    o = os.path.join(d, os.path.basename(u['file']) + '.bc')
                    run([CLANG] + u['flags'] + ['-g', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-emit-llvm', '-w', '-c', '-o', o, u['file']])
                    return o
                with ThreadPoolExecutor(8) as ex:
                    bcs = list(ex.map(one, cfg['units']))
                run(['llvm-link-18'] + bcs + ['-o', self.p('all.bc')])
                run(['opt-18', '-strip-debug', '-S', '-passes=function(sroa,early-cse,simplifycfg)', self.p('all.bc'), '-o', self.p('all.ll')])
                run(['llvm-dis-18', self.p('all.bc'), '-o', self.p('all_dbg.ll')])
                shutil.rmtree(d, ignore_errors=True)
                os.unlink(self.p('all.bc'))
                open(self.p('ir.ok'), 'w').close()
        return self.p('all.ll'), self.p('all_dbg.ll')

    SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

    def lib(self):
        """sanitized archive of the library, for replay and bounded cross-checks"""
        cfg = self.configure()
        with self.lock('lib'):
            a = self.p('libe57.a')
            if not os.path.exists(self.p('lib.ok')):
                d = self.p('o')
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)

                def one(u):
                    o = os.path.join(d, os.path.basename(u['file']) + '.o')
                    run([CLANG] + u['flags'] + self.SAN + ['-g1', '-O1', '-w', '-c', '-o', o, u['file']])
                    return o
                with ThreadPoolExecutor(8) as ex:
                    os_ = list(ex.map(one, cfg['units']))
                if os.path.exists(a):
                    os.unlink(a)
                run(['ar', 'rcs', a] + os_)
                shutil.rmtree(d, ignore_errors=True)
                open(self.p('lib.ok'), 'w').close()
        return a

    def harness(self, name):
        """native/<name>.cpp linked with the sanitized library"""
        cfg = self.configure()
        src = os.path.join(ROOT, 'native', name + '.cpp')
        h = hashlib.sha256()
        for f in [src] + sorted(glob.glob(os.path.join(ROOT, 'native', '*.h'))):
            with open(f, 'rb') as fh:
                h.update(fh.read())
        exe = self.p('h_%s_%s' % (name, h.hexdigest()[:12]))
        lib = self.lib()
        with self.lock('h_' + name):
            if not os.path.exists(exe):
                flags = [f for f in cfg['units'][0]['flags'] if not f.startswith('-std=')]
                link = []
                with open(src) as fh:
                    for ln in fh:
                        if ln.startswith('// LINK:'):
                            link += ln[8:].split()
                run([CLANG, '-std=c++17'] + flags + ['-fsanitize=address', '-fno-omit-frame-pointer', '-g1', '-O1', '-w', '-fno-access-control',
                    '-I', os.path.join(ROOT, 'native'), '-I', os.path.join(REPO, 'src'), '-c', src, '-o', exe + '.o'])
                run([CLANG] + self.SAN + [exe + '.o', lib, '-lxerces-c'] + link + ['-o', exe + '.tmp'])
                os.unlink(exe + '.o')
                os.rename(exe + '.tmp', exe)
        return exe


def prune(keep):
    """drop cached trees other than the given one"""
    if os.path.isdir(CACHE):
        for d in os.listdir(CACHE):
            if d != keep and len(d) == 24:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)


if __name__ == '__main__':
    t = Tree()
    print(t.ir(), t.lib())
    prune(t.key)
