#!/usr/bin/env python3
"""Builds the analyser and the LLVM IR of /repo's current sources (all products in /verif/build, cached by content hash)."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CM_REPO', '/repo')
B = os.path.join(V, 'build')
CXX = 'clang++-18'
FLAGS = ['-std=c++14', '-fms-extensions', '-Wno-nonportable-include-path', '-w', '-isystem', V + '/shim', '-include', 'msvc_compat.h',
         '-I' + REPO + '/ColorMagic', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-emit-llvm', '-c']
PASSES = 'lowerswitch,sroa,early-cse,simplifycfg,lowerswitch,mergereturn,loop-simplify,lcssa'


class BuildError(Exception):
    pass


def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as s:
            h.update(s.read())
    return h.hexdigest()[:20]


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    src = [V + '/engine/' + f for f in ('dom.cpp', 'dom.h', 'interp.cpp', 'alloc.inc')]
    out = os.path.join(B, 'cmai-' + digest(src))
    if os.path.exists(out):
        return out
    t = tempfile.mkdtemp(dir=B)
    try:
        flags = run(['llvm-config-18', '--cxxflags']).split()
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(run, [CXX] + flags + ['-fexceptions', '-O2', '-w', '-c', src[2], '-o', t + '/interp.o'])
            b = ex.submit(run, [CXX, '-std=c++17', '-O2', '-w', '-c', src[0], '-o', t + '/dom.o'])
            a.result(), b.result()
        libdir = run(['llvm-config-18', '--libdir']).strip()
        run([CXX, t + '/interp.o', t + '/dom.o', '-L' + libdir, '-Wl,-rpath,' + libdir, '-lLLVM-18', '-lpthread', '-o', t + '/cmai'])
        os.rename(t + '/cmai', out)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return out


def lib_sources():
    r = []
    for d in ('', 'manipulation/', 'spaces/', 'utils/'):
        r += glob.glob(REPO + '/ColorMagic/' + d + '*.cpp')
    return sorted(f for f in r if os.path.basename(f).lower() != 'dllmain.cpp')


def lib_files():
    r = []
    for d, _, fs in os.walk(REPO + '/ColorMagic'):
        r += [os.path.join(d, f) for f in fs if f.endswith(('.h', '.cpp', '.hpp', '.inl', '.ipp', '.tpp'))]
    return r


def shim_files():
    return glob.glob(V + '/shim/*')


def prune(pattern, keep, n=12):
    for f in sorted(glob.glob(os.path.join(B, pattern)), key=os.path.getmtime)[:-n]:
        if f != keep:
            shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.unlink(f)


# specifications about text: the string class is analysed as well instead of being opaque
TEXT = {'hex': ['-D_GLIBCXX_ASSERTIONS']}


def library(extra=()):
    """one bitcode file per translation unit of the library; returns the directory"""
    srcs = lib_sources()
    if not srcs:
        raise BuildError('no library sources found below ' + REPO)
    flags = FLAGS + list(extra)
    out = os.path.join(B, 'lib-' + digest(lib_files() + shim_files(), ' '.join(flags)))
    if os.path.isdir(out):
        return out
    t = tempfile.mkdtemp(dir=B)
    try:
        def one(i):
            run([CXX] + flags + [srcs[i], '-o', '%s/%03d.bc' % (t, i)])
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, range(len(srcs))))
        run(['llvm-link-18', '-o', t + '/all.bc'] + sorted(glob.glob(t + '/*.bc')))
        os.rename(t, out)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    prune('lib-*', out, 8)
    return out


def spec(name):
    """library + specification, linked and normalised; returns the bitcode file"""
    extra = TEXT.get(name, [])
    lib = library(extra)
    f = [V + '/specs/' + name + '.cpp', V + '/engine/rt.cpp'] + glob.glob(V + '/specs/*.h')
    out = os.path.join(B, 'spec-%s-%s.bc' % (name, digest(f, lib + PASSES)))
    if os.path.exists(out):
        return out
    t = tempfile.mkdtemp(dir=B)
    try:
        run([CXX] + FLAGS + extra + ['-I' + V + '/specs', f[0], '-o', t + '/s.bc'])
        run([CXX] + FLAGS + [f[1], '-o', t + '/rt.bc'])
        run(['llvm-link-18', lib + '/all.bc', t + '/s.bc', t + '/rt.bc', '-o', t + '/l.bc'])
        run(['opt-18', '-passes=' + PASSES, t + '/l.bc', '-o', t + '/o.bc'])
        os.rename(t + '/o.bc', out)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    prune('spec-%s-*.bc' % name, out, 3)
    return out


def main():
    with Lock():
        print(engine())
        print(library())
        for x in TEXT.values():
            print(library(x))
        names = [os.path.basename(f)[:-4] for f in glob.glob(V + '/specs/*.cpp')]
        with cf.ThreadPoolExecutor(6) as ex:
            for o in ex.map(spec, sorted(names)):
                print(o)


if __name__ == '__main__':
    try:
        main()
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
