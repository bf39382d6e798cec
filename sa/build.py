"""Compile the current /repo sources to one linked LLVM module (never executed)."""
import os, subprocess, tempfile, shutil, glob, concurrent.futures, atexit, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANGXX, CLANG, LINK, OPT = 'clang++-18', 'clang-18', 'llvm-link-18', 'opt-18'


class AnalysisBroken(Exception):
    pass


def sources():
    src = os.path.join(REPO, 'src')
    out = []
    for f in sorted(glob.glob(os.path.join(src, '*.cc'))):
        b = os.path.basename(f)
        if b.endswith('_test.cc') or b == 'vcdecoder_test.cc' or 'unittest' in b:
            continue
        out.append(f)
    for f in sorted(glob.glob(os.path.join(src, 'zlib', '*.c'))):
        out.append(f)
    if len(out) < 10:
        raise AnalysisBroken('found only %d source files under %s' % (len(out), src))
    return out


def make_config(d):
    """config.h the way CMake's configure_file would on this platform."""
    import re
    src = os.path.join(REPO, 'src', 'config.h.in')
    have = {'HAVE_GETTIMEOFDAY', 'HAVE_MALLOC_H', 'HAVE_MEMALIGN', 'HAVE_MPROTECT',
            'HAVE_POSIX_MEMALIGN', 'HAVE_SYS_MMAN_H', 'HAVE_SYS_TIME_H',
            'HAVE_UNISTD_H', 'HAVE_GETOPT_H', 'OPEN_VCDIFF_VERSION'}
    out = []
    for line in open(src):
        m = re.match(r'#\s*cmakedefine\s+(\w+)(.*)', line)
        if m:
            if m.group(1) in have:
                out.append('#define %s%s\n' % (m.group(1), m.group(2).replace('${OPEN_VCDIFF_VERSION}', '0.0').replace('@OPEN_VCDIFF_VERSION@', '0.0')))
            else:
                out.append('/* #undef %s */\n' % m.group(1))
        else:
            out.append(line.replace('@OPEN_VCDIFF_VERSION@', '0.0').replace('${OPEN_VCDIFF_VERSION}', '0.0'))
    open(os.path.join(d, 'config.h'), 'w').writelines(out)


def build(kind='lib', ndebug=True, extra=()):
    """Returns path of the linked bitcode.  kind: 'lib' (library only) or 'cli' (only
    vcdiff_main.cc) or 'all'."""
    d = tempfile.mkdtemp(prefix='verif_sa_')
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    make_config(d)
    files = sources()
    if kind == 'lib':
        files = [f for f in files if not f.endswith('_main.cc')]
        files += sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim', '*.cc')))
    elif kind == 'cli':
        files = [f for f in files if f.endswith('_main.cc')]
        if not files:
            raise AnalysisBroken('no *_main.cc')

    def one(f):
        o = os.path.join(d, os.path.basename(f) + '.bc')
        inc = ['-I', d, '-I', os.path.join(REPO, 'src'), '-I', os.path.join(REPO, 'src', 'zlib')]
        common = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names',
                  '-emit-llvm', '-c', '-w', '-ffile-compilation-dir=.'] + list(extra)
        if ndebug:
            common.append('-DNDEBUG')
        if f.endswith('.c'):
            cmd = [CLANG, '-std=gnu89'] + common + inc + [f, '-o', o]
        else:
            cmd = [CLANGXX, '-std=c++17', '-fno-exceptions'] + common + inc + [f, '-o', o]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken('clang failed on %s:\n%s' % (f, p.stderr[-4000:]))
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, files))
    linked = os.path.join(d, 'all.bc')
    p = subprocess.run([LINK] + objs + ['-o', linked], capture_output=True, text=True)
    if p.returncode:
        raise AnalysisBroken('llvm-link failed: ' + p.stderr[-2000:])
    out = os.path.join(d, 'ssa.bc')
    p = subprocess.run([OPT, '-passes=function(sroa)', linked, '-o', out], capture_output=True, text=True)
    if p.returncode:
        raise AnalysisBroken('opt failed: ' + p.stderr[-2000:])
    return out, files
