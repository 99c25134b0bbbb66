#!/usr/bin/env python3
"""Builds the code under test from /repo's current working tree, plus the
harness, outside /repo.

Objects are cached in a directory keyed by the content of every file that can
take part in the build (all of /repo/lib, the stubs, the harness, the flags),
so a stale object can never be used: any change of content is another key.
"""
import concurrent.futures, hashlib, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
STUBS = os.path.join(HARNESS, 'stubs')
PKGS = ('glib-2.0 gobject-2.0 gio-2.0 gthread-2.0 gmodule-2.0 libsoup-2.4 '
        'libxml-2.0 gdk-3.0 gdk-pixbuf-2.0 cairo fontconfig pango pangocairo '
        'librsvg-2.0 gstreamer-1.0 gstreamer-base-1.0 gstreamer-app-1.0 '
        'gstreamer-video-1.0 gtk+-3.0 atk jsoncpp lua5.3').split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors='replace', **kw)


def sh(cmd):
    r = run(cmd)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout)
    return r.stdout


def lib_sources():
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'set\(LIBGINGA_SOURCES([^)]*)\)', txt)
    srcs = re.findall(r'lib/[A-Za-z0-9_-]+\.cpp', m.group(1))
    return [s for s in srcs if not s.endswith('PlayerHTML.cpp')]


def config_h():
    defs = {}
    for line in open(os.path.join(REPO, 'CMakeLists.defs.txt')):
        m = re.match(r'set\((PACKAGE[A-Z_]*|VERSION) +"?([^"$)]*)"?\)', line)
        if m:
            defs[m.group(1)] = m.group(2)
    defs['PACKAGE_VERSION'] = defs.get('VERSION', '')
    defs['TOP_SRCDIR'] = defs['ABS_TOP_SRCDIR'] = REPO + '/'
    defs['GINGADATADIR'] = '/usr/share/ginga/'
    defs['GINGABINDIR'] = '/usr/bin'
    txt = open(os.path.join(REPO, 'build-cmake/config.h.in')).read()
    return re.sub(r'@([A-Z_]+)@', lambda m: defs.get(m.group(1), ''), txt)


def tree_hash(extra):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'lib'), HARNESS]
    files = [os.path.join(REPO, 'CMakeLists.txt'),
             os.path.join(REPO, 'CMakeLists.defs.txt'),
             os.path.join(REPO, 'build-cmake/config.h.in'),
             os.path.abspath(__file__)]
    for r in roots:
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fp:
            h.update(fp.read())
        h.update(b'\0')
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def cache_root():
    d = os.environ.get('VERIF_BUILD_DIR') or os.path.join(VERIF, '.build')
    os.makedirs(d, exist_ok=True)
    return d


def build(san=False, verbose=False):
    """Returns the path of the harness program."""
    flags = ['-std=gnu++11', '-O1', '-g1', '-fPIC', '-w', '-pthread']
    link = []
    if san:
        flags += ['-fsanitize=address,undefined', '-fno-omit-frame-pointer',
                  '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']
        link += ['-fsanitize=address,undefined']
    cflags = sh(['pkg-config', '--cflags'] + PKGS).split()
    libs = sh(['pkg-config', '--libs'] + PKGS).split()
    key = tree_hash((flags, link, cflags, libs))
    root = cache_root()
    out = os.path.join(root, key)
    exe = os.path.join(out, 'gvdrive')
    if os.path.exists(exe):
        return exe
    # Keep the cache small: only a few generations.
    gens = sorted((os.path.join(root, d) for d in os.listdir(root)
                   if re.fullmatch(r'[0-9a-f]{20}', d)), key=os.path.getmtime)
    for old in gens[:-5]:
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix='b', dir=root)
    try:
        with open(os.path.join(tmp, 'config.h'), 'w') as f:
            f.write(config_h())
        inc = ['-I', tmp, '-I', os.path.join(REPO, 'lib'), '-I', STUBS,
               '-I', HARNESS] + ['-isystem' + c[2:] if c.startswith('-I') else c for c in cflags]
        srcs = [os.path.join(REPO, s) for s in lib_sources()]
        hsrc = [os.path.join(HARNESS, f) for f in sorted(os.listdir(HARNESS))
                if f.endswith('.cpp')]

        def comp(s):
            o = os.path.join(tmp, os.path.basename(s).replace('.cpp', '.o'))
            r = run(['g++', '-c', s, '-o', o] + flags + inc)
            return s, o, r

        jobs = sorted(srcs + hsrc, key=lambda s: -os.path.getsize(s))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(comp, jobs))
        bad = [(s, r.stdout) for s, o, r in res if r.returncode != 0]
        if bad:
            raise BuildError('\n'.join(s + ':\n' + e for s, e in bad))
        objs = {s: o for s, o, r in res}
        so = os.path.join(tmp, 'libgv.so')
        r = run(['g++', '-shared', '-o', so] + [objs[s] for s in srcs] + link +
                ['-Wl,-z,lazy'])
        if r.returncode != 0:
            raise BuildError(r.stdout)
        r = run(['g++', '-o', os.path.join(tmp, 'gvdrive')] +
                [objs[s] for s in hsrc] + ['-rdynamic', '-L' + tmp, '-lgv',
                 '-Wl,-rpath,$ORIGIN'] + libs + ['-lpthread', '-ldl'] + link)
        if r.returncode != 0:
            raise BuildError(r.stdout)
        for o in objs.values():
            os.unlink(o)
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(exe):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe


if __name__ == '__main__':
    try:
        print(build(san='--san' in sys.argv))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
