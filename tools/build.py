#!/usr/bin/env python3
"""Builds the harness binaries from /repo's current working tree.

The tree is mirrored by content into _build/src (a file is rewritten only when
its bytes differ), so that ninja rebuilds exactly what changed whatever the
timestamps in /repo are.  Sources are picked up by globbing directories.

usage: build.py [target ...]      (no target: everything)
"""
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '_build'))
SRC = os.path.join(B, 'src')      # mirror of the tree
MTSRC = os.path.join(B, 'mtsrc')  # mirror with std:: threading primitives renamed
GEN = os.path.join(B, 'gen')
OBJ = os.path.join(B, 'obj')
BIN = os.path.join(B, 'bin')
GOOGLEAPIS = '/opt/fcp/pyvenv/lib/python3.12/site-packages'

sys.path.insert(0, os.path.join(VERIF, 'tools'))
from targets import TARGETS, LIBS, EXTRA_PROTO_SKIP  # noqa: E402

# The controlled scheduler sees every synchronisation operation because the
# code under test is compiled against these names instead of the std:: ones.
MT_RENAMES = [
    (re.compile(r'\bstd::atomic\b(?!_)'), '::mc::atomic'),
    (re.compile(r'\bstd::atomic_flag\b'), '::mc::atomic_flag'),
    (re.compile(r'\bstd::atomic_(bool|int|uint|size_t|int64_t|uint64_t)\b'),
     r'::mc::atomic_\1'),
    (re.compile(r'\bstd::atomic_thread_fence\b'), '::mc::atomic_thread_fence'),
    (re.compile(r'\bstd::thread\b'), '::mc::thread'),
    (re.compile(r'\bstd::(timed_mutex|recursive_mutex|shared_mutex|mutex)\b'),
     r'::mc::\1'),
    (re.compile(r'\bstd::condition_variable(_any)?\b'),
     '::mc::condition_variable'),
    (re.compile(r'\bstd::this_thread::'), '::mc::this_thread::'),
    (re.compile(r'\babsl::(Mutex|MutexLock|ReaderMutexLock|WriterMutexLock|'
                r'ReleasableMutexLock|MutexLockMaybe|CondVar|Condition|'
                r'Notification|BlockingCounter|Barrier|call_once|once_flag)\b'),
     r'::mc::abslx::\1'),
    (re.compile(r'\bstd::(call_once|once_flag)\b'), r'::mc::\1'),
]


def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, 'rb') as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp~'
    with open(tmp, 'wb') as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def mirror():
    keep = set()
    for root, dirs, files in os.walk(os.path.join(REPO, 'fcp')):
        dirs[:] = [d for d in dirs if d not in ('.git', '__pycache__')]
        for name in files:
            if not re.search(r'\.(cc|h|proto|fbs|py|inc|c|cpp|hpp)$', name):
                continue
            p = os.path.join(root, name)
            rel = os.path.relpath(p, REPO)
            keep.add(rel)
            try:
                with open(p, 'rb') as f:
                    data = f.read()
            except OSError:
                continue
            write_if_changed(os.path.join(SRC, rel), data)
            if re.search(r'\.(cc|h|inc)$', name):
                text = data.decode('utf-8', 'replace')
                for rx, sub in MT_RENAMES:
                    text = rx.sub(sub, text)
                write_if_changed(os.path.join(MTSRC, rel), text)
    for base in (SRC, MTSRC):
        for root, _, files in os.walk(base):
            for name in files:
                rel = os.path.relpath(os.path.join(root, name), base)
                if rel not in keep:
                    os.remove(os.path.join(base, rel))


TEST_RE = re.compile(
    r'(_test|_bench|_main|_test_utils?|_benchmark)\.cc$|/testing/|/test/|/test_|/fake_|/mock_')


def lib_sources(spec):
    out = []
    for pat in spec['globs']:
        for p in sorted(glob.glob(os.path.join(SRC, pat), recursive=True)):
            rel = os.path.relpath(p, SRC)
            if TEST_RE.search(rel) and rel not in spec.get('also', []):
                continue
            if any(re.search(x, rel) for x in spec.get('exclude', [])):
                continue
            out.append(rel)
    for rel in spec.get('also', []):
        if rel not in out and os.path.exists(os.path.join(SRC, rel)):
            out.append(rel)
    return out


def esc(p):
    return p.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')


COMMON = ('-std=c++17 -g1 -O1 -fno-omit-frame-pointer -w -fPIC '
          '-D_GLIBCXX_ASSERTIONS -include %s/shims/prelude.h' % VERIF)
FLAVORS = {
    # real threads primitives, address sanitizer
    'st': dict(
        flags=COMMON + ' -fsanitize=address',
        inc=[os.path.join(VERIF, 'shims'), SRC, GEN,
             os.path.join(VERIF, 'harness'), '/usr/include/android']),
    # controlled scheduling; the access instrumentation calls into mcsched.cc
    'mt': dict(
        flags=COMMON + ' -DMC_CONTROLLED=1 -fsanitize=thread '
        '-include mcsync/mcabsl.h',
        inc=[os.path.join(VERIF, 'shims_mt'), os.path.join(VERIF, 'shims'),
             MTSRC, GEN, os.path.join(VERIF, 'harness'),
             '/usr/include/android']),
}

ABSL_LIBS = None


def absl_libs():
    libs = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so'))
    if not libs:
        libs = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
    return libs


def generate():
    n = []
    a = n.append
    a('ninja_required_version = 1.5')
    a('builddir = %s' % B)
    cc = 'ccache g++'
    for fl, spec in FLAVORS.items():
        inc = ' '.join('-I%s' % i for i in spec['inc'])
        a('rule cxx_%s' % fl)
        a('  command = %s %s %s $extra -MMD -MF $out.d -c $in -o $out'
          % (cc, spec['flags'], inc))
        a('  depfile = $out.d')
        a('  deps = gcc')
        a('  description = CXX[%s] $in' % fl)
    a('rule ar')
    a('  command = rm -f $out && ar crs $out @$out.rsp')
    a('  rspfile = $out.rsp')
    a('  rspfile_content = $in')
    a('rule link')
    a('  command = g++ $lflags -o $out $objs -Wl,--start-group $libs -Wl,--end-group $syslibs')
    a('  description = LINK $out')
    a('rule protoc')
    a('  command = cd / && python3 %s/tools/protoc_wrap.py %s $proto -I%s '
      '-I%s/shims/protos -I%s -I/usr/include' % (VERIF, GEN, SRC, VERIF, GOOGLEAPIS))
    a('  description = PROTOC $proto')
    a('rule flatc_common')
    a('  command = cd %s && flatc -c --gen-object-api --gen-generated --reflect-names '
      '--bfbs-comments --keep-prefix -I %s -o $dir $fbs' % (SRC, SRC))
    a('rule flatc_schema')
    args = '--gen-object-api --gen-generated --reflect-names --bfbs-comments --keep-prefix'
    a('  command = cd %s && flatc -c --reflect-types %s -I %s -o $dir $fbs && '
      'flatc -b --schema %s -I %s -o $dir $fbs && '
      '%s/traits_gen $hdr $dir/tracing_schema.bfbs $fbs > $dir/tracing_schema.h.tmp && '
      'mv $dir/tracing_schema.h.tmp $dir/tracing_schema.h'
      % (SRC, args, SRC, args, SRC, BIN))
    a('  description = FLATC $fbs')
    a('rule genlink')
    a('  description = GENLINK')
    a('  command = ccache g++ -std=c++17 -O1 -w -I%s -o $out $in %s -lflatbuffers -lpthread'
      % (SRC, ' '.join(absl_libs())))
    a('rule stamp')
    a('  description = STAMP')
    a('  command = touch $out')

    # protos
    proto_srcs = []   # (import path, absolute)
    for p in sorted(glob.glob(SRC + '/fcp/**/*.proto', recursive=True)):
        proto_srcs.append((os.path.relpath(p, SRC), p))
    for p in sorted(glob.glob(VERIF + '/shims/protos/**/*.proto', recursive=True)):
        proto_srcs.append((os.path.relpath(p, VERIF + '/shims/protos'), p))
    for g in ['google/api/annotations.proto', 'google/api/http.proto',
              'google/api/client.proto', 'google/api/launch_stage.proto',
              'google/longrunning/operations.proto', 'google/rpc/code.proto',
              'google/rpc/status.proto']:
        proto_srcs.append((g, os.path.join(GOOGLEAPIS, g)))
    known = {rel: p for rel, p in proto_srcs}

    def imports(rel, seen):
        for m in re.findall(r'^import\s+(?:public\s+)?"([^"]+)"',
                            open(known[rel]).read(), re.M):
            if m in known and m not in seen:
                seen.add(m)
                imports(m, seen)
        return seen
    pb_cc = []
    pb_h = []
    for rel, p in proto_srcs:
        if rel in EXTRA_PROTO_SKIP:
            continue
        stem = rel[:-len('.proto')]
        o = [GEN + '/' + stem + '.pb.cc', GEN + '/' + stem + '.pb.h']
        deps = [known[d] for d in sorted(imports(rel, set()))]
        a('build %s: protoc %s | %s' % (' '.join(o), p, ' '.join(deps)))
        a('  proto = %s' % rel)
        pb_cc.append(o[0])
        pb_h.append(o[1])
    # tracing schemas
    a('build %s/traits_gen: genlink %s/fcp/tracing/tools/tracing_traits_generator.cc'
      % (BIN, SRC))
    common = GEN + '/fcp/tracing/tracing_schema_common_generated.h'
    a('build %s: flatc_common %s/fcp/tracing/tracing_schema_common.fbs' % (common, SRC))
    a('  dir = %s/fcp/tracing' % GEN)
    a('  fbs = fcp/tracing/tracing_schema_common.fbs')
    gen_h = [common]
    schemas = sorted(glob.glob(SRC + '/fcp/**/tracing_schema.fbs', recursive=True))
    for s in schemas:
        rel = os.path.relpath(s, SRC)
        d = os.path.dirname(rel)
        os.makedirs(os.path.join(GEN, d), exist_ok=True)
        o = GEN + '/' + d + '/tracing_schema'
        a('build %s.h %s_generated.h %s.bfbs: flatc_schema %s | %s/traits_gen '
          '%s/fcp/tracing/tracing_schema_common.fbs %s'
          % (o, o, o, s, BIN, SRC, common))
        a('  dir = %s/%s' % (GEN, d))
        a('  fbs = %s' % rel)
        a('  hdr = %s/tracing_schema_generated.h' % d)
        gen_h.append(o + '.h')
    for s in sorted(glob.glob(VERIF + '/harness/schemas/*/tracing_schema.fbs')):
        d = 'schemas/' + os.path.basename(os.path.dirname(s))
        os.makedirs(os.path.join(GEN, d), exist_ok=True)
        o = GEN + '/' + d + '/tracing_schema'
        a('build %s.h %s_generated.h %s.bfbs: flatc_schema %s | %s/traits_gen '
          '%s/fcp/tracing/tracing_schema_common.fbs %s'
          % (o, o, o, s, BIN, SRC, common))
        a('  dir = %s/%s' % (GEN, d))
        a('  fbs = %s' % s)
        a('  hdr = %s/tracing_schema_generated.h' % d)
        gen_h.append(o + '.h')
    a('build %s/gen.stamp: stamp | %s' % (B, ' '.join(pb_h + gen_h)))

    def objs(fl, srcs, base):
        out = []
        for s in srcs:
            absp = s if s.startswith('/') else os.path.join(base, s)
            o = '%s/%s/%s.o' % (OBJ, fl, re.sub(r'^/|\.\./', '', s if not s.startswith('/')
                                else os.path.relpath(s, '/')))
            if o not in seen:
                seen.add(o)
                a('build %s: cxx_%s %s || %s/gen.stamp' % (o, fl, absp, B))
                if fl == 'mt' and '/harness/common/' in absp:
                    a('  extra = -fno-sanitize=thread -DMC_RUNTIME=1')
            out.append(o)
        return out
    seen = set()
    # protobuf library, shared by both flavours (no instrumentation needed)
    po = objs('st', pb_cc, '/')
    a('build %s/st/libprotos.a: ar %s' % (OBJ, ' '.join(po)))
    po = objs('mt', pb_cc, '/')
    a('build %s/mt/libprotos.a: ar %s' % (OBJ, ' '.join(po)))
    libpath = {}

    def lib(name, fl):
        if (name, fl) not in libpath:
            srcs = lib_sources(LIBS[name])
            base = SRC if fl == 'st' else MTSRC
            srcs = srcs + [os.path.join(VERIF, x) for x in LIBS[name].get('shim_srcs', [])]
            o = objs(fl, srcs, base)
            p = '%s/%s/lib%s.a' % (OBJ, fl, name)
            a('build %s: ar %s' % (p, ' '.join(o)))
            libpath[(name, fl)] = p
        return libpath[(name, fl)]
    for name, t in TARGETS.items():
        fl = t.get('flavor', 'st')
        so = objs(fl, [os.path.join(VERIF, s) for s in t['srcs']] +
                  t.get('repo_srcs', []), SRC if fl == 'st' else MTSRC)
        libs = [lib(x, fl) for x in t['libs']]
        libs.append('%s/%s/libprotos.a' % (OBJ, fl))
        libs = [l for l in libs]
        a('build %s/%s: link | %s' % (BIN, name, ' '.join(so + libs)))
        a('  objs = %s' % ' '.join(so))
        a('  libs = %s' % ' '.join(libs))
        a('  lflags = %s' % (('-fsanitize=address' if fl == 'st' else '') + ' ' +
                             t.get('lflags', '')))
        a('  syslibs = %s -lprotobuf -lflatbuffers -lz -lre2 '
          '-L/usr/lib/x86_64-linux-gnu/android -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android '
          '-l:libcrypto.so.0 -lpthread -ldl %s'
          % (' '.join(absl_libs()), t.get('syslibs', '')))
    a('build all_libs: phony %s' % ' '.join(libpath.values()))
    a('build all: phony %s' % ' '.join('%s/%s' % (BIN, t) for t in TARGETS))
    a('default all')
    write_if_changed(os.path.join(B, 'build.ninja'), '\n'.join(n) + '\n')


def main(argv):
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    mirror()
    os.makedirs(BIN, exist_ok=True)
    os.makedirs(GEN, exist_ok=True)
    generate()
    env = dict(os.environ)
    env.setdefault('CCACHE_DIR', os.path.join(B, 'ccache'))
    env.setdefault('CCACHE_MAXSIZE', '2G')
    # A stand-in header added later must not be missed by the cache.
    shims = sorted(p for d in ('shims', 'shims_mt', 'harness')
                   for p in glob.glob(os.path.join(VERIF, d, '**'), recursive=True))
    env['CCACHE_NAMESPACE'] = hashlib.sha256('\n'.join(
        p for p in shims if not p.endswith('.cc')).encode()).hexdigest()[:12]
    env['PATH'] = '/usr/local/bin:/usr/bin:/bin'
    args = ['ninja', '-f', os.path.join(B, 'build.ninja'), '-j8']
    if '-k' in argv:
        argv.remove('-k')
        args += ['-k', '0']
    for t in argv:
        args.append(os.path.join(BIN, t) if t in TARGETS else t)
    r = subprocess.run(args, env=env, cwd=B, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        keep = [l for l in r.stdout.splitlines()
                if not re.match(r'\[\d+/\d+\] (CXX|PROTOC|FLATC|LINK|STAMP|GENLINK)', l)]
        sys.stdout.write('\n'.join(keep)[-200000:] + '\n')
    elif os.environ.get('VERIF_VERBOSE'):
        sys.stdout.write(r.stdout[-2000:])
    return r.returncode


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
