#!/usr/bin/env python3
"""Mirror /repo's sources into /verif/build/tree, regenerate generated files whose inputs changed,
and build the library and the check programs with ninja.  usage: build.py [target ...]"""
import filecmp, glob, hashlib, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', V + '/build')
T = B + '/tree'
GEN = [  # name, inputs, outputs, command, hash of the inputs whose outputs are committed
    ('lex', ['src/handlebars.l'], ['src/handlebars.lex.c', 'src/handlebars.lex.h'],
     'flex --noreject --full --align -o handlebars.lex.c handlebars.l',
     'e7d7e8bbb38318796f49d1b5a8ba5b9163f9ada65c2f6cd7ed26cdd79d6c4b83'),
    ('tab', ['src/handlebars.y', 'src/handlebars.l'], ['src/handlebars.tab.c', 'src/handlebars.tab.h'],
     'bison -Wall -b handlebars handlebars.y',
     '6cd5e2892e31e9143e11326469b44008d95d39c5f09663b1a98442187cc5e882'),
    ('re', ['src/handlebars_scanners.re'], ['src/handlebars_scanners.c'],
     're2c --no-generation-date -s8 -o handlebars_scanners.c handlebars_scanners.re',
     'b669a4812a4445db1f2cb6d8d7f7b7d68261a5b442daab5559f06f81ef8fe52f'),
    ('gperf', ['src/handlebars_helpers_ht.gperf'], ['src/handlebars_helpers_ht.h'],
     'gperf --struct-type --readonly-tables --compare-strncmp --compare-lengths --global-table '
     '--output-file=handlebars_helpers_ht.h handlebars_helpers_ht.gperf',
     '45692165461c026fe4d3746d578f0a65ceb3895082b899b0debb6768824c054f'),
]

def put(src, dst):
    """copy when the content differs"""
    if os.path.exists(dst) and filecmp.cmp(src, dst, shallow=False):
        return
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copyfile(src, dst)

def hash_of(files):
    h = hashlib.sha256()
    for f in files:
        h.update(('== %s\n' % f).encode())
        try: h.update(open(os.path.join(REPO, f), 'rb').read())
        except OSError: h.update(b'missing\n')
    return h.hexdigest()

def mirror():
    dirty = [g for g in GEN if hash_of(g[1]) != g[4]]
    skip = {o for g in dirty for o in g[2]}
    want = set()
    for d in ('src', 'bin', 'vendor'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                p = os.path.relpath(os.path.join(root, f), REPO)
                if not p.endswith(('.c', '.h', '.l', '.y', '.re', '.gperf')): continue
                want.add(p)
                if p in skip: continue
                put(os.path.join(REPO, p), os.path.join(T, p))
    for root, dirs, files in os.walk(T):
        for f in files:
            p = os.path.relpath(os.path.join(root, f), T)
            if p not in want and p not in skip: os.unlink(os.path.join(T, p))
    for name, ins, outs, cmd, _ in dirty:
        stamp = B + '/gen-' + name
        key = hash_of(ins)
        if os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(os.path.join(T, o)) for o in outs):
            continue
        tmp = B + '/gentmp'
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        for i in ins: shutil.copyfile(os.path.join(REPO, i), os.path.join(tmp, os.path.basename(i)))
        subprocess.run(cmd, shell=True, cwd=tmp, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
        for o in outs:
            g = os.path.join(tmp, os.path.basename(o))
            if os.path.exists(g): put(g, os.path.join(T, o))
            else: put(os.path.join(REPO, o), os.path.join(T, o))
        open(stamp, 'w').write(key)
        shutil.rmtree(tmp, ignore_errors=True)

def ninja():
    H = V + '/harness'
    inc = f'-I{H}/config -I{T}/src -I{T}/vendor/sort_r -I{T}/vendor/xxhash -I/usr/include/json-c -I{H}'
    san = {'asan': '-fsanitize=address,bounds -fno-sanitize-recover=bounds -fno-omit-frame-pointer',
           'tsan': '-fsanitize=thread -fno-omit-frame-pointer',
           'fuzz': '-fsanitize=address,bounds,fuzzer-no-link -fno-sanitize-recover=bounds -fno-omit-frame-pointer',
           'plain': ''}
    o = []
    w = o.append
    w('ninja_required_version = 1.5')
    w(f'builddir = {B}')
    for fl, s in san.items():
        w(f'rule cc_{fl}\n command = clang -O1 -g -fno-strict-aliasing -w -DHAVE_CONFIG_H {s} {inc} $extra -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = cc $out')
        w(f'rule cxx_{fl}\n command = clang++ -std=c++17 -O1 -g1 -fno-strict-aliasing -Wall -Wno-return-type-c-linkage -Wno-vla-cxx-extension -Wno-unused-function -DHAVE_CONFIG_H -DTREE=\\"{T}\\" {s} {inc} $extra -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = cxx $out')
        link = s.replace('fuzzer-no-link', 'fuzzer')
        w(f'rule ld_{fl}\n command = clang++ {link} $in -o $out -ltalloc -ljson-c -llmdb -lyaml -lpthread -lrt -lm\n description = ld $out')
        w(f'rule ldr_{fl}\n command = clang++ {s} $in -o $out -ltalloc -ljson-c -llmdb -lyaml -lpthread -lrt -lm\n description = ld $out')
    lib = {}
    for fl in san:
        lib[fl] = []
        for f in sorted(glob.glob(T + '/src/*.c')):
            obj = f'{B}/{fl}/lib_{os.path.basename(f)}.o'
            w(f'build {obj}: cc_{fl} {f}')
            lib[fl].append(obj)
        for f in ('pbt', 'hbs', 'model', 'gen'):
            if os.path.exists(f'{H}/{f}.cpp'):
                w(f'build {B}/{fl}/{f}.o: cxx_{fl} {H}/{f}.cpp')
        w(f'build {B}/{fl}/handlebarsc.o: cc_{fl} {T}/bin/handlebarsc.c')
        w(f'build {B}/{fl}/handlebarsc: ldr_{fl} {B}/{fl}/handlebarsc.o {" ".join(lib[fl])}')
        w(f'build cli_{fl}: phony {B}/{fl}/handlebarsc')
    common = [x for x in ('pbt', 'hbs', 'model', 'gen') if os.path.exists(f'{H}/{x}.cpp')]
    progs = []
    for f in sorted(glob.glob(H + '/c[0-9][0-9].cpp')):
        n = os.path.basename(f)[:-4]
        for fl in ('tsan',) if n == 'c23' else ('asan', 'plain'):
            w(f'build {B}/{fl}/{n}.o: cxx_{fl} {f}')
            w(f'build {B}/{fl}/{n}: ldr_{fl} {B}/{fl}/{n}.o {" ".join(f"{B}/{fl}/{c}.o" for c in common)} {" ".join(lib[fl])}')
            w(f'build {n}_{fl}: phony {B}/{fl}/{n}')
        w(f'build {n}: phony ' + (f'{B}/tsan/{n}' if n == 'c23' else f'{B}/asan/{n}'))
        progs.append(n)
    for f in sorted(glob.glob(H + '/fuzz_*.cpp')):
        n = os.path.basename(f)[:-4]
        w(f'build {B}/fuzz/{n}.o: cxx_fuzz {f}')
        w(f'build {B}/fuzz/{n}: ld_fuzz {B}/fuzz/{n}.o {" ".join(lib["fuzz"])}')
        w(f'build {n}: phony {B}/fuzz/{n}')
    w('build all: phony ' + ' '.join(progs) + ' cli_asan cli_plain')
    w('default all')
    txt = '\n'.join(o) + '\n'
    p = B + '/build.ninja'
    if not os.path.exists(p) or open(p).read() != txt: open(p, 'w').write(txt)

def build(targets):
    import fcntl
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror(); ninja()
        r = subprocess.run(['ninja', '-C', B, '-j', str(os.cpu_count() or 8)] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-8000:])
        return r.returncode

if __name__ == '__main__':
    sys.exit(build(sys.argv[1:] or ['all']))
