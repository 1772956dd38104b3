#!/usr/bin/env python3
"""Builds the simulator and the code under test from REPO (default /repo) into /verif/build.

Every object is cached under a hash of the preprocessed source and the flags, so a changed tree always gives
changed objects.  usage: build.py [main|thr|pattern|zero]...   prints the path of the binary.
"""
import os, shutil, sys, glob, hashlib, subprocess, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
CACHE = os.path.join(OUT, 'cache')
os.makedirs(CACHE, exist_ok=True)
DEF = ['-DL_ENDIAN', '-DHAVE_ADDCARRY_U64', '-DBUILDING_ENGINE_AS_LIBRARY']
CCW = ['-w', '-g', '-fno-omit-frame-pointer', '-DOPENSSL_API_COMPAT=0x10100000L']

def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)
    if r.returncode:
        sys.stderr.write('command failed: %s\n%s\n' % (' '.join(cmd), r.stderr.decode(errors='replace')[-4000:]))
        sys.exit(3)
    return r.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b'\0')
    return m.hexdigest()[:32]

def fin(tmp, out):
    os.rename(tmp, out)

def compile_obj(src, cc, flags):
    pre = run([cc, '-E'] + flags + [src])
    out = os.path.join(CACHE, os.path.basename(src) + '.' + h(pre, cc, ' '.join(flags)) + '.o')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        run([cc] + flags + ['-c', src, '-o', tmp])
        fin(tmp, out)
    return out

def derive(tag, inputs, fn):
    key = h(tag, *[open(i, 'rb').read() for i in inputs])
    out = os.path.join(CACHE, tag.split()[0] + '.' + key + '.o')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        fn(tmp); fin(tmp, out)
    return out

def deps():
    l = []
    for line in open(os.path.join(HERE, 'deps.txt')):
        line = line.split('#')[0].split()
        if line: l.append((line[0], line[1]))
    return l

def write_if(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        tmp = path + '.%d.tmp' % os.getpid()
        open(tmp, 'w').write(text); os.rename(tmp, path)

def trampolines():
    a = ['.text']; names = []
    for i, (n, ret) in enumerate(deps()):
        names.append(n)
        a.append(f'''
.globl simt_{n}
.type simt_{n},@function
simt_{n}:
 push %rdi
 push %rsi
 push %rdx
 push %rcx
 push %r8
 push %r9
 push %rax
 mov ${i}, %edi
 call sim_dep_hook@PLT
 test %eax, %eax
 pop %rax
 pop %r9
 pop %r8
 pop %rcx
 pop %rdx
 pop %rsi
 pop %rdi
 jnz 1f
 jmp {n}@PLT
1: ''' + ('xor %eax, %eax' if ret in ('0', 'observe') else 'mov $-1, %rax') + '\n ret\n')
    a.append('.section .note.GNU-stack,"",@progbits\n')
    write_if(os.path.join(OUT, 'tramp.S'), '\n'.join(a))
    c = '#include "core.h"\nstatic const char *n[] = {' + ','.join('"%s"' % x for x in names) + '};\n' \
        + 'const char *dep_name(unsigned i) { return i < sizeof n / sizeof *n ? n[i] : "?"; }\n' \
        + 'unsigned dep_count() { return sizeof n / sizeof *n; }\n' \
        + 'bool dep_observe_only(unsigned i) { static const bool o[] = {' + ','.join('true' if r == 'observe' else 'false' for _, r in deps()) + '}; return o[i]; }\n'
    write_if(os.path.join(OUT, 'deptab.cc'), c)
    return os.path.join(OUT, 'tramp.S'), os.path.join(OUT, 'deptab.cc')

def redef_file():
    p = os.path.join(OUT, 'redef.txt')
    write_if(p, ''.join(f'{n} simt_{n}\n' for n, _ in deps()))
    return p

def core_sources():
    s = []
    for f in sorted(glob.glob(os.path.join(REPO, '*.c'))):
        b = os.path.basename(f)
        if b.startswith('test_') or b.startswith('gost_prov') or b in ('gostsum.c', 'gost12sum.c'): continue
        s.append(f)
    return s

TOOL_REDEF = ['open', 'open64', 'read', 'close', 'fopen', 'fopen64', 'exit', '_exit', 'abort', 'perror', 'printf', 'puts', 'putchar',
              'vprintf', '__printf_chk', '__read_chk', 'stdin', 'stdout', 'stderr', 'fileno', 'fstat', 'stat', 'lseek', 'unlink', 'remove',
              'rename', 'write', 'system', 'freopen', 'openat', 'fstat64', 'stat64', 'lseek64', 'getchar', 'pread', 'fdopen']

def build_main(extra=[]):
    """extra: flags for the code under test, e.g. what its uninitialised locals hold."""
    run_pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
    asan = ['-fsanitize=address']
    eng_flags = DEF + CCW + ['-std=gnu90', '-O1', '-I' + REPO, '-fPIC'] + asan + extra
    tramp, deptab = trampolines(); redef = redef_file()
    fut = []
    def eng(src):
        o = compile_obj(src, 'gcc', eng_flags + ['-fno-sanitize-recover=all'])
        return derive('dep_' + os.path.basename(src), [o, redef], lambda t: run(['objcopy', '--redefine-syms=' + redef, o, t]))
    core = [(s, run_pool.submit(eng, s)) for s in sorted(core_sources(), key=lambda s: -os.path.getsize(s))]
    pf = ['-DBUILDING_GOST_PROVIDER', '-DBUILDING_PROVIDER_AS_LIBRARY', '-DOPENSSL_NO_DYNAMIC_ENGINE', '-I' + os.path.join(HERE, 'sim/provstub')]
    def prov(src):
        o = compile_obj(src, 'gcc', pf + [x for x in eng_flags if x != '-std=gnu90'])
        return derive('dep_' + os.path.basename(src), [o, redef], lambda t: run(['objcopy', '--redefine-syms=' + redef, o, t]))
    def dyn(src):
        o = compile_obj(src, 'gcc', [x for x in eng_flags if x != '-DBUILDING_ENGINE_AS_LIBRARY'] + ['-fno-sanitize-recover=all'])
        return derive('dep_dyn_' + os.path.basename(src), [o, redef], lambda t: run(['objcopy', '--redefine-syms=' + redef, o, t]))
    dynobj = run_pool.submit(dyn, os.path.join(REPO, 'gost_eng.c'))
    psrc = sorted(glob.glob(os.path.join(REPO, 'gost_prov*.c'))) + [os.path.join(REPO, 'gost_eng.c')]
    pobj = [run_pool.submit(prov, s) for s in psrc]
    pstub = run_pool.submit(compile_obj, os.path.join(HERE, 'sim/provstub/err.c'), 'gcc', ['-w', '-O1', '-fPIC', '-I' + os.path.join(HERE, 'sim/provstub')])
    def tool(name):
        return compile_obj(os.path.join(REPO, name + '.c'), 'gcc', ['-w', '-g', '-fno-omit-frame-pointer', '-O1', '-fPIC', '-I' + REPO, '-Dmain=sim_%s_main' % name, '-U_FORTIFY_SOURCE'] + asan + extra)
    tools = {n: run_pool.submit(tool, n) for n in ('gostsum', 'gost12sum')}
    hflags = ['-std=c++17', '-O2', '-g', '-w', '-fPIC', '-I' + os.path.join(HERE, 'sim'), '-I' + REPO, '-DOPENSSL_SUPPRESS_DEPRECATED', '-DL_ENDIAN', '-DHAVE_ADDCARRY_U64']
    hsrc = sorted(glob.glob(os.path.join(HERE, 'sim/*.cc')) + glob.glob(os.path.join(HERE, 'sim/scen/*.cc')) + [deptab])
    hobj = [run_pool.submit(compile_obj, s, 'g++', hflags) for s in hsrc]
    tr = run_pool.submit(compile_obj, tramp, 'gcc', ['-c'])
    cobj = {os.path.basename(s): f.result() for s, f in core}
    # provider: its own private copy of the core
    pin = [f.result() for f in pobj] + [pstub.result()] + [o for b, o in cobj.items() if b not in ('gost_eng.c', 'e_gost_err.c')]
    def mkprov(t):
        run(['ld', '-r', '-o', t + '.r'] + pin)
        run(['objcopy', '--keep-global-symbol=GOST_provider_init', t + '.r', t]); os.unlink(t + '.r')
    provo = derive('provider', pin, mkprov)
    tredef = os.path.join(OUT, 'tredef.txt')
    write_if(tredef, ''.join(f'{n} simio_{n}\n' for n in TOOL_REDEF))
    tout = []
    arch = os.path.join(CACHE, 'core.' + h(*[os.path.basename(o) for o in cobj.values()]) + '.a')
    if not os.path.exists(arch):
        t = arch + '.%d.tmp' % os.getpid()
        run(['ar', 'crs', t] + list(cobj.values())); fin(t, arch)
    for n, f in tools.items():
        tin = [f.result(), arch]
        def mk(t, tin=tin, n=n):
            run(['objcopy', '--redefine-syms=' + tredef, tin[0], t + '.x'])
            run(['ld', '-r', '-o', t + '.r', t + '.x'] + tin[1:])
            run(['objcopy', '--keep-global-symbol=sim_%s_main' % n, t + '.r', t]); os.unlink(t + '.r'); os.unlink(t + '.x')
        tout.append(derive('tool_' + n, tin + [tredef], mk))
    # the engine as the loadable module it is normally deployed as
    sobj = [o for b, o in cobj.items() if b != 'gost_eng.c'] + [dynobj.result()]
    def mkso(t):
        run(['gcc', '-shared', '-fsanitize=address', '-Wl,-Bsymbolic', '-o', t] + sobj)
    so = derive('gostmodule', sobj, mkso)
    dynlist = os.path.join(OUT, 'dynlist.txt')
    write_if(dynlist, '{' + ''.join(f'simt_{n};' for n, _ in deps()) + '};\n')
    objs = list(cobj.values()) + [provo] + tout + [f.result() for f in hobj] + [tr.result()]
    key = h(*[os.path.basename(o) for o in objs + [so]])
    binp = os.path.join(OUT, 'sim-' + key)
    if not os.path.exists(binp):
        tmp = binp + '.%d.tmp' % os.getpid()
        run(['g++', '-fsanitize=address', '-g', '-Wl,--dynamic-list=' + dynlist, '-o', tmp] + objs + ['-lssl', '-lcrypto', '-lpthread', '-ldl'])
        shutil.copy(so, binp + '.so')
        fin(tmp, binp)
    return binp

def build_thr():
    """The engine compiled so that each memory access is announced, under the thread scheduler."""
    pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
    flags = DEF + CCW + ['-std=gnu90', '-O1', '-I' + REPO, '-fPIC', '-fsanitize=thread', '--param=tsan-distinguish-volatile=0', '-U_FORTIFY_SOURCE']
    tramp, deptab = trampolines(); redef = redef_file()
    tredef = os.path.join(OUT, 'thrredef.txt')
    write_if(tredef, open(redef).read() + ''.join(f'{n} thr_{n}\n' for n in ('memcpy', 'memmove', 'memset')))
    def eng(src):
        o = compile_obj(src, 'gcc', flags)
        return derive('thr_' + os.path.basename(src), [o, tredef], lambda t: run(['objcopy', '--redefine-syms=' + tredef, o, t]))
    core = [pool.submit(eng, s) for s in sorted(core_sources(), key=lambda s: -os.path.getsize(s))]
    hflags = ['-std=c++17', '-O2', '-g', '-w', '-fPIC', '-I' + os.path.join(HERE, 'sim'), '-I' + REPO, '-DOPENSSL_SUPPRESS_DEPRECATED', '-DL_ENDIAN', '-DHAVE_ADDCARRY_U64']
    hsrc = [s for s in sorted(glob.glob(os.path.join(HERE, 'sim/*.cc'))) if not s.endswith('/simio.cc')] + sorted(glob.glob(os.path.join(HERE, 'sim/thr/*.cc'))) + [deptab]
    hobj = [pool.submit(compile_obj, s, 'g++', hflags) for s in hsrc]
    tr = pool.submit(compile_obj, tramp, 'gcc', ['-c'])
    objs = [f.result() for f in core + hobj + [tr]]
    binp = os.path.join(OUT, 'simthr-' + h(*[os.path.basename(o) for o in objs]))
    if not os.path.exists(binp):
        tmp = binp + '.%d.tmp' % os.getpid()
        run(['g++', '-g', '-o', tmp] + objs + ['-lssl', '-lcrypto', '-lpthread', '-ldl'])
        fin(tmp, binp)
    return binp

if __name__ == '__main__':
    what = sys.argv[1:] or ['main']
    for w in what:
        print(build_thr() if w == 'thr' else build_main({'main': [], 'pattern': ['-ftrivial-auto-var-init=pattern'], 'zero': ['-ftrivial-auto-var-init=zero']}[w]))
