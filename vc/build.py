"""Compile the sources of /repo's working tree to IR / objects, fresh on every run."""
import os, subprocess, tempfile, atexit, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import ir, execu

REPO = os.environ.get('VC_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        e = os.environ.get('VC_SCRATCH')
        if e and os.path.isdir(e):
            _scratch = e
        else:
            _scratch = tempfile.mkdtemp(prefix='kyvc.')
            os.environ['VC_SCRATCH'] = _scratch
            pid = os.getpid()

            def rm(d=_scratch, pid=pid):
                if os.getpid() == pid:
                    shutil.rmtree(d, ignore_errors=True)
            atexit.register(rm)
    return _scratch


AVXFLAGS = ['-mavx2', '-mbmi2', '-mpopcnt', '-maes']


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr.decode(errors='replace')[-2000:])
    return r.stdout


# files the Makefiles put in the libraries (test drivers excluded)
def sources(impl):
    d = os.path.join(REPO, impl)
    mk = open(os.path.join(d, 'Makefile')).read()
    import re
    out = []
    mk = mk.replace('\\\n', ' ')
    var = {}
    for m in re.finditer(r'^(\w+)\s*=\s*(.*)$', mk, re.M):
        var[m.group(1)] = m.group(2)

    def expand(s):
        return re.sub(r'\$\((\w+)\)', lambda m: expand(var.get(m.group(1), '')), s)
    names = expand(var.get('SOURCESKECCAKRANDOM', var.get('SOURCESKECCAK', var.get('SOURCES', '')))).split()
    for n in names:
        if n.endswith('.o'):
            n = n[:-2] + '.c'
        if n.endswith(('.c', '.S', '.s')) and n not in out:
            out.append(n)
    if 'randombytes.c' not in out:
        out.append('randombytes.c')
    return out


def c_to_ll(impl, k, src):
    out = os.path.join(scratch(), '%s_%d_%s.ll' % (impl, k, src.replace('/', '_')))
    if os.path.exists(out):
        return out
    bc = out[:-3] + '.bc'
    flags = AVXFLAGS if impl == 'avx2' else []
    tmp = out + '.%d.tmp' % os.getpid()
    sh([LLVM + 'clang', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names' if False else '-w',
        '-emit-llvm', '-c', '-DKYBER_K=%d' % k] + flags + [os.path.join(REPO, impl, src), '-o', tmp + '.bc'])
    sh([LLVM + 'opt', '-passes=mem2reg', '-S', tmp + '.bc', '-o', tmp])
    os.unlink(tmp + '.bc')
    os.rename(tmp, out)
    return out


def s_to_obj(impl, k, src):
    out = os.path.join(scratch(), '%s_%d_%s.o' % (impl, k, src.replace('/', '_')))
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    sh(['gcc', '-c', '-DKYBER_K=%d' % k, '-Wa,-I' + os.path.join(REPO, impl)] + AVXFLAGS + [os.path.join(REPO, impl, src), '-o', tmp])
    os.rename(tmp, out)
    return out


def prog(impl, k, only=None):
    """parse everything (or the files named in only) and link"""
    p = execu.Prog()
    p.impl, p.k = impl, k
    srcs = sources(impl)
    cs = [s for s in srcs if s.endswith('.c')]
    ss = [s for s in srcs if not s.endswith('.c')]
    if only is not None:
        cs = [s for s in cs if only(s)]
        ss = [s for s in ss if only(s)]
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(lambda s: c_to_ll(impl, k, s), cs))
        objs = list(ex.map(lambda s: s_to_obj(impl, k, s), ss))
    for s, l in zip(cs, lls):
        m = ir.Module(s)
        m.parse(open(l).read())
        p.add(m)
    if objs:
        from . import asm
        for s, o in zip(ss, objs):
            for f in asm.load(o, s):
                p.asm[f.name] = f
    return p
