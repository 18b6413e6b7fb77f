"""Turns /repo/src into IR facts.

configure() : runs the repository's own configure + pl_config in a private copy (the headers they
              generate are needed to parse the C sources), cached by the content of their inputs.
load()      : compiles every C unit of /repo/src (current content) with clang 18 to unoptimised IR
              and loads the facts printed by .work/bin/irdump.
Nothing of the program under analysis is executed apart from that header generator.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GPL_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
WORK = os.path.join(VERIF, '.work')
IRDUMP = os.path.join(WORK, 'bin', 'irdump')
CLANG = '/usr/bin/clang-18'
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C.UTF-8',
       'HOME': os.environ.get('HOME', '/root')}
GEN = ['gp_config.h', 'wam_archi.h', 'wam_regs.h', 'wam_stacks.h', 'gprolog_cst.h']

EXCLUDE = {
    'EnginePl': {'unify.c',             # included by wam_inst.c
                 'pl_config.c', 'try_sigaction.c', 'trampoline-old.c', 'test_uc.c', 'winsup.c',
                 'LINUX_SIGSEGV.c', 'PPC_SIGSEGV.c', 'SOLARIS_SIGSEGV.c', 'WIN32_SIGSEGV.c',
                 'WIN32_all_SIGSEGV.c', 'WIN_SIGSEGV.c', 'os_detect.c', 'unit_ctor.c'},
    'BipsPl': {'t_c.c'},
    'EngineFD': set(),
    'BipsFD': {'t_c.c', 't_fd.c'},
    'Linedit': {'test_linedit.c', 'test_noecho.c'},
    'Wam2Ma': set(),
    'TopComp': set(),
}
UNSIGNED = {'BipsPl', 'Linedit', 'BipsFD'}


class AnalysisBroken(Exception):
    """The analysis lost an anchor or cannot be run: never a pass, never a violation."""


def _sha(paths, extra=b''):
    h = hashlib.sha256(extra)
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    stamp = IRDUMP + '.sha'
    want = _sha([src])
    if os.path.exists(IRDUMP) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    tmp = IRDUMP + '.%d' % os.getpid()
    subprocess.run(['/usr/bin/clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include',
                    src, '-o', tmp, '/usr/lib/llvm-18/lib/libLLVM-18.so'], check=True, env=ENV)
    os.rename(tmp, IRDUMP)
    open(stamp, 'w').write(want)


def configure(regs=False):
    """the generated headers; regs: as the program is built, with machine registers (the analysis of the engine takes globals instead)"""
    ins = sorted(glob.glob(SRC + '/**/*.in', recursive=True)) + [SRC + '/configure']
    ins += sorted(glob.glob(SRC + '/EnginePl/*.def'))
    for n in ('pl_config.c', 'arch_dep.h', 'machine_regs.h', 'machine.h', 'stacks_sigsegv.h', 'stacks_sigsegv.c',
              'pl_long.h', 'pl_params.h', 'LINUX_SIGSEGV.c', 'try_sigaction.c'):
        p = SRC + '/EnginePl/' + n
        if os.path.exists(p):
            ins.append(p)
    key = _sha(ins)[:24]
    out = os.path.join(WORK, 'cfg', key + ('-regs' if regs else ''))
    if all(os.path.exists(os.path.join(out, 'EnginePl', g)) for g in GEN):
        return out
    os.makedirs(os.path.join(WORK, 'cfg'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='conf-', dir=WORK)
    try:
        subprocess.run(['cp', '-a', SRC, tmp + '/src'], check=True)
        for f in ('COPYING', 'VERSION'):
            if os.path.exists(REPO + '/' + f):
                shutil.copy(REPO + '/' + f, tmp)
        env = dict(ENV, CC='gcc')
        os.chmod(tmp + '/src/configure', 0o755)
        r = subprocess.run('./configure %s && make -C EnginePl pl_config wam_regs.h' % ('' if regs else '--disable-regs'), shell=True,
                           cwd=tmp + '/src', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise AnalysisBroken('configure step failed:\n' + r.stdout.decode(errors='replace')[-2000:])
        o2 = out + '.%d' % os.getpid()
        os.makedirs(o2 + '/EnginePl', exist_ok=True)
        for g in GEN:
            shutil.copy(tmp + '/src/EnginePl/' + g, o2 + '/EnginePl')
        shutil.rmtree(out, ignore_errors=True)
        os.rename(o2, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def units():
    r = []
    for d, ex in EXCLUDE.items():
        for p in sorted(glob.glob('%s/%s/*.c' % (SRC, d))):
            if os.path.basename(p) not in ex:
                r.append((d, p))
    return r


def _compile(args):
    d, path, cfg, extra, passes = args
    bc = tempfile.NamedTemporaryFile(prefix='ir-', suffix='.bc', dir=WORK, delete=False)
    bc.close()
    try:
        cmd = [CLANG, '-w', '-std=gnu17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-strict-aliasing',
               '-fcommon', '-fno-builtin']
        if d in UNSIGNED:
            cmd.append('-funsigned-char')
        cmd += ['-I' + cfg + '/EnginePl'] + ['-I%s/%s' % (SRC, x) for x in
                               ('EnginePl', 'BipsPl', 'EngineFD', 'BipsFD', 'Linedit', 'TopComp', 'Wam2Ma')]
        cmd += extra + ['-emit-llvm', '-c', path, '-o', bc.name]
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return path, None, r.stdout.decode(errors='replace')[-1500:]
        r = subprocess.run([IRDUMP, bc.name] + ([passes] if passes else []), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            return path, None, r.stderr.decode(errors='replace')[-1500:]
        return path, r.stdout, None
    finally:
        if os.path.exists(bc.name):
            os.unlink(bc.name)


def compile_units(us, extra=(), passes=None):
    ensure_tool()
    cfg = configure()
    res = {}
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for path, out, err in ex.map(_compile, [(d, p, cfg, list(extra), passes) for d, p in us]):
            if err is not None:
                raise AnalysisBroken('cannot parse %s:\n%s' % (path, err))
            res[path] = out
    return res


PROBE = os.path.join(VERIF, 'gpl', 'probe.c')

if __name__ == '__main__':
    import time
    t = time.time()
    os.makedirs(WORK, exist_ok=True)
    ensure_tool()
    configure()
    r = compile_units(units())
    print('prep: %d units, %d bytes of facts, %.1fs' % (len(r), sum(map(len, r.values())), time.time() - t))
