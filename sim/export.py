"""Build what omg-tools exports to C++ and talk to it.

The exported sources, the exported Makefile and a small driver (sim/cpp) are
built in a scratch directory outside the repository; the resulting program is
a simulated node: it has no clock and no I/O of its own, every instant,
measurement and message reaches it through its standard input.
"""
import os
import shutil
import subprocess
import tempfile
from .boot import *      # noqa

CXX = next((c for c in ('/usr/bin/g++-9', '/usr/bin/g++') if os.path.exists(c)), 'g++')
# an index out of range or a missing return value ends the program
FLAGS = ' -Wl,--as-needed -fsanitize=return -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS'
HEAD = {'p2p': 'Point2Point', 'formation': 'FormationPoint2Point', 'rendezvous': 'RendezVous'}


class BuildError(Exception):
    pass


class Exported:
    """context manager: an exported, built and running controller"""

    def __init__(self, problem, kind, driver, opt=None):
        self.problem, self.kind, self.driver, self.opt = problem, kind, driver, opt or {}
        self.proc = None

    def __enter__(self):
        self.base = tempfile.mkdtemp(prefix='omgsim-cpp-')
        self.cwd = os.getcwd()
        try:
            self.build()
        except BaseException:
            self.close()
            raise
        return self

    def build(self):
        ns = self.opt.get('namespace', 'omg')
        d = os.path.join(self.base, self.opt.get('dir', 'export'))
        if self.opt.get('slash', True):
            d += '/'
        os.chdir(self.base)
        vehicle = 'Holonomic_%s' % ns
        o = {'directory': d, 'casadiobj': os.path.join(d, 'bin'), 'namespace': ns,
             'sourcefiles': 'driver.cpp %s.cpp' % vehicle, 'executable': 'driver'}
        with quiet():
            self.problem.export(o)
        head = '%s_%s.hpp' % (HEAD[self.kind], ns)
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cpp', self.driver + '_driver.cpp')) as f:
            src = f.read()
        src = src.replace('@HEADER@', head).replace('@VEHICLE@', vehicle + '.hpp').replace('@NS@', ns).replace('@CLASS@', HEAD[self.kind])
        with open(os.path.join(d, 'src', 'driver.cpp'), 'w') as f:
            f.write(src)
        self.dir = d
        env = dict(os.environ, MAKEFLAGS='', LC_ALL='C')
        p = subprocess.run(['make', '-s', '-C', d, 'CXX=' + CXX + FLAGS], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL)
        if p.returncode != 0:
            raise BuildError(p.stdout.decode(errors='replace')[-1500:].replace(self.base, ''))
        self.start()

    def start(self):
        self.kill()
        self.err = open(os.path.join(self.base, 'stderr'), 'w+')
        self.proc = subprocess.Popen([os.path.join(self.dir, 'bin', 'driver')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self.err, text=True, cwd=self.base)

    def ask(self, *words):
        """-> dict of the lines answered, None when the program died"""
        line = ' '.join(repr(float(x)) if isinstance(x, (float, np.floating)) else str(x) for x in words)
        try:
            self.proc.stdin.write(line + '\n')
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            return None
        out = {}
        while True:
            l = self.proc.stdout.readline()
            if not l:
                return None
            l = l.split()
            if l[0] == 'end':
                return out
            out[l[0]] = l[1] if l[0] == 'status' and len(l) > 1 else np.array([float(x) for x in l[1:]])

    def epitaph(self):
        self.proc.wait()
        self.err.flush()
        self.err.seek(0)
        return 'exit %s %s' % (self.proc.returncode, self.err.read()[-300:].replace(self.base, ''))

    def kill(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.err.close()
            self.proc = None

    def close(self):
        self.kill()
        os.chdir(self.cwd)
        shutil.rmtree(self.base, ignore_errors=True)

    def __exit__(self, *a):
        self.close()
