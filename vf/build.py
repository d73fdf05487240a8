"""Builds the fact extractor, compiles /repo's current tree through it and loads the facts."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class Workspace:
    """scratch directory outside /repo and /verif, removed on exit (VF_KEEP=dir keeps one
    for development)"""

    def __init__(self):
        self.keep = os.environ.get('VF_KEEP')
        self.dir = self.keep or tempfile.mkdtemp(prefix='vf.')
        os.makedirs(self.dir, exist_ok=True)
        self.env = dict(os.environ, CARGO_NET_OFFLINE='true')
        self.env.pop('RUSTFLAGS', None)
        self.sys = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def sysroot(self):
        if self.sys is None:
            rc, o = sh(['rustc', '+nightly', '--print', 'sysroot'], self.env)
            self.sys = o.strip()
        return self.sys

    def driver(self):
        exe = os.path.join(self.dir, 'vfacts')
        src = os.path.join(HERE, 'driver', 'main.rs')
        if os.path.exists(exe) and os.path.getmtime(exe) > os.path.getmtime(src):
            return exe
        rc, o = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', exe], self.env, cwd=self.dir)
        if rc:
            raise BuildError('fact extractor does not build:\n' + o)
        return exe

    def crate(self, name):
        """copy a harness crate of /verif into the scratch directory, pointed at REPO"""
        d = os.path.join(self.dir, 'crate_' + name)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, name), d, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(d, 'Cargo.toml')
        s = open(p).read()
        if REPO != '/repo':
            s = s.replace('"/repo/', '"%s/' % REPO)
            open(p, 'w').write(s)
            p = os.path.join(d, 'src', 'app.rs')
            s = open(p).read().replace('"/repo/', '"%s/' % REPO)
            open(p, 'w').write(s)
        return d

    def facts_file(self, feature, name='roots'):
        exe = self.driver()
        d = self.crate(name)
        out = os.path.join(self.dir, feature + '.json')
        if os.path.exists(out):
            os.remove(out)
        for x in ('.fingerprint/vroots-*', 'build/vroots*'):
            for y in glob.glob(os.path.join(self.dir, 'target', 'debug', x)):
                shutil.rmtree(y, ignore_errors=True)
        red = os.path.join(self.dir, 'redirects_%s.txt' % feature)
        with open(red, 'w') as o:
            for x in ('redirects.txt', 'redirects_%s.txt' % feature):
                x = os.path.join(HERE, 'roots', x)
                if os.path.exists(x):
                    o.write(open(x).read())
        env = dict(self.env)
        env.update(LD_LIBRARY_PATH=self.sysroot() + '/lib', RUSTC_WRAPPER=exe,
                   RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums --cap-lints=allow',
                   VFACTS_OUT=out, VFACTS_REDIRECT=red,
                   CARGO_TARGET_DIR=os.path.join(self.dir, 'target'), CARGO_INCREMENTAL='0')
        rc, o = sh(['cargo', '+nightly', 'check', '--offline', '--features', feature], env, cwd=d)
        if rc or not os.path.exists(out):
            raise BuildError('the library or its entry points do not compile:\n' + '\n'.join(l for l in o.splitlines() if not l.startswith('warning'))[-6000:])
        return out

    def facts(self, feature, name='roots'):
        from .interp import Facts
        return Facts(self.facts_file(feature, name))
