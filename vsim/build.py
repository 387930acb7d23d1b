"""Builds the real binary from /repo's working tree and the simulator from /verif/sim."""
import os, sys, hashlib, subprocess, shutil, fcntl, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SKIP = {'target', '.git'}

def tree_hash(root, skip=SKIP):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if not (d == root and x in skip))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p): h.update(('%s>%s' % (os.path.relpath(p, root), os.readlink(p))).encode()); continue
            if f.endswith(('.sqlite', '.sqlite-journal')) : continue
            h.update(os.path.relpath(p, root).encode() + b'\0')
            with open(p, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]

def sh(cmd, **kw): return subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def ensure(verbose=True):
    """Returns dict(bin=, lib=, simrun=, tree=). Raises RuntimeError with the compiler's output when the tree does not build."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        simh = tree_hash(os.path.join(VERIF, 'sim'))
        sd = os.path.join(BUILD, 'sim-' + simh)
        if not os.path.exists(os.path.join(sd, 'simrun')):
            for o in glob.glob(os.path.join(BUILD, 'sim-*')): shutil.rmtree(o, ignore_errors=True)
            tmp = sd + '.tmp'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            p = sh('%s %s' % (os.path.join(VERIF, 'sim', 'build.sh'), tmp))
            if p.returncode: raise RuntimeError('simulator build failed:\n' + p.stdout.decode(errors='replace'))
            os.rename(tmp, sd)
        th = tree_hash(REPO)
        bd = os.path.join(BUILD, 'bin-' + th)
        out = os.path.join(bd, 'url-cleaner')
        if not os.path.exists(out):
            t0 = time.time()
            # Cargo decides freshness by file times; forget what it knows about this package so that the sources are what counts.
            target = os.path.join(REPO, 'target')
            for g in glob.glob(os.path.join(target, 'debug', '.fingerprint', 'url-cleaner-*')): shutil.rmtree(g, ignore_errors=True)
            env = '. /opt/vp/env.sh; cd %s; export CARGO_TARGET_DIR=%s; cargo build $ARGS --bin url-cleaner' % (REPO, target)
            if not os.path.exists('/opt/vp/env.sh'): env = 'cd %s; cargo build --workspace --offline --locked --features commands,custom --bin url-cleaner' % REPO
            p = sh(env)
            if p.returncode: raise RuntimeError('cargo build failed:\n' + p.stdout.decode(errors='replace')[-4000:])
            for o in sorted(glob.glob(os.path.join(BUILD, 'bin-*')), key=os.path.getmtime)[:-3]: shutil.rmtree(o, ignore_errors=True)
            tmp = bd + '.tmp'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            shutil.copy2(os.path.join(target, 'debug', 'url-cleaner'), os.path.join(tmp, 'url-cleaner'))
            if tree_hash(REPO) != th: raise RuntimeError('/repo changed while building')
            os.rename(tmp, bd)
            if verbose: print('built %s in %.1f s' % (th, time.time() - t0), flush=True)
        os.utime(bd)
        return dict(bin=out, lib=os.path.join(sd, 'libsim.so'), simrun=os.path.join(sd, 'simrun'), tree=th)

if __name__ == '__main__':
    try: print(ensure())
    except RuntimeError as e: print(e); sys.exit(3)
