"""Driver for result folders (trace spec: TraceFolders).  Everything happens below a scratch folder."""
from lib import *
import shutil
import tempfile
from oranssi import utils
from h_static import cases

REAL_MKDIR = os.mkdir


def scan(root):
    dirs, files, meta = [], [], {}
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        comps = [] if rel == '.' else rel.split(os.sep)
        st = os.stat(d)
        dirs.append(comps)
        meta[tuple(comps)] = (st.st_ino, st.st_mode)
        for f in fs:
            with open(os.path.join(d, f)) as h:
                s = h.read()
            files.append(dict(p=comps + [f], c=int(s) if s.strip().lstrip('-').isdigit() else -99))
            st = os.stat(os.path.join(d, f))
            meta[tuple(comps + [f])] = (st.st_ino, st.st_mode, st.st_mtime_ns)
    return dirs, files, meta


def history(root, ops):
    evs = []
    os.chdir(root)
    for o in ops:
        full = os.path.join(root, *o['p'])
        if o['op'] == 'write':
            try:
                with open(full, 'w') as f:
                    f.write(str(o['c']))
            except FileNotFoundError:       # an earlier request did not leave the folder it was asked for
                break
            evs.append(dict(o, a='env', err=''))
            continue
        if o['op'] == 'remove':
            assert full.startswith(root + os.sep)
            shutil.rmtree(full, ignore_errors=True)
            evs.append(dict(o, a='env', err=''))
            continue
        k = o['k']
        base, name = list(o['p'][:k]), os.path.join(*o['p'][k:])
        if o['form'] == 'rel':
            b = os.path.join('.', *base) if base else ''
        elif o['form'] == 'slash':
            b = os.path.join(root, *base) + os.sep
        elif o['form'] == 'dot':
            b = os.path.join(root, '.', *base)
        elif o['form'] == 'dots':
            b = os.path.join(root, '..', os.path.basename(root), *base)
        elif o['form'] == 'empty':      # everything in the name, nothing in the path
            b, name = '', os.path.join(*o['p'])
        elif o['form'] == 'trail':
            b, name = os.path.join(root, *base) + os.sep + os.sep, os.path.join('.', name)
        else:
            b = os.path.join(root, *base)
        _, _, meta = scan(root)
        if o['op'] == 'race':
            hit = []

            def rival(path, *a, **kw):
                """another process creates the whole folder just before the first folder is made here"""
                if not hit:
                    hit.append(1)
                    p = root
                    for c in o['p']:
                        p = os.path.join(p, c)
                        if not os.path.isdir(p):
                            REAL_MKDIR(p)
                    with open(os.path.join(p, 'rival'), 'w') as f:
                        f.write('9')
                return REAL_MKDIR(path, *a, **kw)
            os.mkdir = rival
            try:
                v, err = call(utils.save_path_creator, b, name, limit=20)
            finally:
                os.mkdir = REAL_MKDIR
            if not hit:
                # created by other means: the rival was not seen; treat as a plain request
                o = dict(o, op='ask')
        else:
            v, err = call(utils.save_path_creator, b, name, limit=20)
        base_ev = dict(o, a='ask')

        def build():
            if not isinstance(v, (str, os.PathLike)):
                raise Bad('returned %r' % (v,))
            rel = os.path.relpath(os.path.normpath(os.path.join(root, os.fspath(v))), root)
            dirs, files, m = scan(root)
            return dict(joined=os.fspath(v) == os.path.join(b, name), ret=[] if rel == '.' else rel.split(os.sep), dirs=dirs, files=files, same=all(m.get(x) == y for x, y in meta.items()))
        evs.append(dict(base_ev, err=err) if err else event(base_ev, build))
        if evs[-1]['err']:
            break
    return evs


def c24(out, rng, tier):
    here = os.getcwd()
    scratch = os.environ['VERIF_SCRATCH']
    for i, c in enumerate(cases('folders')):
        root = os.path.realpath(tempfile.mkdtemp(prefix='folders_', dir=scratch))
        try:
            out.add('folders', 'history %d' % i, history(root, c['ops']))
        finally:
            os.chdir(here)
            shutil.rmtree(root, ignore_errors=True)


SELFTEST = {'*': dict(ask=[('dirs', lambda v, rng: v[:-1]), ('same', swap_false), ('joined', swap_false), ('files', lambda v, rng: v[:-1] if v else None), ('ret', lambda v, rng: v + ['x'])])}
