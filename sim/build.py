"""Builds the code under test for the simulator.

Translates /repo's current working tree (Python 2.7) to Python 3 exactly as
/opt/vp/build.sh does (lib2to3 with all fixers, plus classic division), into
/verif/.build/<digest of the sources>. Nothing is written to /repo or /opt/vp.
Run by the PyPy of /opt/venv. Prints the directory to put on sys.path.
"""
import hashlib
import multiprocessing
import os
import re
import shutil
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
PY2 = os.path.join(HERE, 'py2')
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_BUILD', os.path.join(os.path.dirname(HERE), '.build'))


def sources():
    found = []
    top = os.path.join(REPO, 'pykrylov')
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs
                         if x not in ('tests', 'build', '__pycache__'))
        for n in sorted(files):
            if n.endswith('.py') and n != 'setup.py':
                found.append(os.path.join(d, n))
    return found


def digest(paths):
    h = hashlib.sha256()
    for own in ('build.py', 'py2/fix_classic_div.py', 'py2/py2rt.py'):
        h.update(open(os.path.join(HERE, own), 'rb').read())
    for p in paths:
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        h.update(open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


_tool = None


def translate(path):
    """The translated text of one file, or an error."""
    global _tool
    if _tool is None:
        from lib2to3.refactor import RefactoringTool, get_fixers_from_package
        sys.path.insert(0, PY2)
        fixers = get_fixers_from_package('lib2to3.fixes') + ['fix_classic_div']
        _tool = RefactoringTool(fixers)
    try:
        raw, _ = _tool._read_python_source(path)
        if raw and not raw.endswith('\n'):
            raw += '\n'
        tree = _tool.refactor_string(raw, path) if raw.strip() else raw
        if tree is None:
            raise ValueError('cannot be parsed')
        text = str(tree)
        compile(text, path, 'exec', dont_inherit=True)
    except Exception as e:
        return path, None, '%s: %s' % (type(e).__name__, e)
    text = re.sub(r'(?m)\A((?:#.*\n)?)(#.*coding[:=]\s*)[-\w.]+',
                  r'\1\2utf-8', text)
    return path, text, None


def build():
    """Returns the directory that holds the translated package."""
    paths = sources()
    if not paths:
        raise SystemExit('no sources in %s' % REPO)
    dest = os.path.join(OUT, digest(paths))
    if os.path.exists(os.path.join(dest, '.done')):
        return dest
    tmp = dest + '.%d' % os.getpid()
    # Big files first, so that the pool ends evenly.
    order = sorted(paths, key=lambda p: -os.path.getsize(p))
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        done = list(pool.imap_unordered(translate, order))
    bad = [(p, e) for p, _, e in done if e]
    if bad:
        for p, e in bad:
            sys.stderr.write('%s: %s\n' % (p, e))
        raise SystemExit(2)
    for p, text, _ in done:
        dst = os.path.join(tmp, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, 'w', encoding='utf-8') as f:
            f.write(text)
    shutil.copyfile(os.path.join(PY2, 'py2rt.py'), os.path.join(tmp, '_py2rt.py'))
    open(os.path.join(tmp, '.done'), 'w').close()
    try:
        os.rename(tmp, dest)
    except OSError:
        shutil.rmtree(tmp)      # Another check built the same tree meanwhile.
    # Keep the few newest builds only.
    old = sorted((os.path.join(OUT, d) for d in os.listdir(OUT)
                  if len(d) == 20 and os.path.join(OUT, d) != dest),
                 key=os.path.getmtime)
    for d in old[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    return dest


if __name__ == '__main__':
    sys.stdout.write(build() + '\n')
