"""Translate /repo's Python 2 sources to Python 3, the way the project's build here does
(lib2to3 with all fixers plus classic division), into a scratch directory."""
import os
import sys
import re
import shutil
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
PY2 = os.path.join(HERE, 'py2')


def translate(repo, dest):
    """Returns {relative path: error} for files that cannot be translated."""
    warnings.simplefilter('ignore')
    if PY2 not in sys.path:
        sys.path.insert(0, PY2)
    from lib2to3.refactor import RefactoringTool, get_fixers_from_package
    import logging
    logging.getLogger('RefactoringTool').setLevel(logging.CRITICAL)
    fixers = get_fixers_from_package('lib2to3.fixes') + ['fix_classic_div']
    tool = RefactoringTool(fixers)
    errors = {}
    root = os.path.join(repo, 'pykrylov')
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__', 'build', 'dist'))
        for n in sorted(files):
            if not n.endswith('.py') or n == 'setup.py':
                continue
            src = os.path.join(d, n)
            rel = os.path.relpath(src, repo)
            dst = os.path.join(dest, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            try:
                raw, _ = tool._read_python_source(src)
                if raw and not raw.endswith('\n'):
                    raw += '\n'
                tree = tool.refactor_string(raw, src) if raw.strip() else raw
                if tree is None:
                    raise ValueError('cannot be parsed')
                text = str(tree)
                compile(text, src, 'exec', dont_inherit=True)
            except Exception as e:
                errors[rel] = '%s: %s' % (type(e).__name__, e)
                text = 'raise SyntaxError(%r)\n' % (rel + ': ' + errors[rel])
            with open(dst, 'w', encoding='utf-8') as f:
                f.write(re.sub(r'(?m)\A((?:#.*\n)?)(#.*coding[:=]\s*)[-\w.]+', r'\1\2utf-8', text))
    shutil.copyfile(os.path.join(PY2, 'py2rt.py'), os.path.join(dest, '_py2rt.py'))
    return errors
