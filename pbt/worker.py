# -*- coding: utf-8 -*-
"""Runs cases against the code under test.

Started by pbt.driver with the interpreter the repository is built for (PyPy): reads one JSON case per line on stdin,
runs ``run(case)`` of the property module against the repository's working tree, and answers one JSON line.
"""
import json
import os
import random
import resource
import sys
import traceback
import zlib

MEM_LIMIT = 3500 * 1024 * 1024


def main():
    repo, verif, name = sys.argv[1:4]
    # nothing the code under test prints may get mixed up with the answers
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.dont_write_bytecode = True
    sys.path.insert(0, verif)
    sys.path.insert(0, repo)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    try:
        import importlib
        import geometry
        import SR_Vessel
        for m in (geometry, SR_Vessel):
            if not os.path.abspath(m.__file__).startswith(os.path.abspath(repo) + os.sep):
                raise ImportError('%s does not come from %s' % (m.__file__, repo))
        module = importlib.import_module('pbt.props.' + name)
        run = module.run
        if hasattr(module, 'warm_up'):
            module.warm_up()
    except BaseException:
        out.write(json.dumps({'fatal': traceback.format_exc()}) + '\n')
        out.flush()
        return
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    for line in sys.stdin:
        case = json.loads(line)
        random.seed(zlib.crc32(line.encode('utf-8')))
        try:
            answer = {'obs': run(case)}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inner = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.abspath(repo) + os.sep)]
            where = ', '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in (inner or tb)[-3:])
            answer = {'exc': ('%s: %s' % (type(e).__name__, e))[:300], 'where': where, 'in_repo': bool(inner)}
        try:
            text = json.dumps(answer)
        except (TypeError, ValueError) as e:
            text = json.dumps({'exc': 'the observation is not plain data: %s' % e, 'where': 'worker', 'in_repo': False})
        out.write(text + '\n')
        out.flush()


if __name__ == '__main__':
    main()
