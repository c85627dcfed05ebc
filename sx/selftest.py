"""Engine self-test: the repository's own tests must pass on the instrumented modules (fidelity of the instrumentation)."""
import os
import sys


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    from sx import instr
    instr.install()
    instr.import_all()
    import oblate
    assert oblate.__file__.startswith(instr.REPO)
    import pytest
    rc = pytest.main(['-q', '-x', '-p', 'no:cacheprovider', '--rootdir', instr.REPO, os.path.join(instr.REPO, 'tests')])
    if rc:
        print('WARNING: repository tests fail on the instrumented modules (every check validates its own traces as well)')
    return 0


if __name__ == '__main__':
    sys.exit(main())
