"""Self-test of the oracle: FIPS 202 against hashlib, FIPS 203 against the numpy twin and itself, tools present."""
import shutil, sys
from . import steer, spec, fast


def main():
    for tool in ('/usr/lib/llvm-18/bin/clang', '/usr/lib/llvm-18/bin/opt', 'gcc', 'objdump'):
        if shutil.which(tool) is None:
            print('missing', tool)
            return 1
    import numpy, z3
    spec.selftest()
    fast.selftest()
    steer.selftest()
    print('oracle self-test passed; z3', z3.get_version_string(), 'numpy', numpy.__version__)
    return 0


if __name__ == '__main__':
    sys.exit(main())
