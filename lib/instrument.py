"""What every worker does before it imports the library: keep its noise and its side effects away."""
import logging
import os
import sys


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def install():
    logging.disable(logging.CRITICAL)
    # ply writes parser.out next to the grammars when it builds the tables: the working tree is left alone
    import ply.yacc as yacc
    original = yacc.yacc

    def quiet(*args, **kwargs):
        kwargs['debug'] = False
        return original(*args, **kwargs)
    yacc.yacc = quiet

    # progress bars and traces of the library go to stderr
    sys.stderr_real = sys.stderr
    sys.stderr = _Null()
    sys.dont_write_bytecode = True
    os.environ['TQDM_DISABLE'] = '1'
