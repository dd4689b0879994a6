#!/usr/bin/env python3
"""check.py <property id>: decides one property. Tier and seed from VERIF_TIER and VERIF_SEED."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import vf
MODULES = dict(C01='layout', C02='layout', C03='layout', C04='layout', C05='addrspace', C06='layout', C07='layout',
               C08='instance', C09='scope', C10='values', C11='validity', C12='expr', C13='lexer', C14='determinism',
               C15='robust', C16='packages', C17='ident', C18='fidelity', C19='diag', C20='cli', C21='api')
def main():
    prop = sys.argv[1]
    try:
        c = vf.Check(prop)
        importlib.import_module('chk_' + MODULES[prop]).check(c)
        return c.finish()
    except vf.Inconclusive as e:
        print('INCONCLUSIVE property=%s: %s' % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
sys.exit(main())
