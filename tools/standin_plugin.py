import sys
import os
R = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = ['/verif', R + '/python', R + '/tests', R + '/tests/helper']
import standin; standin.install()
