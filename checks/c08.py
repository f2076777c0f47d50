"""C08: a saved KTX file decodes back to exactly the texture."""
from files import *

if __name__ == '__main__':
    main(lambda: run_files('C08', 'KtxTrace', KTX, NOKTX), 'C08')
