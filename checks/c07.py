"""C07: a saved DDS file decodes back to exactly the texture."""
from files import *

if __name__ == '__main__':
    main(lambda: run_files('C07', 'DdsTrace', DDS, NODDS), 'C07')
