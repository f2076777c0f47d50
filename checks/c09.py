"""C09: a saved PVR file decodes back to exactly the texture."""
from files import *

if __name__ == '__main__':
    main(lambda: run_files('C09', 'PvrTrace', PVR, set()), 'C09')
