#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import base
if __name__ == '__main__':
    sys.exit(base.main(sys.argv[1:]))
