#!/usr/bin/env python3
"""run.py P01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import sys
from lib.runner import main
if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
