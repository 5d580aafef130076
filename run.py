#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--replay FILE]; VERIF_SEED, VERIF_TIER."""
import sys

sys.dont_write_bytecode = True
from vlib import main
from checks import CHECKS

sys.exit(main(CHECKS))
