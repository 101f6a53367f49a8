#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.checks import CHECKS
from vlib.driver import main
main(CHECKS)
