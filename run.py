#!/usr/bin/env python3
"""Static analysis of rusty_network: python3 run.py <property id>"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import main
sys.exit(main.main(sys.argv[1:]))
