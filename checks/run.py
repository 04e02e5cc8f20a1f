#!/usr/bin/env python3
"""run.py <property>: runs the check of one property (VERIF_TIER, VERIF_SEED from the environment)"""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracle'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
mod = importlib.import_module(sys.argv[1].lower())
vlib.main(mod.run)
