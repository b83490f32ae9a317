#!/usr/bin/env python3
"""python3 run.py <property> [--tier quick|thorough] [--seed n] [--cases n] [--replay file]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import engine
if __name__ == "__main__":
    engine.main(sys.argv[1:])
