#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that the tree builds."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'py'))
sys.dont_write_bytecode = True
import build
build.make('opt', ['QEDCASC', 'h5json'])
print('ready')
