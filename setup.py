"""Builds the MIR driver (a few seconds); every check rebuilds it by itself when it is missing."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import extract
print(extract.driver())
