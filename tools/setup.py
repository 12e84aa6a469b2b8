"""Warm-up: check the tools the checks need are present and build one configuration."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy, scipy, mpbbuild
mpbbuild.build("complex", what=("mpb", "core"))
print("ok")
