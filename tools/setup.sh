#!/bin/bash
# nothing to build: check that the interpreter and the code under test are importable
cd / && MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c 'import numpy, scipy, yaml, falco; print("falco", falco.__file__)'
