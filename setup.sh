#!/bin/sh
# nothing is built: the checks read /repo and run with the installed tools
mkdir -p /verif/evidence /verif/replays
/opt/venv/bin/python -c "import torch, networkx, mido" && python3-vt -c "import z3, cvc5"
