import sys
P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if P not in sys.path:
    sys.path.append(P)
