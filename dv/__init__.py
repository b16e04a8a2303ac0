import sys
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
