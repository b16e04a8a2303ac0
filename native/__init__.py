def load():
    import importlib
    import os
    for n in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        if n.startswith('p_') and n.endswith('.py'):
            importlib.import_module('native.' + n[:-3])
