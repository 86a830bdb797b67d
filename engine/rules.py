import importlib, os
for f in sorted(os.listdir(os.path.dirname(__file__))):
    if f.startswith('rules_') and f.endswith('.py'):
        importlib.import_module('engine.' + f[:-3])
