import importlib


def load(pid):
    importlib.import_module(f'{__name__}.{pid.lower()}')
