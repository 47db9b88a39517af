"""Contracts and property goals, discharged by pyvc."""
import importlib

MODULES = ['contracts', 'alphabet', 'dtr', 'c01', 'c03', 'c17', 'c19', 'c20',
           'c22', 'c10', 'c05', 'c07', 'c09', 'c11', 'c12', 'c21', 'c02', 'c04']


def load():
    for m in MODULES:
        importlib.import_module('specs.' + m)
