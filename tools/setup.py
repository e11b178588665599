"""Check that what the framework needs is there. (Nothing is built: everything is read from the sources on every run.)"""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
import z3
import attr
assert sys.version_info >= (3, 12)
print('python', sys.version.split()[0], 'z3', z3.get_version_string(), 'attrs', attr.__version__)
