"""The constants of the re module."""
import re


def constants(E):
    for n in ('A', 'ASCII', 'I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'L', 'LOCALE', 'U', 'UNICODE'):
        E.intrinsics['attr:re.' + n] = lambda E, v=int(getattr(re, n)): v
