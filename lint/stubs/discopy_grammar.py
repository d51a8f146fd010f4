"""A model of discopy.grammar."""
from discopy.grammar import pregroup
