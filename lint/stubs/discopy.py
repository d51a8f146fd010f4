"""A model of DisCoPy."""
__version__ = '1.2.0'
