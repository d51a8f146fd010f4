"""A model of packaging.version."""


def parse(v):
    return 0
