"""A model of lambeq.backend.numerical_backend: the active backend is numpy."""
import numpy


class Active:
    name = 'numpy'

    def __getattr__(self, attr):
        return getattr(numpy, attr)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


ACTIVE = Active()


def backend(name=None):
    return ACTIVE


def get_backend():
    return ACTIVE


def set_backend(name):
    pass
