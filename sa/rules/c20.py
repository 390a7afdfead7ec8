"""placeholder"""
from .common import reference


def run(ctx):
    reference(ctx)
