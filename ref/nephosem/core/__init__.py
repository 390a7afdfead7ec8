from .handler import *
from .matrix import *
from .terms import *
from .vocab import *
from .graph import *

# __all__ = []
