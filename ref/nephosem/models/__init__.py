from .typetoken import *
from .cbc import *