from .deputils import *
from .mxcalc import *
from .mxutils import *
