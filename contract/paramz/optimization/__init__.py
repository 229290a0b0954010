from .optimization import *
from . import verbose_optimization
