from .util import *
