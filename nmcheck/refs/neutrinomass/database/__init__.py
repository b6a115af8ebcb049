from .export import *
from .closures import *
from .database import *
