from .functions import chunks, timeit, remove_equivalent
from .match import pmatch
