from . import tensormethod
from . import completions
from . import database
from . import analysis
