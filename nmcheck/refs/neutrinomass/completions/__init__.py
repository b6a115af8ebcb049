from .core import EffectiveOperator, Completion
from .completions import are_equivalent_completions, operator_completions, completions, clean_completions, collect_completions, collect_models, filter_completions, deriv_operator_completions
from .operators import EFF_OPERATORS, DERIV_EFF_OPERATORS
