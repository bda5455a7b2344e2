from .algebraic_mixin import AlgebraicMixin
from .continuous_states_mixin import ContinuousStateMixin
from .control_mixin import ControlMixin
from .parameter_mixin import ParameterMixin
