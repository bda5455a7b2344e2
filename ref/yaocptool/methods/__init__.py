from .augmented_lagrangian import AugmentedLagrangian
from .base.optimizationresult import OptimizationResult
from .base.solutionmethodinterface import SolutionMethodInterface
from .base.solutionmethodsbase import SolutionMethodsBase
from .classic.directmethod import DirectMethod
from .classic.indirectmethod import IndirectMethod
__all__ = [OptimizationResult, SolutionMethodInterface, SolutionMethodsBase, AugmentedLagrangian, DirectMethod, IndirectMethod]
