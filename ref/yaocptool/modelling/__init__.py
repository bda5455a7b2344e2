from .dae_system import DAESystem
from .dataset import DataSet
from .network.network import Network
from .network.node import Node
from .ocp import OptimalControlProblem
from .simulation_result import SimulationResult
from .stochastic_ocp import StochasticOCP
from .system_model import SystemModel
from .utils import der
