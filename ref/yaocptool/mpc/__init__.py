from .mpc import MPC
from .plant import PlantInterface, PlantSimulation
