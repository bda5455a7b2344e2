import logging
from typing import Any, Dict
SOLVER_OPTIONS: Dict[str, Any] = {'nlpsol_options': {'ipopt.print_level': 0, 'print_time': False, 'ipopt.linear_solver': 'ma27', 'expand': True, 'ipopt.max_iter': 1000}}
INTEGRATOR_OPTIONS: Dict[str, Any] = {}
PLOT_INTERACTIVE: bool = False
logging.basicConfig(format='%(asctime)s.%(msecs)03d | %(levelname)s : %(message)s', datefmt='%H:%M:%S')
