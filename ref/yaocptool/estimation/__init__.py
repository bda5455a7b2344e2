from .extended_kalman_filter import ExtendedKalmanFilter
from .pce_kalman_filter import PCEKalmanFilter
from .unscented_kalman_filter import UnscentedKalmanFilter
