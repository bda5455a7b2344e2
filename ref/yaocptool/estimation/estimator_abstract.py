class EstimatorAbstract:

    def __init__(self, **kwargs):
        self.t_s = 1.0
        self.t = 0.0
        for k, v in kwargs.items():
            setattr(self, k, v)

    def estimate(self, t_k, y_k, u_k):
        raise NotImplementedError
