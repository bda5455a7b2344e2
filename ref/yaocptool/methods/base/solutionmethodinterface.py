class SolutionMethodInterface(object):

    def __init__(self, *args, **kwargs) -> None:
        raise NotImplementedError

    def solve(self, *args, **kwargs):
        raise NotImplementedError

    def prepare(self):
        raise NotImplementedError
